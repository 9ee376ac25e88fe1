// Exhaustive execution engine: every case of a family is executed on the real program
// (linked in, its main renamed to panda_main) in a forked child; 8 workers share the index space.
#pragma once
#include <cerrno>
#include <chrono>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int panda_main(int, char**);

namespace mc {

struct Run {
   std::vector<std::string> args;                              // without argv[0]
   std::vector<std::pair<std::string, std::string>> files;     // relative name -> content
};

struct Result {
   bool timeout = false;
   int sig = 0;
   int code = -1;
   int threads = 0;                                            // threads the program started
   std::string out, err;
   bool ok() const { return !timeout && sig == 0 && code == 0; }
   bool rejected() const { return !timeout && ((sig == 0 && code != 0) || sig == SIGABRT); } // orderly refusal (error exit or abort)
   std::string status() const {
      if (timeout) return "TIMEOUT";
      if (sig) return "signal " + std::to_string(sig);
      return "exit " + std::to_string(code);
   }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// Counts pthread_create calls of the program under test (props_cli.cpp), in a page shared with the forked child.
inline volatile int* threadCounter = nullptr;

struct Shared { volatile int stop; volatile long long done[64]; };

struct Ctx;
typedef std::function<std::string(Ctx&)> Body;

struct Ctx {
   int outFd = -1, errFd = -1;
   unsigned timeoutS = std::getenv("VP_FAST") ? 2 : 20;   // VP_FAST: for development only
   bool logRuns = false, counterMapped = false;
   std::string log;
   long long runs = 0;
   std::unordered_set<uint64_t> inputs, outputs;
   std::map<std::string, std::string> fileCache;
   std::map<std::string, long long> tags;
   void tag(const std::string& t) { ++tags[t]; }
#ifdef VP_ASAN
   std::string memory;                                         // first report of the sanitizers in the current case
   static std::string sanitizer(const Result& r) {
      for (const char* k : {"ERROR: AddressSanitizer", "runtime error:", "Assertion '"}) {
         auto p = r.err.find(k); if (p == std::string::npos) continue;
         auto b = r.err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
         std::string m = r.err.substr(b, r.err.find('\n', p) - b);
         auto q = m.find("=="); auto q2 = m.find("==", q + 2); if (q == 0 && q2 != std::string::npos) m = m.substr(q2 + 2);
         for (auto f = r.err.find(" in ", p); f != std::string::npos; f = r.err.find(" in ", f + 4)) { std::string l = r.err.substr(f, r.err.find('\n', f) - f); if (l.find("/src/") != std::string::npos) { m += " (" + l.substr(4, 160) + ")"; break; } }
         return m.substr(0, 600);
      }
      return "";
   }
#endif

   static std::string slurp(int fd) {
      struct stat st; fstat(fd, &st);
      std::string s(size_t(st.st_size), '\0');
      size_t off = 0;
      while (off < s.size()) { ssize_t k = pread(fd, &s[off], s.size() - off, off_t(off)); if (k <= 0) break; off += size_t(k); }
      s.resize(off);
      return s;
   }

   Result run(const Run& r) {
      uint64_t h = 7;
      for (auto& a : r.args) h = fnv(a + "\1", h);
      for (auto& f : r.files) h = fnv(f.first + "\2" + f.second + "\3", h);
      inputs.insert(h);
      ++runs;
      for (auto& f : r.files) {
         auto it = fileCache.find(f.first);
         if (it != fileCache.end() && it->second == f.second) continue;
         int fd = open(f.first.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
         if (fd < 0) { std::perror("open"); _exit(99); }
         size_t off = 0;
         while (off < f.second.size()) { ssize_t k = write(fd, f.second.data() + off, f.second.size() - off); if (k <= 0) { std::perror("write"); _exit(99); } off += size_t(k); }
         close(fd);
         fileCache[f.first] = f.second;
      }
      if (!counterMapped) { counterMapped = true; void* q = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (q != MAP_FAILED) threadCounter = static_cast<volatile int*>(q); }
      if (threadCounter) *threadCounter = 0;
      for (int fd : {outFd, errFd}) { if (ftruncate(fd, 0)) std::perror("ftruncate"); lseek(fd, 0, SEEK_SET); }
      pid_t p;
      for (int tries = 0; (p = fork()) < 0; ++tries) { if (tries > 200) { std::perror("fork"); _exit(99); } usleep(20000); }
      if (p == 0) {
         dup2(outFd, 1); dup2(errFd, 2);
         int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
         struct rlimit rl;
         rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
         rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
#ifndef VP_ASAN
         rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
         signal(SIGALRM, SIG_DFL);
         alarm(timeoutS);
         std::vector<std::string> store; store.push_back("panda");
         for (auto& a : r.args) store.push_back(a);
         std::vector<char*> argv;
         for (auto& s : store) argv.push_back(const_cast<char*>(s.c_str()));
         argv.push_back(nullptr);
         std::exit(panda_main(int(store.size()), argv.data()));
      }
      int st = 0;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      Result res;
      if (WIFEXITED(st)) res.code = WEXITSTATUS(st);
      else if (WIFSIGNALED(st)) { res.sig = WTERMSIG(st); if (res.sig == SIGALRM) res.timeout = true; }
      res.threads = threadCounter ? *threadCounter : 0;
      res.out = slurp(outFd); res.err = slurp(errFd);
      outputs.insert(fnv(res.out + res.status()));
#ifdef VP_ASAN
      if (memory.empty()) memory = sanitizer(res);
#endif
      if (logRuns) {
         log += "$ panda"; for (auto& a : r.args) log += " '" + a + "'"; log += "\n";
         for (auto& f : r.files) log += "--- file " + f.first + "\n" + f.second + (f.second.empty() || f.second.back() != '\n' ? "\n" : "");
         log += "--- stdout (" + res.status() + ")\n" + res.out + "--- stderr\n" + res.err.substr(0, 4000) + "\n";
      }
      return res;
   }
};

// Runs a check in a child process (a crash, abort or endless loop of the code under test is a result, not the end of the engine).
// The function returns "" or a description of what is wrong.
inline std::string inChild(unsigned seconds, const std::function<std::string()>& f) {
   int fd[2]; if (pipe(fd)) { std::perror("pipe"); _exit(99); }
   pid_t p;
   for (int tries = 0; (p = fork()) < 0; ++tries) { if (tries > 200) { std::perror("fork"); _exit(99); } usleep(20000); }
   if (p == 0) {
      close(fd[0]); struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      signal(SIGALRM, SIG_DFL); alarm(seconds);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
      std::string m = f(); m = m.empty() ? "ok" : "bad: " + m;
      size_t off = 0; while (off < m.size()) { ssize_t k = write(fd[1], m.data() + off, m.size() - off); if (k <= 0) break; off += size_t(k); }
      _exit(0);
   }
   close(fd[1]); std::string m; char buf[4096]; ssize_t k;
   while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, size_t(k));
   close(fd[0]); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
   if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "TIMEOUT" : "signal " + std::to_string(WTERMSIG(st));
   if (m == "ok") return "";
   return m.empty() ? "exit " + std::to_string(WEXITSTATUS(st)) : m.substr(5);
}

struct Emitter {
   int worker = 0, workers = 1;
   long long only = -1;       // replay a single index
   long long index = -1;
   Ctx* ctx = nullptr;
   Shared* shared = nullptr;
   double deadline = 0;
   bool cut = false;          // deadline hit
   long long executed = 0;
   std::vector<std::string> samples;
   std::string family;
   std::vector<std::string> violations;     // family|index|message|log
   std::vector<std::string> unreproduced;
   std::function<bool(const std::string&)> isKnown;   // message+log -> known finding
   std::vector<std::string> knownHits;

   static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
   bool stopped() const { return cut || (shared && shared->stop); }
   // Advance to the next case; true if this worker has to execute it.
   bool want() {
      ++index;
      if (only >= 0) return index == only;
      if (index % workers != worker) return false;
      if (shared->stop) return false;
      if ((executed & 31) == 0 && now() > deadline) { cut = true; }
      return !cut;
   }
#ifdef VP_ASAN
   // only the reports of the sanitizers count: what the program prints is judged by the other properties
   void exec(const Body& original) {
      Body body = [original](Ctx& c) -> std::string { c.memory.clear(); original(c); return c.memory; };
#else
   void exec(const Body& body) {
#endif
      ++executed;
      if (samples.size() < 2 && (executed == 1 || executed == 37)) {
         ctx->logRuns = true; ctx->log.clear();
         std::string m = body(*ctx);
         ctx->logRuns = false;
         samples.push_back("[" + family + " #" + std::to_string(index) + "]\n" + ctx->log.substr(0, 700));
         if (!m.empty()) confirm(body, m);
         return;
      }
      std::string m = body(*ctx);
      if (!m.empty()) confirm(body, m);
   }
   void confirm(const Body& body, const std::string& first) {
      int again = 0, tries = 0;
      std::string msg = first, log;
      auto saved = ctx->timeoutS;
      bool slow = first.find("TIMEOUT") != std::string::npos;
      ctx->timeoutS = std::getenv("VP_FAST") ? 4 : slow ? 90 : 40;
      for (; tries < (slow ? 1 : 10); ++tries) {
         ctx->logRuns = true; ctx->log.clear();
         std::string m = body(*ctx);
         ctx->logRuns = false;
         if (!m.empty()) { ++again; msg = m; log = ctx->log; if (again >= 2 || slow) break; }
      }
      ctx->timeoutS = saved;
      std::string text = "family=" + family + " index=" + std::to_string(index) + "\n" + msg + "\n(reproduced " + std::to_string(again) + " time(s) in " + std::to_string(tries + 1) + " repetitions)\n" + log;
      if (again == 0) { unreproduced.push_back(text); return; }
      if (isKnown && isKnown(text)) { knownHits.push_back(text); return; }
      if (violations.size() < 20000) violations.push_back(text);
      if (shared && !std::getenv("VP_NOSTOP")) shared->stop = 1;
   }
   template <typename F> void operator()(F&& body) { if (want()) exec(body); }
};

struct Family {
   std::string name;
   std::string what;
   bool thoroughOnly;
   std::function<void(Emitter&)> gen;
};

struct Property { std::string id; std::vector<Family> families; };

inline std::string jsonEscape(const std::string& s) {
   std::string o;
   for (unsigned char c : s) {
      if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
      else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o.push_back(char(c));
   }
   return o;
}

inline void put(std::ostream& o, const std::string& s) { o << s.size() << "\n" << s << "\n"; }
inline std::string take(std::istream& in) { size_t n; in >> n; in.get(); std::string s(n, 0); in.read(&s[0], std::streamsize(n)); in.get(); return s; }

inline int engineMain(int argc, char** argv, const std::vector<Property>& props) {
   // usage: engine <property> <tier> <scratch dir> <result json> <known findings file> <seconds> [family index]
   if (argc < 7) { std::fprintf(stderr, "usage\n"); return 2; }
   std::string id = argv[1], tier = argv[2], scratch = argv[3], outFile = argv[4], knownFile = argv[5];
   double budget = atof(argv[6]);
   const Property* prop = nullptr;
   for (auto& p : props) if (p.id == id) prop = &p;
   if (!prop) { std::fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
   std::set<std::string> known;
   { std::ifstream k(knownFile); std::string line; while (std::getline(k, line)) { auto t = line.find('\t'); if (t != std::string::npos && line.substr(0, t) == id) known.insert(line.substr(t + 1)); } }
   auto isKnown = [&](const std::string& text) { for (auto& k : known) if (text.find(k) != std::string::npos) return true; return false; };
   const bool thorough = tier == "thorough";
   double start = Emitter::now();
   if (argc >= 9) { // replay
      std::string fam = argv[7]; long long idx = atoll(argv[8]);
      std::string dir = scratch + "/replay"; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) return 2;
      for (auto& f : prop->families) if (f.name == fam) {
         Ctx ctx; ctx.outFd = memfd_create("o", MFD_CLOEXEC); ctx.errFd = memfd_create("e", MFD_CLOEXEC); ctx.timeoutS = 90;
         Emitter em; em.only = idx; em.ctx = &ctx; em.family = f.name; em.executed = 1000; em.isKnown = isKnown;
         f.gen(em);
         for (auto& v : em.violations) std::cout << v << "\n";
         std::cout << (em.violations.empty() ? "replay: property holds on this case\n" : "replay: VIOLATED\n");
         return em.violations.empty() ? 0 : 1;
      }
      return 2;
   }
   int W = int(sysconf(_SC_NPROCESSORS_ONLN)); if (W < 1) W = 1; if (W > 16) W = 16;
   Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
   std::memset((void*)sh, 0, sizeof *sh);
   std::vector<pid_t> pids;
   for (int w = 0; w < W; ++w) {
      pid_t p = fork();
      if (p == 0) {
         std::string dir = scratch + "/w" + std::to_string(w);
         mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) _exit(98);
         Ctx ctx; ctx.outFd = memfd_create("o", MFD_CLOEXEC); ctx.errFd = memfd_create("e", MFD_CLOEXEC);
         if (ctx.outFd < 0 || ctx.errFd < 0) _exit(97);
         std::ofstream o(scratch + "/res" + std::to_string(w), std::ios::binary);
         for (auto& f : prop->families) {
            if (f.thoroughOnly && !thorough) continue;
            Emitter em; em.worker = w; em.workers = W; em.ctx = &ctx; em.shared = sh; em.deadline = start + budget; em.family = f.name; em.isKnown = isKnown;
            long long r0 = ctx.runs; size_t i0 = ctx.inputs.size(), o0 = ctx.outputs.size();
            double t0 = Emitter::now();
            f.gen(em);
            (void)i0; (void)o0;
            o << "FAM\n"; put(o, f.name);
            o << em.executed << " " << (em.index + 1) << " " << (ctx.runs - r0) << " " << (em.cut ? 1 : 0) << " " << (Emitter::now() - t0) << "\n";
            o << em.samples.size() << "\n"; for (auto& s : em.samples) put(o, s);
            o << em.violations.size() << "\n"; for (auto& s : em.violations) put(o, s);
            o << em.unreproduced.size() << "\n"; for (auto& s : em.unreproduced) put(o, s);
            o << em.knownHits.size() << "\n"; for (auto& s : em.knownHits) put(o, s);
            o.flush();
         }
         o << "END\n";
         o << ctx.inputs.size() << "\n"; for (auto h : ctx.inputs) o << h << "\n";
         o << ctx.outputs.size() << "\n"; for (auto h : ctx.outputs) o << h << "\n";
         o << ctx.tags.size() << "\n"; for (auto& t : ctx.tags) { put(o, t.first); o << t.second << "\n"; }
         o.close();
         _exit(0);
      }
      pids.push_back(p);
   }
   bool bad = false;
   for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
   if (bad) { std::fprintf(stderr, "engine worker failed\n"); return 2; }
   struct FamRes { long long executed = 0, total = 0, runs = 0; bool cut = false; double secs = 0; std::vector<std::string> samples; };
   std::map<std::string, FamRes> fams;
   std::vector<std::string> violations, unrep, knownHits, samples;
   std::unordered_set<uint64_t> ins, outs;
   std::map<std::string, long long> tags;
   for (int w = 0; w < W; ++w) {
      std::ifstream in(scratch + "/res" + std::to_string(w), std::ios::binary);
      std::string kw;
      while (in >> kw && kw == "FAM") {
         in.get();
         std::string name = take(in);
         long long ex, tot, runs; int cut; double secs; in >> ex >> tot >> runs >> cut >> secs;
         auto& f = fams[name]; f.executed += ex; f.total = std::max(f.total, tot); f.runs += runs; f.cut |= cut; f.secs = std::max(f.secs, secs);
         size_t n; in >> n; in.get(); for (size_t i = 0; i < n; ++i) f.samples.push_back(take(in));
         in >> n; in.get(); for (size_t i = 0; i < n; ++i) violations.push_back(take(in));
         in >> n; in.get(); for (size_t i = 0; i < n; ++i) unrep.push_back(take(in));
         in >> n; in.get(); for (size_t i = 0; i < n; ++i) knownHits.push_back(take(in));
      }
      size_t n; uint64_t h; in >> n; for (size_t i = 0; i < n; ++i) { in >> h; ins.insert(h); }
      in >> n; for (size_t i = 0; i < n; ++i) { in >> h; outs.insert(h); }
      in >> n; in.get(); for (size_t i = 0; i < n; ++i) { std::string k = take(in); long long c; in >> c; in.get(); tags[k] += c; }
   }
   std::ofstream o(outFile);
   long long evals = 0, runs = 0; bool exhaustive = !sh->stop;
   o << "{\n \"families\": [";
   bool firstF = true;
   for (auto& f : prop->families) {
      auto it = fams.find(f.name); if (it == fams.end()) continue;
      evals += it->second.executed; runs += it->second.runs; if (it->second.cut) exhaustive = false;
      o << (firstF ? "" : ",") << "\n  {\"name\": \"" << jsonEscape(f.name) << "\", \"what\": \"" << jsonEscape(f.what) << "\", \"cases\": " << it->second.executed << ", \"space\": " << it->second.total
        << ", \"program_runs\": " << it->second.runs << ", \"complete\": " << ((it->second.cut || sh->stop) ? "false" : "true") << ", \"seconds\": " << it->second.secs << "}";
      firstF = false;
      if (!it->second.samples.empty() && samples.size() < 6) samples.push_back(it->second.samples.front());
   }
   auto arr = [&](const char* name, const std::vector<std::string>& v, size_t cap) {
      o << ",\n \"" << name << "\": [";
      for (size_t i = 0; i < v.size() && i < cap; ++i) o << (i ? "," : "") << "\n  \"" << jsonEscape(v[i]) << "\"";
      o << "]";
   };
   o << "],\n \"cases\": " << evals << ",\n \"program_runs\": " << runs << ",\n \"distinct_inputs\": " << ins.size() << ",\n \"distinct_outputs\": " << outs.size()
     << ",\n \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n \"engine_seconds\": " << (Emitter::now() - start);
   o << ",\n \"tags\": {"; bool ft = true; for (auto& t : tags) { o << (ft ? "" : ", ") << "\"" << jsonEscape(t.first) << "\": " << t.second; ft = false; } o << "}";
   arr("samples", samples, 6); arr("violations", violations, std::getenv("VP_NOSTOP") ? 100000 : 5); arr("unreproduced", unrep, 5); arr("known_hits", knownHits, 20);
   o << "\n}\n";
   o.close();
   return violations.empty() ? 0 : 1;
}

} // namespace mc
