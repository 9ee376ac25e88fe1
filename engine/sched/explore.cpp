// Explorer: all schedules of a program execution with at most B preemptions (iteratively B = 0, 1, 2, ...).
#include "../spaces.hpp"
#include "../sym.hpp"
#include "rt.hpp"
#include <memory>
#include <sys/prctl.h>
using namespace mc;

struct Case { std::string name; std::vector<std::string> args; std::vector<std::pair<std::string, std::string>> files; std::function<std::string(const Result&)> judge; int quick, thorough; int spurious = 0; int ranks = 0; bool eager = false; };

static std::vector<Case> cases(bool mpi) {
   std::vector<Case> l;
   auto facets = [&](const std::string& n, VInput v, std::vector<std::string> args, int q, int t, const Mat& known = {}, int spur = 0) {
      auto fr = std::make_shared<FacetRef>(v.gens(), v.d);
      Case c; c.name = n; c.args = args; c.args.push_back("in"); c.files = {{"in", v.text()}}; c.quick = q; c.thorough = t; c.spurious = spur;
      if (!known.empty()) { c.args.insert(c.args.begin(), {"-k", "known"}); std::string s = "Inequalities\n"; for (auto& r : known) s += ref::str(r) + "\n"; c.files.push_back({"known", s}); }
      int d = v.d; std::string names = v.names; c.judge = [=](const Result& r) { return judgeFacets(*fr, r, d, names); };
      l.push_back(c);
   };
   auto vertices = [&](const std::string& n, HInput h, std::vector<std::string> args, int q, int t, const std::string& known = "") {
      auto er = std::make_shared<ref::ExtremeRays>(ref::extremeRays(h.cone(), h.d + 1));
      Case c; c.name = n; c.args = args; c.args.push_back("in"); c.files = {{"in", h.text()}}; c.quick = q; c.thorough = t;
      if (!known.empty()) { c.args.insert(c.args.begin(), {"-k", "known"}); c.files.push_back({"known", known}); }
      int d = h.d; c.judge = [=](const Result& r) { return judgeVertices(er->rays, r, d); };
      l.push_back(c);
   };
   auto sym = [&](const std::string& n, SymCase s, std::vector<std::string> args, int q, int t) {
      close(s, 1000); VInput v = toInput(s); auto fr = std::make_shared<FacetRef>(v.gens(), v.d);
      Case c; c.name = n; c.args = args; c.args.push_back("in"); c.files = {{"in", v.text()}}; c.quick = q; c.thorough = t;
      std::string names = v.names; c.judge = [=](const Result& r) { return judgeReducedFacets(*fr, s, r, names); };
      l.push_back(c);
   };
   auto fl = [&](const VInput& v) { FacetRef fr(v.gens(), v.d); Mat m; for (auto& x : fr.cf.normals) { Mask k; fr.classify(x, k); if (fr.facets.count(k)) m.push_back(x); } return m; };
   auto first = [](Mat m, size_t n) { if (m.size() > n) m.resize(n); return m; };
   VInput seg; seg.d = 1; seg.verts = {{0, 1}, {1, 1}};
   VInput pt; pt.d = 1; pt.verts = {{3, 1}};
   VInput half; half.d = 1; half.verts = {{0, 1}}; half.rays = {{1, 0}};
   VInput tri = simplex(2), sq = cube(2), flat; flat.d = 2; flat.verts = {{0, 0, 1}, {1, 1, 1}};
   VInput wedge; wedge.d = 2; wedge.verts = {{0, 0, 1}}; wedge.rays = {{1, 0, 0}, {0, 1, 0}};
   VInput tet = simplex(3), pent = cyclic(2, 5);
   if (mpi) {
      auto dist = [&](int ranks, bool eager, int q, int t) { Case& c = l.back(); c.ranks = ranks; c.eager = eager; c.quick = q; c.thorough = t; c.name += ", " + std::to_string(ranks) + " ranks, " + (eager ? "buffered" : "rendezvous"); };
      HInput h; h.d = 1; h.ineqs = {{1, -1}, {-1, 0}};
      HInput ho; ho.d = 2; ho.ineqs = {{-1, 0, 0}, {0, -1, 0}};
      HInput hs; hs.d = 2; hs.ineqs = {{-1, 0, 0}, {0, -1, 0}, {1, 1, -1}};
      SymCase s; s.d = 2; s.maps = {A("y x", 2)}; s.seedV = {{0, 0, 1}, {1, 0, 1}};
      VInput wide; wide.d = 2; wide.verts = {{0, 0, 1}, {70001, 0, 1}, {0, 65537, 1}, {70001, 65538, 1}};
      for (int ranks : {1, 2, 3}) for (bool eager : {true, false}) for (std::string t : {"1", "2"}) {
         if (ranks == 3 && t == "2") continue;
         int big = ranks == 3 || t == "2"; int q = big ? 1 : 2, th = big ? 3 : 4;
         if (ranks == 1) { if (!eager) continue; q = 1; th = 2; }
         facets("point -t" + t, pt, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         facets("segment -t" + t, seg, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         facets("half line -t" + t, half, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         facets("flat segment -t" + t, flat, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         facets("triangle -t" + t, tri, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         facets("square -t" + t, sq, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         facets("wedge -t" + t, wedge, {"-t", t}, 0, 0); dist(ranks, eager, 1, th);
         facets("segment known 1 -t" + t, seg, {"-t", t}, 0, 0, first(fl(seg), 1)); dist(ranks, eager, q, th);
         facets("segment known all -t" + t, seg, {"-t", t}, 0, 0, fl(seg)); dist(ranks, eager, 1, th);
         facets("square known 1 -t" + t, sq, {"-t", t}, 0, 0, first(fl(sq), 1)); dist(ranks, eager, 1, th);
         facets("tetrahedron -t" + t, tet, {"-t", t}, 0, 0); dist(ranks, eager, 1, th);
         sym("triangle with symmetry -t" + t, s, {"-t", t}, 0, 0); dist(ranks, eager, 1, th);
         vertices("vertices of a segment -t" + t, h, {"-t", t}, 0, 0); dist(ranks, eager, q, th);
         vertices("vertices of a triangle -t" + t, hs, {"-t", t}, 0, 0); dist(ranks, eager, 1, th);
         vertices("vertices of an orthant -t" + t, ho, {"-t", t}, 0, 0); dist(ranks, eager, 1, th);
         vertices("vertices of a segment, known 1 -t" + t, h, {"-t", t}, 0, 0, "Vertices\n1\n"); dist(ranks, eager, 1, th);
         for (std::string ty : {"16", "64", "safe", "inf"}) { facets("triangle -i " + ty + " -t" + t, tri, {"-i", ty, "-t", t}, 0, 0); dist(ranks, eager, 1, 2); }
         facets("wide quadrangle -i 64 -t" + t, wide, {"-i", "64", "-t", t}, 0, 0); dist(ranks, eager, 1, 2);
      }
#ifdef VP_ASAN
      // under the address sanitizer: the rendezvous cases (pending sends), one deviation less
      std::vector<Case> r; for (auto& c : l) if (!c.eager || c.ranks == 1) { c.quick = 1; c.thorough -= 1; r.push_back(c); } l = r;
#endif
      return l;
   }
   for (std::string t : {"1", "2", "3"}) {
      int q = t == "1" ? 4 : t == "2" ? 3 : 2, th = t == "1" ? 7 : t == "2" ? 5 : 4;
      facets("point -t" + t, pt, {"-t", t}, q, th);
      facets("segment -t" + t, seg, {"-t", t}, q, th);
      facets("half line -t" + t, half, {"-t", t}, q, th);
      facets("flat segment -t" + t, flat, {"-t", t}, q - 1, th);
      facets("triangle -t" + t, tri, {"-t", t}, q - 1, th - 1);
      facets("square -t" + t, sq, {"-t", t}, q - 1, th - 1);
      facets("wedge -t" + t, wedge, {"-t", t}, q - 1, th - 1);
      facets("pentagon -t" + t, pent, {"-t", t}, q - 2 < 1 ? 1 : q - 2, th - 2);
      facets("tetrahedron -t" + t, tet, {"-t", t}, q - 2 < 1 ? 1 : q - 2, th - 2);
      facets("segment known 1 -t" + t, seg, {"-t", t}, q - 1, th - 1, first(fl(seg), 1));
      facets("segment known all -t" + t, seg, {"-t", t}, q - 1, th - 1, fl(seg));
      facets("triangle known 2 -t" + t, tri, {"-t", t}, q - 1, th - 2, first(fl(tri), 2));
      facets("triangle known all -t" + t, tri, {"-t", t}, q - 2 < 1 ? 1 : q - 2, th - 2, fl(tri));
      facets("square known 1 -t" + t, sq, {"-t", t}, t == "3" ? 0 : 1, th - 2, first(fl(sq), 1));
      facets("pentagon known 1 -t" + t, pent, {"-t", t}, t == "3" ? 1 : q - 2 < 1 ? 1 : q - 2, th - 2, first(fl(pent), 1));
      SymCase s; s.d = 2; s.maps = {A("y x", 2)}; s.seedV = {{0, 0, 1}, {1, 0, 1}}; sym("triangle with symmetry -t" + t, s, {"-t", t}, q - 1, th - 1);
      HInput h; h.d = 1; h.ineqs = {{1, -1}, {-1, 0}}; vertices("vertices of a segment -t" + t, h, {"-t", t}, q, th);
      vertices("vertices of a segment, known 1 -t" + t, h, {"-t", t}, q - 1, th - 1, "Vertices\n1\n");
      vertices("vertices of a segment, known 2 -t" + t, h, {"-t", t}, q - 1, th - 1, "Vertices\n1\n0\n");
      HInput hs; hs.d = 2; hs.ineqs = {{-1, 0, 0}, {0, -1, 0}, {1, 1, -1}}; vertices("vertices of a triangle -t" + t, hs, {"-t", t}, q - 1, th - 1);
      HInput hq; hq.d = 2; hq.ineqs = {{-1, 0, 0}, {0, -1, 0}, {1, 0, -1}, {0, 1, -1}}; vertices("vertices of a square, known 1 -t" + t, hq, {"-t", t}, 1, th - 2, "Vertices\n1 1\n");
      HInput ho; ho.d = 2; ho.ineqs = {{-1, 0, 0}, {0, -1, 0}}; vertices("vertices of an orthant -t" + t, ho, {"-t", t}, q - 1, th - 1);
   }
   for (std::string t : {"1", "2"}) { facets("segment, one spurious wake-up -t" + t, seg, {"-t", t}, 2, 3, {}, 1); facets("triangle, one spurious wake-up -t" + t, tri, {"-t", t}, 1, 2, {}, 1); }
   facets("segment -i safe -t2", seg, {"-i", "safe", "-t", "2"}, 2, 3);
   facets("segment -i inf -t2", seg, {"-i", "inf", "-t", "2"}, 2, 3);
   facets("segment -t4", seg, {"-t", "4"}, 0, 1);
   facets("triangle dd", tri, {"-m", "dd"}, 2, 3);
   // the quick tier explores these less deeply
   const std::map<std::string, int> less = {{"half line -t2", 2}, {"square -t2", 1}, {"triangle known 2 -t2", 1}, {"segment -t3", 1}, {"half line -t3", 1}, {"vertices of a segment -t3", 1}, {"square -t3", 0}, {"wedge -t3", 0}, {"pentagon -t3", 0}, {"tetrahedron -t3", 0}, {"triangle known all -t3", 0}};
   for (auto& c : l) { auto it = less.find(c.name); if (it != less.end()) c.quick = it->second; }
   return l;
}

struct Level { char* base; size_t top; };
enum { LEVELS = 9, MAXCASES = 400 };
struct Queue {
   volatile int lock; volatile int level; volatile long outstanding; volatile int stop; volatile int done; volatile int cut;
   Level lv[LEVELS];
   long schedules[MAXCASES][LEVELS]; long points, ops, newPoints, accesses; int maxDepth[MAXCASES]; int maxLive[MAXCASES]; int tooLong;
   long discardedAbove;
};
static Queue* Q;
static void lockQ() { while (__sync_lock_test_and_set(&Q->lock, 1)) usleep(20); }
static void unlockQ() { __sync_lock_release(&Q->lock); }
static void push(int level, uint16_t cs, const uint8_t* p, uint16_t n) { Level& l = Q->lv[level]; memcpy(l.base + l.top, p, n); l.top += n; memcpy(l.base + l.top, &cs, 2); memcpy(l.base + l.top + 2, &n, 2); l.top += 4; }
static bool pop(int level, uint16_t& cs, uint8_t* p, uint16_t& n) { Level& l = Q->lv[level]; if (l.top == 0) return false; memcpy(&cs, l.base + l.top - 4, 2); memcpy(&n, l.base + l.top - 2, 2); l.top -= 4u + n; memcpy(p, l.base + l.top, n); return true; }

struct Exec {
   int outFd, errFd, otherFd = memfd_create("x", MFD_CLOEXEC); int lastCase = -1; bool others = false;
   Result run(const Case& c, int idx, const uint8_t* prefix, int n, bool detect) {
      if (lastCase != idx) { for (auto& f : c.files) { std::ofstream o(f.first); o << f.second; } lastCase = idx; }
      sched::Shared* s = sched::S; sched::reset(s); s->prefixLen = n; memcpy(s->prefix, prefix, size_t(n)); s->horizon = 20000; s->spurious = c.spurious; s->raceDetection = detect || c.ranks;
      for (int fd : {outFd, errFd}) { if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
      s->delayBounded = s->ranks = c.ranks; s->eager = c.eager;
      if (c.ranks) { s->nthreads = c.ranks; s->current = 0; for (int i = 0; i < c.ranks; ++i) s->th[i].op = sched::OP_START; }
      if (otherFd >= 0) { if (ftruncate(otherFd, 0)) {} lseek(otherFd, 0, SEEK_SET); }
      std::vector<pid_t> ps;
      for (int rank = 0; rank < std::max(1, c.ranks); ++rank) {
      pid_t p; while ((p = fork()) < 0) usleep(20000);
      if (p) { ps.push_back(p); continue; }
         if (c.ranks) atexit(sched::finish);      // after the static destructors of the program
         dup2(rank ? otherFd : outFd, 1); dup2(errFd, 2); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
         struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 64u << 20; setrlimit(RLIMIT_FSIZE, &rl);
         alarm(30); prctl(PR_SET_PDEATHSIG, SIGKILL);
         std::vector<std::string> a = c.args; a.insert(a.begin(), "panda"); std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr);
         sched::begin(rank);
         int r = panda_main(int(av.size()) - 1, av.data());
         std::cout.flush(); std::fflush(stdout);
         if (c.ranks) std::exit(r);
         sched::finish();
         std::cerr.flush();
         _exit(r);
      }
      Result r; r.code = 0; bool killed = false;
      for (size_t left = ps.size(); left; --left) {
         int st; pid_t p; while ((p = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
         bool broken = WIFSIGNALED(st) || (s->verdict != sched::V_RUNNING && s->verdict != sched::V_OK);
         if (!killed) { if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); if (r.sig == SIGALRM) r.timeout = true; } else if (WEXITSTATUS(st)) r.code = WEXITSTATUS(st); }
         if (broken && !killed) { killed = true; for (auto q : ps) if (q != p) kill(q, SIGKILL); }
      }
      if (c.ranks) { std::string o = Ctx::slurp(otherFd); if (!o.empty()) r.err = "OTHER RANKS PRINT:\n" + o + "\n--- stderr\n"; others = !o.empty(); }
      r.out = Ctx::slurp(outFd); r.err += Ctx::slurp(errFd);
      return r;
   }
};
static std::string judge(const Case& c, const Result& r, bool detect, bool others) {
   int v = sched::S->verdict;
   if (v == sched::V_DIVERGED || v == sched::V_INTERNAL) return std::string("ENGINE: ") + sched::verdictName(v) + ": " + sched::S->msg;
   if (detect) { if (v == sched::V_RACE || v == sched::V_UAF) return std::string(sched::verdictName(v)) + ": " + sched::S->msg; return ""; }
   if (v != sched::V_OK && v != sched::V_RUNNING) return std::string(sched::verdictName(v)) + ": " + sched::S->msg;
   if (r.ok() && others) return "a rank other than 0 prints to standard output";
   return c.judge(r);
}
static std::string show(const std::vector<uint8_t>& p) { std::string s; for (auto x : p) { if (!s.empty()) s += ','; s += std::to_string(int(x)); } return s; }

int main(int argc, char** argv) {
   // usage: explore <race|result> <tier> <scratch> <result json> <known findings> <seconds> [case prefix]
   if (argc < 7) return 2;
   bool detect = std::string(argv[1]) == "data-race"; std::string tier = argv[2], scratch = argv[3]; double budget = atof(argv[6]);
   std::string id = argv[1];
   bool mpi = id == "distributed"; auto cs = cases(mpi); double start = Emitter::now();
   std::set<std::string> known; { std::ifstream k(argv[5]); std::string line; while (std::getline(k, line)) { auto t = line.find('\t'); if (t != std::string::npos && line.substr(0, t) == id) known.insert(line.substr(t + 1)); } }
   if (cs.size() > MAXCASES) return 2;
   if (argc >= 9) {
      int k = -1; for (size_t i = 0; i < cs.size(); ++i) if (cs[i].name == argv[7]) k = int(i); if (k < 0) return 2;
      std::string dir = scratch + "/replay"; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) return 2;
      sched::S = sched::createShared(); Exec e; e.outFd = memfd_create("o", MFD_CLOEXEC); e.errFd = memfd_create("e", MFD_CLOEXEC);
      std::vector<uint8_t> p; std::istringstream in(argv[8]); for (std::string t; std::getline(in, t, ',');) if (!t.empty()) p.push_back(uint8_t(atoi(t.c_str())));
      Result r = e.run(cs[size_t(k)], k, p.data(), int(p.size()), detect); std::string m = judge(cs[size_t(k)], r, detect, e.others);
      std::cout << (m.empty() ? "replay: property holds on this schedule\n" : "replay: VIOLATED: " + m + "\n") << "verdict " << sched::verdictName(sched::S->verdict) << " decisions " << sched::S->npoints << " ops " << sched::S->ops << " accesses " << sched::S->accesses << "\n--- stdout\n" << r.out << "--- stderr\n" << r.err; return m.empty() ? 0 : 1;
   }
   Q = static_cast<Queue*>(mmap(nullptr, sizeof(Queue), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
   for (auto& l : Q->lv) { l.base = static_cast<char*>(mmap(nullptr, size_t(3) << 30, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); l.top = 0; if (l.base == MAP_FAILED) { perror("mmap"); return 2; } }
   auto boundOf = [&](const Case& c) { int b = tier == "thorough" ? c.thorough : c.quick; return b >= LEVELS ? LEVELS - 1 : b; };
   for (size_t i = cs.size(); i-- > 0;) push(0, uint16_t(i), nullptr, 0);
   int W = int(sysconf(_SC_NPROCESSORS_ONLN)); if (W < 1) W = 1; if (W > 16) W = 16;
   std::vector<pid_t> pids;
   for (int w = 0; w < W; ++w) { pid_t pid = fork(); if (pid) { pids.push_back(pid); continue; }
      std::string dir = scratch + "/w" + std::to_string(w); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) _exit(98);
      sched::S = sched::createShared(); Exec e; e.outFd = memfd_create("o", MFD_CLOEXEC); e.errFd = memfd_create("e", MFD_CLOEXEC);
      std::vector<std::string> viol, unrep, samples, hits; std::unordered_set<uint64_t> outs;
      std::vector<uint8_t> pre(sched::MAXPOINTS); long mine = 0;
      while (true) {
         lockQ();
         if (Q->stop || Q->done) { unlockQ(); break; }
         if (Emitter::now() - start > budget) { Q->cut = 1; Q->done = 1; unlockQ(); break; }
         uint16_t k, n; 
         if (!pop(Q->level, k, pre.data(), n)) {
            if (Q->outstanding == 0) { if (Q->level + 1 < LEVELS) { ++Q->level; } else Q->done = 1; unlockQ(); continue; }
            unlockQ(); usleep(100); continue;
         }
         ++Q->outstanding; int level = Q->level; unlockQ();
         const Case& c = cs[k];
         Result r = e.run(c, k, pre.data(), n, detect);
         std::string m = judge(c, r, detect, e.others);
         sched::Shared* s = sched::S;
         ++mine; outs.insert(fnv(r.out, fnv(std::to_string(k))));
         std::vector<uint8_t> full; for (int i = 0; i < s->npoints && i < sched::MAXPOINTS; ++i) full.push_back(s->pts[i].choice);
         if (m.empty() && s->npoints < n) m = "ENGINE: schedule replay diverged: fewer decisions than the prefix";
         if (!m.empty()) {
            // replay before report
            std::vector<uint8_t> p(pre.begin(), pre.begin() + n); int again = 0; std::string m2; Result r2;
            long ops = s->ops; int np = s->npoints; long acc = s->accesses;
            for (int i = 0; i < 2; ++i) { r2 = e.run(c, k, p.data(), n, detect); m2 = judge(c, r2, detect, e.others); if (!m2.empty()) ++again; }
            while (!full.empty() && full.back() == 0) full.pop_back();
            std::string text = "case=" + c.name + " schedule=" + show(p) + "\n" + m + "\n(reproduced " + std::to_string(again) + " time(s) in 2 repetitions; " + std::to_string(level) + " preemption(s))\n$ panda"; for (auto& a : c.args) text += " '" + a + "'"; for (auto& f : c.files) text += "\n--- file " + f.first + "\n" + f.second; text += "--- stdout (" + r2.status() + ")\n" + r2.out + "--- stderr\n" + r2.err;
            bool kn = false; for (auto& x : known) if (text.find(x) != std::string::npos) kn = true;
            if (m.compare(0, 7, "ENGINE:") == 0) { std::fprintf(stderr, "%s\n", text.c_str()); _exit(96); }
            if (again < 2) unrep.push_back(text); else if (kn) hits.push_back(text); else { viol.push_back(text); if (!getenv("VP_NOSTOP")) Q->stop = 1; }
            s->ops = ops; s->npoints = np; s->accesses = acc;
            lockQ(); --Q->outstanding; ++Q->schedules[k][level]; unlockQ(); continue;
         }
         if (samples.size() < 1 && n > 0) samples.push_back("[" + c.name + "] schedule " + show(full) + " (" + std::to_string(s->ops) + " operations, " + std::to_string(s->nthreads) + " threads)\n" + r.out);
         int B = boundOf(c);
         lockQ();
         ++Q->schedules[k][level]; Q->ops += s->ops; Q->points += s->npoints; Q->newPoints += s->npoints - n + 1; Q->accesses += s->accesses; if (s->npoints > Q->maxDepth[k]) Q->maxDepth[k] = s->npoints; if (s->maxLive > Q->maxLive[k]) Q->maxLive[k] = s->maxLive;
         for (int i = n; i < s->npoints; ++i) for (int a = 1; a < s->pts[i].n && a < sched::MAXALT; ++a) {
            int cost = level + s->pts[i].cost[a]; if (cost > B) { ++Q->discardedAbove; continue; }
            if (i >= 2000) { Q->tooLong = 1; continue; }
            uint8_t keep = full[size_t(i)]; full[size_t(i)] = uint8_t(a); push(cost, k, full.data(), uint16_t(i + 1)); full[size_t(i)] = keep;
         }
         --Q->outstanding; unlockQ();
      }
      std::ofstream o(scratch + "/res" + std::to_string(w), std::ios::binary);
      for (auto* v : {&viol, &unrep, &hits, &samples}) { o << v->size() << "\n"; for (auto& x : *v) put(o, x); }
      o << outs.size() << "\n"; for (auto h : outs) o << h << "\n";
      o.close(); _exit(0);
   }
   bool bad = false; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
   if (bad) { std::fprintf(stderr, "explorer worker failed\n"); return 2; }
   std::vector<std::string> all[4]; std::unordered_set<uint64_t> outs;
   for (int w = 0; w < W; ++w) { std::ifstream in(scratch + "/res" + std::to_string(w), std::ios::binary); for (auto& v : all) { size_t n; in >> n; in.get(); for (size_t i = 0; i < n; ++i) v.push_back(take(in)); } size_t n; in >> n; for (size_t i = 0; i < n; ++i) { uint64_t h; in >> h; outs.insert(h); } }
   std::ofstream o(argv[4]); long total = 0; int live = 0;
   o << "{\n \"families\": [";
   for (size_t i = 0; i < cs.size(); ++i) {
      long n = 0; std::string per; int b = boundOf(cs[i]); for (int l = 0; l <= b; ++l) { n += Q->schedules[i][l]; if (l) per += ", "; per += std::to_string(Q->schedules[i][l]); }
      total += n; live = std::max(live, Q->maxLive[i]); int completed = (Q->cut || Q->stop) ? std::min(b, Q->level - 1) : b;
      o << (i ? "," : "") << "\n  {\"name\": \"" << jsonEscape(cs[i].name) << "\", \"schedules\": " << n << ", \"schedules_by_preemptions\": [" << per << "], \"preemption_bound\": " << b << ", \"preemption_bound_completed\": " << completed << ", \"max_decisions\": " << Q->maxDepth[i] << ", \"max_threads\": " << Q->maxLive[i] << ", \"spurious_wakeups\": " << cs[i].spurious << "}";
   }
   auto arr = [&](const char* name, const std::vector<std::string>& v, size_t cap) { o << ",\n \"" << name << "\": ["; for (size_t i = 0; i < v.size() && i < cap; ++i) o << (i ? "," : "") << "\n  \"" << jsonEscape(v[i]) << "\""; o << "]"; };
   o << "],\n \"schedules\": " << total << ",\n \"states\": " << Q->newPoints << ",\n \"transitions\": " << Q->ops << ",\n \"decisions\": " << Q->points << ",\n \"memory_accesses_checked\": " << Q->accesses << ",\n \"distinct_outputs\": " << outs.size() << ",\n \"schedules_beyond_bound_not_run\": " << Q->discardedAbove
     << ",\n \"exhaustive\": " << ((Q->cut || Q->stop || Q->tooLong) ? "false" : "true") << ",\n \"engine_seconds\": " << (Emitter::now() - start);
   arr("samples", all[3], 4); arr("violations", all[0], getenv("VP_NOSTOP") ? 10000 : 5); arr("unreproduced", all[1], 5); arr("known_hits", all[2], 20); o << "\n}\n"; o.close();
   return all[0].empty() ? 0 : 1;
}
