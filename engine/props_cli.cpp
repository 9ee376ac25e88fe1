// The command line: every documented spelling, order and position of options has the documented effect; wrong command lines are refused.
#include <dlfcn.h>
#include <pthread.h>
#include "reps.hpp"
#ifndef VP_ASAN
// the program under test starts its threads through libstdc++; the engine itself starts none
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) noexcept {
   typedef int (*Fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
   static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_create"));
   if (mc::threadCounter) __sync_fetch_and_add(mc::threadCounter, 1);
   return real(t, a, f, x);
}
#endif
namespace mc {
typedef std::vector<std::string> Args;
typedef std::vector<std::pair<std::string, std::string>> Files;
struct Opt { char letter; std::string value; Args words; };   // one occurrence of an option
static const std::vector<std::pair<std::string, char>> kOrders{{"lex_asc", 'a'}, {"lexicographic_ascending", 'a'}, {"lex_up", 'a'}, {"lex_desc", 'd'}, {"lexicographic_descending", 'd'}, {"lex_down", 'd'}, {"nz_asc", 'n'}, {"nonzero_ascending", 'n'}, {"nz_up", 'n'}, {"nz_desc", 'z'}, {"nonzero_descending", 'z'}, {"nz_down", 'z'}, {"rev", 'r'}, {"reverse", 'r'}};
static const std::vector<std::string> kMethods{"ad", "adjacency-decomposition", "dd", "double-description"};
static const std::vector<std::string> kInts{"16", "32", "64", "safe", "inf"};
static bool isDD(const std::string& m) { return m == "dd" || m == "double-description"; }
static std::string longName(char c, bool facets) { switch (c) { case 'i': return "--integer-type="; case 'm': return "--method="; case 's': return "--sorting="; case 't': return "--threads="; default: return facets ? "--known-facets=" : "--known-vertices="; } }
static std::vector<Opt> spell(char c, const std::string& v, bool facets) {
   if (c == 'c') return {{'c', "", {"-c"}}, {'c', "", {"--check"}}, {'c', "", {"--checked"}}};
   std::string sh = std::string("-") + c;
   std::vector<Opt> o{{c, v, {sh, v}}, {c, v, {sh + "=" + v}}, {c, v, {longName(c, facets) + v}}};
   if (c == 'k') o.push_back({c, v, {"--known-data=" + v}});
   return o;
}
static std::vector<Opt> options(bool full, bool facets) {
   std::vector<Opt> l; auto add = [&](char c, const std::vector<std::string>& vs) { for (auto& v : vs) for (auto& o : spell(c, v, facets)) l.push_back(o); };
   std::vector<std::string> ords; for (auto& o : kOrders) ords.push_back(o.first);
   add('i', full ? kInts : Args{"64", "inf"}); add('m', full ? kMethods : Args{"ad", "double-description"}); add('s', full ? ords : Args{"nz_asc", "reverse"});
   add('t', full ? Args{"1", "2", "3", "7"} : Args{"3"}); add('k', {"known"}); add('c', {""});
   return l;
}
struct Subject { bool facets; VInput v; HInput h; std::string text, known; int d; FacetRef fr; std::set<Vec> rays; Mat rows; };
static std::string knownRows(const Subject& s) { return s.facets ? "Inequalities\n" + ref::str(s.fr.cf.normals.front()) + "\n" : "Vertices\n" + pointText(*s.rays.rbegin()) + "\n"; }
static std::vector<Subject> subjects() {
   std::vector<Subject> l;
   auto addV = [&](VInput v) { Subject s; s.facets = true; s.v = v; s.d = v.d; s.text = v.text(); s.fr = FacetRef(v.gens(), v.d); s.rows = v.verts; s.known = knownRows(s); l.push_back(s); };
   auto addH = [&](HInput h) { Subject s; s.facets = false; s.h = h; s.d = h.d; s.text = h.text(); auto er = ref::extremeRays(h.cone(), h.d + 1); s.rays = er.rays; s.rows = h.ineqs; s.known = knownRows(s); l.push_back(s); };
   VInput v; v.d = 3; v.verts = {{0,2,1,1},{3,0,0,1},{0,0,0,1},{1,1,3,1},{-2,1,0,1},{0,0,-1,1}}; addV(v);
   HInput h; h.d = 3; h.ineqs = {{-1,0,0,0},{0,-2,0,-1},{1,0,2,-3},{1,1,1,-4},{0,1,-1,-5},{0,0,-1,0}}; addH(h);
   return l;
}
static std::string judge(const Subject& s, const Result& r) { return s.facets ? judgeFacets(s.fr, r, s.d, "") : judgeVertices(s.rays, r, s.d); }
// rows in the documented order; 'r' reverses, 0 keeps. The orders by non-zero entries are only used where no two rows have the same number of them.
static Mat ordered(Mat m, char how) {
   auto nz = [](const Vec& v) { int k = 0; for (Z x : v) if (x != 0) ++k; return k; };
   switch (how) {
      case 'a': std::sort(m.begin(), m.end()); break;
      case 'd': std::sort(m.begin(), m.end()); std::reverse(m.begin(), m.end()); break;
      case 'n': std::stable_sort(m.begin(), m.end(), [&](const Vec& a, const Vec& b) { return nz(a) < nz(b); }); break;
      case 'z': std::stable_sort(m.begin(), m.end(), [&](const Vec& a, const Vec& b) { return nz(a) > nz(b); }); break;
      case 'r': std::reverse(m.begin(), m.end()); break;
   }
   return m;
}
static std::string refused(const Result& r, const std::string& what) {
   if (r.ok()) return what + " is accepted";
   if (r.sig || r.timeout) return what + " is not refused in an orderly way: " + r.status();
   std::istringstream in(r.out); for (std::string l; std::getline(in, l);) { auto t = trim(l); if (!t.empty() && t.back() != ':') return what + " is refused after printing rows"; }
   if (trim(r.err).empty()) return what + " is refused without a message";
   return "";
}
static std::string show(const Args& a) { std::string s; for (auto& x : a) s += " " + (x.empty() ? "''" : x); return s; }

// every sequence of exactly k options with distinct letters, file name at every position
static void commandLines(const std::vector<Opt>& o, int k, const std::function<void(const std::vector<Opt>&, size_t pos)>& f) {
   std::vector<Opt> cur;
   std::function<void()> go = [&]() {
      if (int(cur.size()) == k) { for (size_t p = 0; p <= cur.size(); ++p) f(cur, p); return; }
      for (auto& x : o) { bool dup = false; for (auto& y : cur) if (y.letter == x.letter) dup = true; if (dup) continue; cur.push_back(x); go(); cur.pop_back(); }
   };
   go();
}
static Args line(const std::vector<Opt>& o, size_t pos, const std::string& file) { Args a; for (size_t i = 0; i <= o.size(); ++i) { if (i == pos) a.push_back(file); if (i < o.size()) a.insert(a.end(), o[i].words.begin(), o[i].words.end()); } return a; }
static void caseLine(Emitter& em, const Subject& s, const std::vector<Opt>& o, size_t pos) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      std::string m = "ad"; int t = 0; char ord = 0;
      for (auto& x : o) { if (x.letter == 'm') m = x.value; if (x.letter == 't') t = std::atoi(x.value.c_str()); if (x.letter == 's') for (auto& k : kOrders) if (k.first == x.value) ord = k.second; }
      Args a = line(o, pos, "in"); Files f{{"in", s.text}, {"known", s.known}};
      Result r = c.run({a, f}); std::string e = judge(s, r); if (!e.empty()) return show(a) + ": " + e;
#ifndef VP_ASAN
      if (t && !isDD(m)) { // one thread more for every thread asked for
         Args b = {"in", "-t", t == 1 ? "2" : "1"}; Result q = c.run({b, f}); c.tag("thread counts compared");
         if (r.threads - q.threads != (t == 1 ? -1 : t - 1)) return show(a) + " starts " + std::to_string(r.threads) + " threads, " + show(b) + " starts " + std::to_string(q.threads);
      }
#endif
      if (isDD(m)) { // deterministic: the same output as for the file with its rows in that order
         Subject w = s; if (ord) { if (s.facets) { w.v.verts = ordered(s.rows, ord); w.text = w.v.text(); } else { w.h.ineqs = ordered(s.rows, ord); w.text = w.h.text(); } }
         bool tie = ord == 'n' || ord == 'z';
         if (!tie) { Result q = c.run({{"in", "-m", "dd"}, {{"in", w.text}}}); c.tag("output compared with the plain command"); if (q.out != r.out) return show(a) + ": output differs from -m dd for the rows in that order"; }
      }
      return "";
   });
}
static Property commandLine() {
   Property p; p.id = "command-line";
   p.families.push_back({"one-option", "every documented value of every option (-i -m -s -t -k -c and their long forms) in every spelling, before and after the file name, facet and vertex enumeration", false, [](Emitter& em) {
      for (auto& s : subjects()) { commandLines({}, 0, [&](const std::vector<Opt>& o, size_t p) { caseLine(em, s, o, p); }); commandLines(options(true, s.facets), 1, [&](const std::vector<Opt>& o, size_t p) { caseLine(em, s, o, p); }); } }});
   p.families.push_back({"two-options", "every ordered pair of options, in every spelling, file name at every position", false, [](Emitter& em) { for (auto& s : subjects()) commandLines(options(false, s.facets), 2, [&](const std::vector<Opt>& o, size_t p) { caseLine(em, s, o, p); }); }});
   p.families.push_back({"three-options", "every ordered triple of options, in every spelling, file name at every position", true, [](Emitter& em) { for (auto& s : subjects()) commandLines(options(false, s.facets), 3, [&](const std::vector<Opt>& o, size_t p) { caseLine(em, s, o, p); }); }});
   p.families.push_back({"threads", "-t 1..8 in every spelling on a problem with many facets, and no -t: the number of threads started grows by one for every thread asked for", false, [](Emitter& em) {
#ifndef VP_ASAN
      for (int n = 1; n <= 8; ++n) for (auto& o : spell('t', std::to_string(n), true)) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string {
         VInput v = cross(4); Args a{"in"}; a.insert(a.end(), o.words.begin(), o.words.end()); Result r = c.run({a, {{"in", v.text()}}}), q = c.run({{"in", "-t", "1"}, {{"in", v.text()}}});
         if (!r.ok()) return "program ended with " + r.status(); if (r.threads - q.threads != n - 1) return show(a) + " starts " + std::to_string(r.threads) + " threads, -t 1 starts " + std::to_string(q.threads); return ""; }); }
      if (em.want()) em.exec([](Ctx& c) -> std::string { VInput v = cross(4); long n = sysconf(_SC_NPROCESSORS_ONLN); Result r = c.run({{"in"}, {{"in", v.text()}}}), q = c.run({{"in", "-t", "1"}, {{"in", v.text()}}}); if (r.threads - q.threads != n - 1) return "without -t " + std::to_string(r.threads) + " threads are started on " + std::to_string(n) + " processors, -t 1 starts " + std::to_string(q.threads); return ""; });
#endif
   }});
   p.families.push_back({"method", "every spelling of the methods, with -t 4: as many threads as for -m ad (the default) or as for -m dd", false, [](Emitter& em) {
#ifndef VP_ASAN
      for (bool facets : {true, false}) for (auto& m : kMethods) for (auto& o : spell('m', m, facets)) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string {
         for (auto& s : subjects()) if (s.facets == facets) { Args a{"in", "-t", "4"}; a.insert(a.end(), o.words.begin(), o.words.end()); Result r = c.run({a, {{"in", s.text}}}), ad = c.run({{"in", "-t", "4"}, {{"in", s.text}}}), dd = c.run({{"in", "-t", "4", "-m", "dd"}, {{"in", s.text}}});
            if (ad.threads <= dd.threads) return "the default method starts " + std::to_string(ad.threads) + " threads with -t 4, -m dd starts " + std::to_string(dd.threads);
            if (r.threads != (isDD(m) ? dd : ad).threads) return show(a) + " does not select the method: " + std::to_string(r.threads) + " threads"; auto e = judge(s, r); if (!e.empty()) return e; }
         return ""; }); }
#endif
   }});
   p.families.push_back({"sorting", "every documented order in every spelling: with double description exactly the output of the input file written in that order (all permutations of a 4-row and a 5-row file without ties, facets and vertices, with fractions and rays)", false, [](Emitter& em) {
      std::vector<VInput> vs(3); vs[0].d = 3; vs[0].verts = {{0,0,0,1},{5,0,0,1},{1,2,0,1},{1,1,3,1}}; vs[1].d = 4; vs[1].verts = {{0,0,0,0,1},{3,0,0,0,1},{1,-2,0,0,1},{-1,1,3,0,1},{1,1,1,-1,1}}; vs[2].d = 3; vs[2].verts = {{0,0,0,2},{1,0,0,2},{1,-4,0,2},{3,1,1,2}}; vs[2].rays = {{0,0,1,0},{1,0,1,0},{1,1,2,0}};
      std::vector<HInput> hs(2); hs[0].d = 3; hs[0].ineqs = {{-1,0,0,0},{0,-2,0,-1},{1,-1,-3,-3},{1,0,2,-3}}; hs[1].d = 2; hs[1].ineqs = {{-1,0,0},{0,-1,-1},{2,3,-7}};
      hs[0].ineqs = {{-1,0,0,0},{0,-2,0,-1},{1,0,2,-3},{2,1,-3,-4}};
      auto add = [&](char how, const Opt& o, Mat& part, std::function<std::string()> text) {
         Mat orig = part; std::vector<int> q; for (size_t i = 0; i < part.size(); ++i) q.push_back(int(i));
         do { part = pick(orig, q); std::string a = text(); part = ordered(part, how); std::string b = text(); if (em.want()) em.exec([=](Ctx& c) -> std::string {
            Args x{"in", "-m", "dd"}; x.insert(x.end(), o.words.begin(), o.words.end()); Result r = c.run({x, {{"in", a}}}), w = c.run({{"in", "-m", "dd"}, {{"in", b}}}); if (!r.ok()) return "program ended with " + r.status();
            if (r.out != w.out) return show(x) + ": output differs from that for the file in the documented order"; return ""; }); part = orig; } while (std::next_permutation(q.begin(), q.end()));
      };
      for (auto& k : kOrders) for (auto& o : spell('s', k.first, true)) {
         for (auto v : vs) { if (k.second != 'r') { VInput w = v; w.rays = ordered(w.rays, k.second); add(k.second, o, w.verts, [&]() { return w.text(); }); VInput u = v; u.verts = ordered(u.verts, k.second); if (u.rays.size()) add(k.second, o, u.rays, [&]() { return u.text(); }); } else if (v.rays.empty()) add('r', o, v.verts, [&]() { return v.text(); }); }
         for (auto h : hs) { if (k.second != 'a' && k.second != 'd' && k.second != 'r' && h.d == 2) continue; add(k.second, o, h.ineqs, [&]() { return h.text(); }); }
      } }});
   p.families.push_back({"integer-types", "every spelling of 64, safe and inf on a problem that needs 64 bit, of safe and inf on one that needs more (safe must refuse it)", false, [](Emitter& em) {
      VInput w; w.d = 2; w.verts = {{0,0,1},{1009,999983,1},{2018,1500007,1}}; VInput x; x.d = 3; Z b = 1000000007; x.verts = {{0,0,0,1},{b,1,2,1},{3,b-5,1,1},{b-9,b-3,b-1,1}};
      for (auto& t : kInts) for (auto& o : spell('i', t, true)) for (std::string m : {"ad", "dd"}) for (int pos = 0; pos < 2; ++pos) { if (t == "16" || t == "32") continue; if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string {
         Args a{"-m", m}; if (m == "ad") a = {"-t", "1"}; a.insert(pos ? a.end() : a.begin(), "in"); a.insert(a.end(), o.words.begin(), o.words.end());
         if (t != "64" || m == "dd") { FacetRef fr(w.gens(), w.d); Result r = c.run({a, {{"in", w.text()}}}); auto e = judgeFacets(fr, r, w.d, ""); if (!e.empty()) return show(a) + ": " + e; }
         if (t == "64") return "";
         FacetRef fr(x.gens(), x.d); Result r = c.run({a, {{"in", x.text()}}});
         if (t == "safe") return r.rejected() ? "" : show(a) + ": an overflow is not refused: " + r.status();
         if (!r.ok()) { c.tag("inf: result does not fit"); return r.rejected() ? "" : "program ended with " + r.status(); } auto e = judgeFacets(fr, r, x.d, ""); return e.empty() ? "" : show(a) + ": " + e; }); } }});
   p.families.push_back({"check-and-known", "-c and -k in every spelling and order with a known row that is no facet / vertex: refused; without -c or -k accepted", false, [](Emitter& em) {
      for (auto& s : subjects()) { std::string bad = s.facets ? "Inequalities\n1 0 0 -100\n" : "Vertices\n1/2 1/2 1/2\n";
         for (auto& k : spell('k', "known", s.facets)) for (auto& c : spell('c', "", s.facets)) for (int order = 0; order < 2; ++order) for (size_t pos = 0; pos < 3; ++pos) for (std::string m : {"", "dd"}) {
            if (!em.want()) continue; em.exec([=](Ctx& x) -> std::string {
               std::vector<Opt> o{k, c}; if (order) std::swap(o[0], o[1]); Args a = line(o, pos, "in"); if (!m.empty()) { a.push_back("-m"); a.push_back(m); }
               Result r = x.run({a, {{"in", s.text}, {"known", bad}}}); auto e = refused(r, show(a) + " with a wrong known row"); if (!e.empty()) return e;
               Result q = x.run({a, {{"in", s.text}, {"known", s.known}}}); e = judge(s, q); return e.empty() ? "" : show(a) + ": " + e; }); } } }});
   p.families.push_back({"wrong-values", "every option with 20 wrong values in every spelling, both positions of the file name, facets and vertices: refused", false, [](Emitter& em) {
      const std::map<char, Args> wrong{
         {'i', {"", "8", "128", "16bit", "1 6", "int", "Inf", "SAFE", "safe_", "infinite", "64 ", " 64", "-64", "32.0", "0x20", "0", "i"}},
         {'m', {"", "AD", "add", "d", "a", "ddd", "double", "adjacency", "double-descriptio", "double-descriptions", "ad ", "dd,ad", "0", "fm"}},
         {'s', {"", "le", "lexi", "lexx", "lex_", "lex_x", "lex-asc", "lexasc", "lexico", "lexicographic_", "LEX_ASC", "lex_asc_", "n", "nz_", "nz_x", "nonsense", "none", "nonzero_", "nonzero_x", "re", "reversed", "sorted", "asc", "desc", "random"}},
         {'t', {"", "0", "-1", "x", "1x", "1.5", "two", "99999999999999999999", "2147483648", "1 2", "-", "+", "0x", "--2", "1,000"}},
         {'k', {"", "nonexistent", ".", "kno"}}};
      for (auto& s : subjects()) for (auto& w : wrong) for (auto& v : w.second) for (auto& o : spell(w.first, v, s.facets)) for (size_t pos = 0; pos < 2; ++pos) {
         if (w.first == 'k' && v.empty()) continue; // no file name given: left open
         if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string { Args a = line({o}, pos, "in"); return refused(c.run({a, {{"in", s.text}, {"known", s.known}}}), show(a)); }); } }});
   p.families.push_back({"misspelt", "34 misspelt options with and without values, before and after the file name: refused", false, [](Emitter& em) {
      const std::vector<Args> bad{{"-i64"}, {"-int", "64"}, {"--i=64"}, {"--integer=64"}, {"--integer-type", "64"}, {"--integer-types=64"}, {"-mdd"}, {"-md", "dd"}, {"--m=dd"}, {"--method", "dd"}, {"--methods=dd"}, {"-slex_asc"}, {"-sort=lex_asc"}, {"--s=lex_asc"}, {"--sort=lex_asc"}, {"--sorting", "lex_asc"}, {"-t2"}, {"-threads=2"}, {"--t=2"}, {"--thread=2"}, {"--threads", "2"}, {"-kknown"}, {"-known=known"}, {"--k=known"}, {"--known=known"}, {"--known-data", "known"}, {"--known_data=known"}, {"--chek"}, {"-check"}, {"-x"}, {"-x", "1"}, {"--foo"}, {"--foo=1"}, {"-"}, {"--"}, {"--verbose"}};
      for (auto& s : subjects()) for (auto& b : bad) for (int pos = 0; pos < 2; ++pos) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string { Args a = b; a.insert(pos ? a.end() : a.begin(), "in"); return refused(c.run({a, {{"in", s.text}, {"known", s.known}}}), show(a)); }); } }});
   p.families.push_back({"file-names", "missing, several, empty, unreadable files, options without their value at the end, in combination with one option at every position: refused; unusual file names: accepted", false, [](Emitter& em) {
      for (auto& s : subjects()) {
         auto opts = options(false, s.facets);
         for (int kind = 0; kind < 6; ++kind) commandLines(opts, 1, [&](const std::vector<Opt>& o, size_t pos) { if (!em.want()) return; em.exec([=](Ctx& c) -> std::string {
            Args a; Files f{{"in", s.text}, {"known", s.known}, {"empty", ""}};
            switch (kind) {
               case 0: if (pos) return ""; a = o[0].words; break;                                               // no file name
               case 1: a = line(o, pos, "in"); a.push_back("in"); break;                                     // two
               case 2: a = line(o, pos, "in"); a.insert(a.begin(), "known"); break;
               case 3: a = line(o, pos, "nonexistent"); break;
               case 4: a = line(o, pos, "empty"); break;
               case 5: a = line(o, pos, "."); break;
            }
            return refused(c.run({a, f}), show(a)); }); });
         for (std::string last : {"-i", "-m", "-s", "-t", "-k"}) commandLines(opts, 1, [&](const std::vector<Opt>& o, size_t pos) { if (o[0].words[0] == last || o[0].letter == last[1] || (last == "-t" && o[0].letter == 'm')) return; if (!em.want()) return; em.exec([=](Ctx& c) -> std::string { Args a = line(o, pos, "in"); a.push_back(last); return refused(c.run({a, {{"in", s.text}, {"known", s.known}}}), show(a)); }); });
         for (std::string name : {"16", "dd", "x=1", "a b", "./-t", "./in", "lex_asc", "t", "in.poi", "in-t", "c", "1", "threads", "="}) commandLines(opts, 1, [&](const std::vector<Opt>& o, size_t pos) { if (!em.want()) return; em.exec([=](Ctx& c) -> std::string { Args a = line(o, pos, name); auto e = judge(s, c.run({a, {{name, s.text}, {"known", s.known}}})); return e.empty() ? "" : show(a) + ": " + e; }); });
      } }});
   p.families.push_back({"help-and-version", "every spelling of help, help on every option, and version, alone and next to a file name and an option: successful, nothing computed; all names of one option give the same help, different options different help", false, [](Emitter& em) {
      static const std::vector<Args> topics{{"-i", "--integer-type", "i", "integer-type"}, {"-k", "--known-data", "--known-facets", "--known-vertices", "k"}, {"-m", "--method", "m", "method"}, {"-s", "--sorting", "s", "sorting"}, {"-c", "--check", "c", "check"}, {"-t", "--threads", "t", "threads"}, {"-h", "--help", "h", "help", "?", "--help-command"}, {"-v", "--version", "v", "version"}};
      auto s = subjects()[0]; Files f{{"in", s.text}};
      auto rows = [](const std::string& out) { for (auto& sec : sections(out).secs) if (sec.first == "Inequalities" || sec.first == "Vertices" || sec.first == "Vertices / Rays") { Vec v; for (auto& t : sec.second) if (parseUnnamed(t, 4, v)) return true; } return false; };
      for (size_t t = 0; t < topics.size(); ++t) for (size_t k = 0; k < topics[t].size(); ++k) for (int form = 0; form < 4; ++form) for (int pos = 0; pos < 3; ++pos) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string {
         auto words = [](int fo, const std::string& n) { return fo == 0 ? Args{"-h", n} : fo == 1 ? Args{"-h=" + n} : fo == 2 ? Args{"--help=" + n} : Args{"--help-command=" + n}; };
         Args a = words(form, topics[t][k]); if (pos == 1) a.push_back("in"); if (pos == 2) a.insert(a.begin(), "in");
         Result r = c.run({a, f}), q = c.run({words(0, topics[t][0]), f}), o = c.run({words(0, topics[(t + 1) % topics.size()][0]), f});
         if (!r.ok()) return show(a) + " ended with " + r.status(); if (trim(r.out + r.err).empty()) return show(a) + " prints nothing"; if (rows(r.out)) return show(a) + " computes";
         if (r.out != q.out || r.err != q.err) return show(a) + " prints other help than for " + topics[t][0]; if (r.out == o.out && r.err == o.err) return show(a) + " prints the help for " + topics[(t + 1) % topics.size()][0]; return ""; }); }
      for (std::string w : {"bogus", "-x", "--threadz", "in"}) for (int form = 0; form < 4; ++form) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string { Args a = form == 0 ? Args{"-h", w} : form == 1 ? Args{"-h=" + w} : form == 2 ? Args{"--help=" + w} : Args{"--help-command=" + w}; return refused(c.run({a, f}), show(a)); }); }
      for (Args h : std::vector<Args>{{}, {"-h"}, {"--h"}, {"-help"}, {"--help"}, {"?"}, {"-v"}, {"--v"}, {"-version"}, {"--version"}}) for (int pos = 0; pos < 4; ++pos) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string {
         if (h.empty() && pos) return ""; if (h == Args{"-h"} && pos == 2) return "";
         Args a = h; if (pos == 1) a.insert(a.begin(), "in"); if (pos == 2) a.push_back("in"); if (pos == 3) a.insert(a.begin(), {"-t", "2", "in"});
         bool version = !h.empty() && h[0].find('v') != std::string::npos; Result r = c.run({a, f}), q = c.run({{version ? "-v" : "--help"}, f});
         if (!r.ok()) return show(a) + " ended with " + r.status(); if (rows(r.out)) return show(a) + " computes"; if (r.out + r.err != q.out + q.err) return show(a) + " prints something else than " + (version ? "-v" : "--help");
         if (!version) for (auto& t : topics) if ((r.out + r.err).find(t[0]) == std::string::npos || (r.out + r.err).find(t[1]) == std::string::npos) return show(a) + " does not mention " + t[0] + " / " + t[1]; return ""; }); } }});
   return p;
}
void addCliProps(std::vector<Property>& l) { l.push_back(commandLine()); }
} // namespace mc
