// How input files are read: equivalent forms of one input, and every small edit of a correct file.
#include "grammar.hpp"
#include "reps.hpp"
namespace mc {
using gr::Reader;

static std::vector<std::string> cut(const std::string& s) { std::vector<std::string> v; std::string l; for (char c : s) if (c == '\n') { v.push_back(l); l.clear(); } else l += c; if (!l.empty()) v.push_back(l); return v; }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }
static bool hasRows(const std::string& out) { for (auto& s : sections(out).secs) if (!s.second.empty()) return true; return false; }
static std::string misbehaved(const Result& r) { // whatever the input: no endless loop, no crash
   if (r.timeout) return "program does not end";
   if (r.sig && r.sig != SIGABRT) return "program crashed: " + r.status();
   return "";
}
static std::string judgeMeaning(Ctx& c, const Meaning& m, const Result& r) {
   if (m.vdesc) {
      FacetRef fr(m.v.gens(), m.v.d);
      if (m.maps.empty()) { c.tag("valid: facets"); return judgeFacets(fr, r, m.v.d, m.v.names); }
      SymCase s; s.d = m.v.d; s.maps = m.maps; s.V = m.v.verts; s.R = m.v.rays; size_t nv = 0, nr = 0; { std::set<Vec> u; for (auto x : s.V) { ref::primitive(x); u.insert(x); } nv = u.size(); u.clear(); for (auto x : s.R) { ref::primitive(x); u.insert(x); } nr = u.size(); }
      if (!closure(s.V, s.maps, nv, applyV) || !closure(s.R, s.maps, nr, applyV) || s.V.size() != nv || s.R.size() != nr) { c.tag("open: maps are no symmetries"); return ""; }
      for (auto& a : s.maps) { Mat l; for (auto& row : a.m) l.push_back(Vec(row.begin(), row.end() - 1)); if (ref::rank(l) < s.d) { c.tag("open: singular map"); return ""; } }
      c.tag("valid: facets with maps"); Mat gens = s.V; gens.insert(gens.end(), s.R.begin(), s.R.end()); FacetRef unique(gens, m.v.d); return judgeReducedFacets(unique, s, r, m.v.names);
   }
   auto er = ref::extremeRays(m.h.cone(), m.h.d + 1); bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true;
   if (!er.pointed || !hasVertex) { c.tag("open: polyhedron without vertex"); return ""; }
   if (m.maps.empty()) { c.tag("valid: vertices"); return judgeVertices(er.rays, r, m.h.d); }
   for (auto& a : m.maps) { Mat l; for (auto& row : a.m) l.push_back(Vec(row.begin(), row.end() - 1)); if (ref::rank(l) < m.h.d) { c.tag("open: singular map"); return ""; } for (auto& x : er.rays) if (!er.rays.count(applyV(a, x))) { c.tag("open: maps are no symmetries"); return ""; } }
   c.tag("valid: vertices with maps"); return judgeReducedVertices(er.rays, m.h.d, m.maps, r);
}
static bool semanticsOpen(const Meaning& m) { // whether a run may be long or wild although the file is well formed
   return !m.maps.empty();
}
static std::string kindOf(const std::string& w) { std::string k = w.substr(0, w.find(':')); for (const char* p : {"division by zero", "right-hand side", "two terms"}) if (k.compare(0, std::strlen(p), p) == 0) return p; if (k.compare(0, 8, "relation") == 0) return "unknown relation"; return k; }
static void caseText(Emitter& em, const std::string& text, const std::vector<std::string>& args) {
   if (!em.want()) return;
   em.exec([text, args](Ctx& c) -> std::string {
      Meaning m = Reader().read(cut(text));
      if (m.verdict == OPEN && (m.reduced || text.find("aps") != std::string::npos || text.find("MAP") != std::string::npos)) { c.tag("open, with maps (not run)"); return ""; } // maps that are no symmetries make the program run for ever, as documented
      if (m.verdict == VALID && semanticsOpen(m)) { Result dummy; dummy.code = 0; Ctx t; std::string e = judgeMeaning(t, m, dummy); for (auto& x : t.tags) if (x.first.compare(0, 4, "open") == 0) { c.tag(x.first + " (not run)"); return ""; } (void)e; }
      if (m.verdict == VALID && !m.vdesc) { auto er = ref::extremeRays(m.h.cone(), m.h.d + 1); bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true; if (!er.pointed || !hasVertex) { c.tag("open: polyhedron without vertex (not run)"); return ""; } }
      if (m.verdict == OPEN && m.raysOnly) { c.tag("open: rays only (not run)"); return ""; }
      if (m.verdict == OPEN && (m.why == "large numbers" || m.why == "smallest integer" || m.why == "large denominators" || text.find("2147483648") != std::string::npos)) { c.tag("open: " + m.why + " (not run)"); return ""; } // 64 bit arithmetic may overflow, as documented
      Result r = c.run({args, {{"in", text}}});
      std::string e = misbehaved(r); if (!e.empty() && m.verdict == OPEN && text.find("nequal") + 1 + text.find("INEQ") + 1 > 0) { c.tag("open: outer description without defined meaning"); return ""; } if (!e.empty()) return e + (m.verdict == OPEN ? " (" + m.why + ")" : "");
      if (m.verdict == OPEN) { c.tag("open: " + m.why + (r.ok() ? ", accepted" : ", refused")); return ""; }
      if (m.verdict == VALID && !m.lenient.empty()) { c.tag("undocumented form: " + m.lenient + (r.ok() ? ", accepted" : ", refused")); if (r.rejected() && !hasRows(r.out)) return ""; }
      if (m.verdict == MALFORMED) { c.tag("malformed: " + kindOf(m.why)); if (!r.rejected()) return "malformed input accepted (" + m.why + ")"; if (hasRows(r.out)) return "malformed input refused after printing rows (" + m.why + ")"; return ""; }
      return judgeMeaning(c, m, r);
   });
}

// ---- edits
static std::vector<std::string> vDocs() { return {
   "Vertices\n0 0\n2 0\n0 1/2\n",
   "DIM=2\nVertices\n0 0\n-1 3\n0 1\nRays\n1 1\n",
   "Names\nx y\nVertices\n(1) 0 0\n(2) 1 0\n(3) 0 1\n",
   "DIM=2\nINDEX\nx y\nCONV_SECTION\n0 1\n1/3 2\nEND\nCONE_SECTION\n1 0\nEND\n",
   "Names\nx y\nMaps\ny x\nVertices\n0 0\n1 0\n0 1\n",
   "Names:\nx y\nMaps:\n1-x y\ny x\n\nVertices:\n0 0\n1 0\n0 1\n1 1\n",
   "Vertices\n0\n3\n",
   "Vertices\n0 0 0\n1 0 0\n0 1 0\n0 0 1\nRays\n1 1 1\n"}; }
static std::vector<std::string> hDocs() { return {
   "Inequalities\n-1 0 0\n0 -1 0\n1 1 -2\n",
   "Names\nx y\nInequalities\nx >= 0\ny >= 0\nx +2y <= 3\n",
   "DIM=2\nNames\nx y\nEquations\nx -y = 0\nInequalities\nx <= 1\n-x <= 0\n",
   "DIM=2\nINDEX\nx y\nINEQUALITY_SECTION\n(1) -x <= 0\n(2) y >= -1\n(3) x + 3y <= 4\nEND\n",
   "Equations\n1 -1 0\nInequalities\n1 0 -1\n-1 0 0\n",
   "Names\nx y\nMaps\ny x\nInequalities\nx >= 0\ny >= 0\nx + y <= 1\n",
   "Inequalities\n1 -3\n-2 0\n",
   "Equations\n1 -1 = 0\nInequalities\n1 0 <= 3\n0 1 >= 1\n"}; }
static const std::vector<std::string> kTokens{"0", "1", "-1", "+2", "1/2", "3/1", "1/0", "0/5", "/", "1/", "/2", "1/-2", "1//2", "x", "y", "-x", "2y", "x+y", "z", "+", "-", "+-1", "--1", "1-", "1-1", "1.5", "1e3", "0x1", "x<=1", "<=", ">=", "=", "==", "<", ">", "=>", "<==", "(", ")", "(1)", "(a b)", "1)", "#", "*", "2*x", "2147483647", "-2147483648", "2147483648", "99999999999", "-99999999999999999999", "Vertices", "END", "DIM=2", "DIM=3", "nan", "\"1\"", ";", ","};
static void tokenEdits(const std::string& doc, const std::function<void(const std::string&)>& f) {
   auto lines = cut(doc);
   for (size_t l = 0; l < lines.size(); ++l) {
      auto tok = split(lines[l]);
      auto put = [&](const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += (s.empty() ? "" : " ") + x; auto v = lines; v[l] = s; f(join(v)); };
      for (size_t i = 0; i <= tok.size(); ++i) {
         for (auto& a : kTokens) { auto t = tok; t.insert(t.begin() + long(i), a); put(t); if (i < tok.size()) { t = tok; t[i] = a; put(t); } }
         if (i < tok.size()) { auto t = tok; t.erase(t.begin() + long(i)); put(t); t = tok; t.insert(t.begin() + long(i), tok[i]); put(t); if (i + 1 < tok.size()) { t = tok; std::swap(t[i], t[i + 1]); put(t); } }
      }
   }
}
static const std::vector<std::string> kLines{"", "Vertices", "Rays", "Reduced Vertices", "Reduced Rays", "Inequalities", "Reduced Inequalities", "Equations", "Names", "Maps", "END", "DIM=2", "DIM=1", "DIM=", "DIM=x", "DIM", "DIM = 2", "Dimension=2", "x y", "y x", "y", "x y z", "0 0", "1 0 0", "1 0 0 0", "1", "x <= 1", "x = 1", "x +y", "x >=", "# comment", "1/2 1/2", "(3)", "vertices", "Vertices 0 0", "Inequalities: x <= 1"};
static void lineEdits(const std::string& doc, const std::function<void(const std::string&)>& f) {
   auto lines = cut(doc);
   for (size_t l = 0; l <= lines.size(); ++l) {
      for (auto& a : kLines) { auto v = lines; v.insert(v.begin() + long(l), a); f(join(v)); if (l < lines.size()) { v = lines; v[l] = a; f(join(v)); } }
      if (l == lines.size()) continue;
      auto v = lines; v.erase(v.begin() + long(l)); f(join(v));
      for (size_t k = l + 1; k < lines.size(); ++k) { v = lines; std::swap(v[l], v[k]); f(join(v)); v = lines; v.erase(v.begin() + long(k)); v.erase(v.begin() + long(l)); f(join(v)); }
      for (size_t k = 0; k <= lines.size(); ++k) { v = lines; v.insert(v.begin() + long(k), lines[l]); f(join(v)); }
   }
}
static const std::string kChars = " \n\t/+-()=<>.:0123x#";
static void charEdits(const std::string& doc, const std::function<void(const std::string&)>& f, int n = 1) {
   for (size_t i = 0; i <= doc.size(); ++i) {
      auto go = [&](const std::string& s) { if (n == 1) f(s); else charEdits(s, f, n - 1); };
      for (char c : kChars) { std::string s = doc; s.insert(i, 1, c); go(s); if (i < doc.size()) { s = doc; s[i] = c; go(s); } }
      if (i < doc.size()) { std::string s = doc; s.erase(i, 1); go(s); f(doc.substr(0, i)); }
   }
}

// ---- known data
struct KnownDoc { std::string main, names, text; bool v; };
static std::vector<KnownDoc> kDocs() { return {
   {"Vertices\n0 0\n1 0\n0 1\n1 1\n", "", "Inequalities\n1 0 -1\n0 -1 0\n", true},
   {"Names\nx y\nVertices\n0 0\n1 0\n0 1\n1 1\n", "x y", "Inequalities\nx <= 1\n-y <= 0\n", true},
   {"Inequalities\n-1 0 0\n0 -1 0\n1 0 -1\n0 1 -2\n", "", "Vertices\n0 0\n1 2\n", false},
   {"Inequalities\n-1 0 0\n0 -1 0\n1 -1 -1\n", "", "Vertices\n0 0\nRays\n0 1\n", false}}; }
static void caseKnownText(Emitter& em, const KnownDoc& k, const std::string& text) {
   if (!em.want()) return;
   em.exec([k, text](Ctx& c) -> std::string {
      Meaning base = Reader().read(cut(k.main)), m = Reader().read(cut(text), true, split(k.names));
      bool wrongKind = m.verdict == VALID && (m.vdesc == k.v || !m.maps.empty());
      int d = k.v ? base.v.d : base.h.d;
      if (m.verdict == VALID && !wrongKind && (m.vdesc ? m.v.d : m.h.d) != d) { m.verdict = MALFORMED; m.why = "known rows of another dimension"; }
      std::set<Vec> truth; FacetRef fr; std::set<Vec> rays;
      if (k.v) { fr = FacetRef(base.v.gens(), d); for (auto& n : fr.cf.normals) { Vec p = n; ref::primitive(p); truth.insert(p); } } else { rays = ref::extremeRays(base.h.cone(), d + 1).rays; truth = rays; }
      if (m.verdict == OPEN || wrongKind) { c.tag("open (not run)"); return ""; }
      if (m.verdict == VALID) { Mat rows = m.h.ineqs; rows.insert(rows.end(), m.h.eqs.begin(), m.h.eqs.end()); for (auto& x : m.v.gens()) rows.push_back(x); for (auto x : rows) { ref::primitive(x); if (!truth.count(x)) { c.tag("open: known rows are wrong (not run)"); return ""; } } if (!m.h.eqs.empty()) { c.tag("open (not run)"); return ""; } }
      Result r = c.run({{"-t", "1", "-k", "known", "in"}, {{"in", k.main}, {"known", text}}});
      std::string e = misbehaved(r); if (!e.empty()) return e;
      if (m.verdict == VALID && !m.lenient.empty()) { c.tag("undocumented form: " + m.lenient + (r.ok() ? ", accepted" : ", refused")); if (r.rejected() && !hasRows(r.out)) return ""; }
      if (m.verdict == MALFORMED) { c.tag("malformed: " + kindOf(m.why)); if (!r.rejected()) return "malformed known data accepted (" + m.why + ")"; if (hasRows(r.out)) return "malformed known data refused after printing rows (" + m.why + ")"; return ""; }
      c.tag("valid");
      return k.v ? judgeFacets(fr, r, d, base.v.names) : judgeVertices(rays, r, d);
   });
}

static Property malformed() {
   Property p; p.id = "malformed-input";
   auto all = [](bool h, std::function<void(const std::string&, const std::function<void(const std::string&)>&)> g) { return [=](Emitter& em) { for (auto& d : h ? hDocs() : vDocs()) g(d, [&](const std::string& t) { caseText(em, t, {"-t", "1", "in"}); }); }; };
   auto chars = [](const std::string& d, const std::function<void(const std::string&)>& f) { charEdits(d, f); };
   const std::string base = " base files (PANDA and PORTA headings, names, maps, fractions, rays, equations, identifiers)";
   p.families.push_back({"tokens-v", "8" + base + ", inner descriptions: every insertion, replacement, deletion, repetition and exchange of one token, with 58 tokens", false, all(false, tokenEdits)});
   p.families.push_back({"tokens-h", "7" + base + ", outer descriptions: same", false, all(true, tokenEdits)});
   p.families.push_back({"lines-v", "the same files: every insertion and replacement of one line by 36 lines, deletion, exchange and repetition of lines, deletion of two lines", false, all(false, lineEdits)});
   p.families.push_back({"lines-h", "outer descriptions: same", false, all(true, lineEdits)});
   p.families.push_back({"characters-v", "the same files: every insertion, replacement and deletion of one character (20 characters) at every position, and truncation at every position", false, all(false, chars)});
   p.families.push_back({"characters-h", "outer descriptions: same", false, all(true, chars)});
   p.families.push_back({"known-data", "files with known facets / vertices for 4 inputs: token, line and character edits", false, [](Emitter& em) { for (auto& k : kDocs()) { auto f = [&](const std::string& t) { caseKnownText(em, k, t); }; tokenEdits(k.text, f); lineEdits(k.text, f); charEdits(k.text, f); } }});
   p.families.push_back({"lengths", "every combination of row lengths 0..4 for up to three rows in every pair of sections, with 0..4 names and DIM absent or 1..3", false, [](Emitter& em) {
      auto row = [](int n, int k) { std::string s; for (int i = 0; i < n; ++i) s += (i ? " " : "") + std::to_string((i + k) % 3); return s; };
      for (int nm = 0; nm <= 4; ++nm) for (int dim = 0; dim <= 3; ++dim) for (int a = 1; a <= 4; ++a) for (int b = 0; b <= 4; ++b) for (int e = 0; e <= 4; ++e) {
         std::string head; if (dim) head += "DIM=" + std::to_string(dim) + "\n"; if (nm) { head += "Names\n"; for (int i = 0; i < nm; ++i) head += std::string(i ? " " : "") + "xyzw"[i]; head += "\n"; }
         std::string s = head + "Vertices\n" + row(a, 0) + "\n" + (b ? row(b, 1) + "\n" : "") + (e ? "Rays\n" + row(e, 1) + "\n" : ""); caseText(em, s, {"-t", "1", "in"});
         if (nm == 0) { s = head + (e ? "Equations\n" + row(e, 1) + "\n" : "") + "Inequalities\n" + row(a, 0) + "\n" + (b ? row(b, 2) + "\n" : ""); caseText(em, s, {"-t", "1", "in"}); s = head + "Inequalities\n" + row(a, 0) + "\n" + (b ? row(b, 2) + "\n" : "") + (e ? "Equations\n" + row(e, 1) + "\n" : ""); caseText(em, s, {"-m", "dd", "in"}); }
         else { std::string mp; for (int i = 0; i < b; ++i) mp += std::string(i ? " " : "") + "xyzw"[(i + e) % nm]; s = head + "Maps\n" + mp + "\nVertices\n" + row(a, 0) + "\n"; caseText(em, s, {"-t", "1", "in"}); }
      } }});
   p.families.push_back({"two-characters", "every pair of character edits in four small files", true, [](Emitter& em) { for (auto d : {vDocs()[6], hDocs()[6], std::string("Names\nx\nInequalities\nx <= 1\n-2x <= 0\n"), std::string("Names\nx\nMaps\n1-x\nVertices\n0\n1\n")}) charEdits(d, [&](const std::string& t) { caseText(em, t, {"-t", "1", "in"}); }, 2); }});
   return p;
}

void addInputProps(std::vector<Property>& out) { out.push_back(malformed()); }
} // namespace mc
