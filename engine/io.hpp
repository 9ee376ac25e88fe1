// Rendering of inputs, parsing of program output, and the judges comparing it with the reference model.
#pragma once
#include "ref.hpp"
#include "runner.hpp"

namespace mc {
using ref::Z; using ref::Vec; using ref::Mat; using ref::Mask;

// ---------------------------------------------------------------- rendering
inline std::string frac(Z n, Z d) { Z g = ref::gcd(n, d); if (g > 1) { n /= g; d /= g; } return d == 1 ? ref::str(n) : ref::str(n) + "/" + ref::str(d); }
inline std::string pointText(const Vec& g) { // homogeneous generator -> coordinates
   std::string s; Z d = g.back(); if (d == 0) d = 1;
   for (size_t i = 0; i + 1 < g.size(); ++i) { if (i) s += ' '; s += frac(g[i], d); }
   return s;
}
inline std::string rowsText(const Mat& m) { std::string s; for (auto& r : m) { s += ref::str(r); s += '\n'; } return s; }

struct VInput { // V-description, homogeneous generators (last > 0 vertex, last == 0 ray)
   int d = 0;
   Mat verts, rays;
   std::string names;                 // "x y z" or empty
   std::vector<std::string> maps;
   bool reducedV = false, reducedR = false;
   std::string text() const {
      std::string s;
      if (!names.empty()) s += "Names\n" + names + "\n";
      if (!maps.empty()) { s += "Maps\n"; for (auto& m : maps) s += m + "\n"; }
      if (!verts.empty()) { s += std::string(reducedV ? "Reduced " : "") + "Vertices\n"; for (auto& v : verts) s += pointText(v) + "\n"; }
      if (!rays.empty()) { s += std::string(reducedR ? "Reduced " : "") + "Rays\n"; for (auto& v : rays) s += pointText(v) + "\n"; }
      return s;
   }
   Mat gens() const { Mat g = verts; g.insert(g.end(), rays.begin(), rays.end()); return g; }
};

inline std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); for (std::string t; i >> t;) v.push_back(t); return v; }
inline std::string defaultNames(int d) { const char* n[] = {"x", "y", "z", "w", "v", "u", "t", "s", "r"}; std::string s; for (int i = 0; i < d; ++i) { if (i) s += ' '; s += d <= 9 ? std::string(n[i]) : "x" + std::to_string(i + 1); } return s; }
inline std::string namedRow(const Vec& a, const std::vector<std::string>& names, const std::string& rel) {
   std::string s;
   for (size_t i = 0; i < names.size(); ++i) if (a[i] != 0) {
      if (!s.empty()) s += ' ';
      s += a[i] > 0 ? "+" : "-";
      Z m = ref::zabs(a[i]); if (m != 1) s += ref::str(m);
      s += names[i];
   }
   return s + " " + rel + " " + ref::str(-a.back());
}
struct HInput { // rows (a, last): a x + last <= 0
   int d = 0;
   Mat ineqs, eqs;
   std::string names;
   std::vector<std::string> maps;
   bool reduced = false;
   std::string text() const {
      std::string s; auto nm = split(names);
      if (!names.empty()) s += "Names\n" + names + "\n";
      if (!maps.empty()) { s += "Maps\n"; for (auto& m : maps) s += m + "\n"; }
      if (!eqs.empty()) { s += "Equations\n"; for (auto& r : eqs) s += (names.empty() ? ref::str(r) : namedRow(r, nm, "=")) + "\n"; }
      s += std::string(reduced ? "Reduced " : "") + "Inequalities\n";
      for (auto& r : ineqs) s += (names.empty() ? ref::str(r) : namedRow(r, nm, "<=")) + "\n";
      return s;
   }
   Mat cone() const {
      Mat m = ineqs;
      if (m.size() > 12) { m.clear(); std::set<Vec> u; for (auto& x : ineqs) if (u.insert(x).second) m.push_back(x); }
      for (auto& e : eqs) { m.push_back(e); Vec n = e; for (Z& x : n) x = -x; m.push_back(n); }
      Vec far(d + 1, 0); far[d] = -1; m.push_back(far);
      return m;
   }
};

// ---------------------------------------------------------------- parsing of output
struct Sections { std::vector<std::pair<std::string, std::vector<std::string>>> secs; std::string err; };
inline std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
inline Sections sections(const std::string& out) {
   Sections r; std::istringstream in(out); std::string line;
   if (!out.empty() && out.back() != '\n') r.err = "output ends in the middle of a line";
   while (std::getline(in, line)) {
      std::string t = trim(line);
      if (t.empty()) continue;
      if (t.back() == ':') { r.secs.push_back({t.substr(0, t.size() - 1), {}}); continue; }
      if (r.secs.empty()) { r.err = "row before any section heading: " + line; return r; }
      r.secs.back().second.push_back(t);
   }
   return r;
}
inline bool parseUnnamed(const std::string& t, size_t n, Vec& v) {
   auto tok = split(t); if (tok.size() != n) return false;
   v.clear(); for (auto& s : tok) { Z z; if (!ref::parseZ(s, z)) return false; v.push_back(z); }
   return true;
}
inline bool parseNamed(const std::string& t, const std::vector<std::string>& names, const std::string& rel, Vec& v) {
   auto tok = split(t);
   if (tok.size() < 2 || tok[tok.size() - 2] != rel) return false;
   v.assign(names.size() + 1, 0);
   Z rhs; if (!ref::parseZ(tok.back(), rhs)) return false;
   v.back() = -rhs;
   std::vector<bool> seen(names.size(), false);
   for (size_t i = 0; i + 2 < tok.size(); ++i) {
      const std::string& s = tok[i]; size_t p = 0; Z sign = 1;
      if (s[p] == '+' || s[p] == '-') { if (s[p] == '-') sign = -1; ++p; }
      size_t q = p; while (q < s.size() && isdigit((unsigned char)s[q])) ++q;
      Z c = 1; if (q > p && !ref::parseZ(s.substr(p, q - p), c)) return false;
      auto it = std::find(names.begin(), names.end(), s.substr(q));
      if (it == names.end()) return false;
      size_t k = size_t(it - names.begin());
      if (seen[k]) return false;
      seen[k] = true;
      v[k] = sign * c;
   }
   return true;
}

struct FacetOut { Mat eqs, ineqs; bool reduced = false; std::string err; };
inline FacetOut parseFacetOut(const std::string& out, int d, const std::string& names) {
   FacetOut r; auto s = sections(out);
   if (!s.err.empty()) { r.err = s.err; return r; }
   auto nm = split(names); bool haveIneq = false;
   for (auto& sec : s.secs) {
      bool eq = sec.first == "Equations";
      if (!eq && sec.first != "Inequalities" && sec.first != "Reduced Inequalities") { r.err = "unexpected section \"" + sec.first + "\""; return r; }
      if (!eq) { if (haveIneq) { r.err = "two inequality sections"; return r; } haveIneq = true; r.reduced = sec.first[0] == 'R'; }
      for (auto& t : sec.second) {
         Vec v; bool ok = names.empty() ? parseUnnamed(t, size_t(d + 1), v) : parseNamed(t, nm, eq ? "=" : "<=", v);
         if (!ok) { r.err = "unreadable output row: " + t; return r; }
         (eq ? r.eqs : r.ineqs).push_back(v);
      }
   }
   if (!haveIneq) r.err = "no inequality section in output";
   return r;
}
inline bool parseFracRow(const std::string& t, size_t d, Vec& v) { // fractions -> homogeneous primitive
   auto tok = split(t); if (tok.size() != d) return false;
   std::vector<Z> n, q; Z l = 1;
   for (auto& s : tok) { auto k = s.find('/'); Z a, b = 1; if (!ref::parseZ(s.substr(0, k), a)) return false; if (k != std::string::npos && (!ref::parseZ(s.substr(k + 1), b) || b <= 0)) return false; if (b != 1 && ref::gcd(a, b) != 1) return false; n.push_back(a); q.push_back(b); l = ref::lcm(l, b); }
   v.clear(); for (size_t i = 0; i < d; ++i) v.push_back(n[i] * (l / q[i])); v.push_back(l);
   return true;
}
struct VertexOut { Mat gens; bool reduced = false; std::string err; };
inline VertexOut parseVertexOut(const std::string& out, int d) {
   VertexOut r; auto s = sections(out);
   if (!s.err.empty()) { r.err = s.err; return r; }
   for (auto& sec : s.secs) {
      std::string h = sec.first;
      if (h.compare(0, 8, "Reduced ") == 0) { r.reduced = true; h = h.substr(8); }
      for (auto& t : sec.second) {
         Vec v; bool ok = false;
         if (h == "Vertices / Rays") ok = parseUnnamed(t, size_t(d + 1), v);
         else if (h == "Vertices") ok = parseFracRow(t, size_t(d), v);
         else if (h == "Rays") { ok = parseUnnamed(t, size_t(d), v); v.push_back(0); }
         else { r.err = "unexpected section \"" + sec.first + "\""; return r; }
         if (!ok) { r.err = "unreadable output row in section " + sec.first + ": " + t; return r; }
         r.gens.push_back(v);
      }
   }
   if (s.secs.empty()) r.err = "no section in output";
   return r;
}

// ---------------------------------------------------------------- judges
struct FacetRef { // expected facets of conv + cone
   int D = 0; Mat gens; ref::ConeFacets cf; std::set<Mask> facets; Mask far; bool hasFar = false;
   Mat eqSpace;
   FacetRef() {}
   FacetRef(const Mat& all, int d) : D(d + 1) {
      Mat g = all;
      if (g.size() > 12) { g.clear(); std::set<Vec> s; for (auto& x : all) if (s.insert(x).second) g.push_back(x); } // repeated generators add nothing
      gens = g;
      cf = ref::coneFacets(g, D);
      std::vector<bool> isRay(g.size()); for (size_t i = 0; i < g.size(); ++i) isRay[i] = g[i].back() == 0;
      far = ref::maskOf(isRay);
      for (auto& f : cf.facets) { bool vertexOn = false; for (size_t i = 0; i < g.size(); ++i) if (!isRay[i] && (f[i / 64] >> (i % 64) & 1)) vertexOn = true; if (vertexOn) facets.insert(f); else hasFar = true; }
      eqSpace = ref::rowSpace(cf.equations);
   }
   // "" = valid row; mask set to its incidence
   std::string classify(const Vec& row, Mask& mask) const {
      std::vector<bool> z(gens.size());
      for (size_t i = 0; i < gens.size(); ++i) {
         Z s = ref::dot(row, gens[i]);
         if (s > 0) return "row [" + ref::str(row) + "] cuts off the generator [" + ref::str(gens[i]) + "]";
         z[i] = s == 0;
      }
      mask = ref::maskOf(z);
      return "";
   }
   std::string checkEquations(const Mat& eqs) const {
      if (int(eqs.size()) != int(cf.equations.size())) return "printed " + std::to_string(eqs.size()) + " equations, the affine hull needs " + std::to_string(cf.equations.size());
      if (ref::rowSpace(eqs) != eqSpace) return "printed equations do not describe the affine hull";
      return "";
   }
   std::string checkRows(const Mat& rows) const {
      std::set<Mask> seen;
      for (auto& r : rows) {
         Mask m; auto e = classify(r, m); if (!e.empty()) return e;
         if (!facets.count(m)) return "row [" + ref::str(r) + "] does not define a facet";
         if (!seen.insert(m).second) return "facet of row [" + ref::str(r) + "] printed more than once";
      }
      if (seen.size() != facets.size()) {
         std::string miss; for (size_t k = 0; k < cf.normals.size(); ++k) { Mask m; classify(cf.normals[k], m); if (facets.count(m) && !seen.count(m)) miss += " [" + ref::str(cf.normals[k]) + "]"; }
         return "facets missing from the output:" + miss;
      }
      return "";
   }
};
inline std::string judgeFacets(const FacetRef& fr, const Result& r, int d, const std::string& names) {
   if (!r.ok()) return "program ended with " + r.status();
   auto o = parseFacetOut(r.out, d, names);
   if (!o.err.empty()) return o.err;
   if (o.reduced) return "output marked as reduced without maps";
   auto e = fr.checkEquations(o.eqs); if (!e.empty()) return e;
   return fr.checkRows(o.ineqs);
}
inline std::string judgeVertices(const std::set<Vec>& rays, const Result& r, int d) {
   if (!r.ok()) return "program ended with " + r.status();
   auto o = parseVertexOut(r.out, d);
   if (!o.err.empty()) return o.err;
   if (o.reduced) return "output marked as reduced without maps";
   std::set<Vec> seen;
   for (auto& g : o.gens) {
      Vec p = g; ref::primitive(p);
      if (!rays.count(p)) return "row [" + ref::str(g) + "] is not a vertex or extreme ray";
      if (!seen.insert(p).second) return "row [" + ref::str(g) + "] printed more than once";
   }
   if (seen.size() != rays.size()) { for (auto& v : rays) if (!seen.count(v)) return "missing vertex / extreme ray [" + ref::str(v) + "]"; }
   return "";
}
} // namespace mc
