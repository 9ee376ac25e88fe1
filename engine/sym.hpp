// Symmetry groups given as affine maps: rendering, closure, judges, enumerated spaces.
#pragma once
#include "props.hpp"
namespace mc {

struct Aff { Mat m; /* d rows of d+1: image_i = m[i].x + m[i][d] */ };
static Vec applyV(const Aff& a, const Vec& g) { // homogeneous generator
   Vec r; for (auto& row : a.m) r.push_back(ref::dot(row, g)); r.push_back(g.back()); ref::primitive(r); return r;
}
static Vec applyF(const Aff& a, const Vec& f) { // pull-back of a row (coef, last)
   size_t d = a.m.size(); Vec r(d + 1, 0);
   for (size_t i = 0; i < d; ++i) for (size_t k = 0; k <= d; ++k) r[k] += f[i] * a.m[i][k];
   r[d] += f[d]; ref::primitive(r); return r;
}
static std::string text(const Aff& a, const std::vector<std::string>& names) {
   std::string s;
   for (size_t i = 0; i < a.m.size(); ++i) {
      std::string t;
      for (size_t k = 0; k <= names.size(); ++k) { Z c = a.m[i][k]; if (c == 0) continue; bool var = k < names.size();
         if (c > 0 && !t.empty()) t += "+"; if (c < 0) t += "-";
         Z m = ref::zabs(c); if (!var || m != 1) t += ref::str(m);
         if (var) t += names[k]; }
      if (t.empty()) t = "0";
      if (i) s += " "; s += t;
   }
   return s;
}
// parse "1-x y" style shorthand
static Aff A(const std::string& s, int d) {
   auto nm = split(defaultNames(d)); Aff a; auto tok = split(s);
   for (auto& t : tok) { Vec r(d + 1, 0); size_t p = 0; while (p < t.size()) { Z sg = 1; if (t[p] == '+') ++p; else if (t[p] == '-') { sg = -1; ++p; } size_t q = p; while (q < t.size() && isdigit((unsigned char)t[q])) ++q; Z c = 1; if (q > p) ref::parseZ(t.substr(p, q - p), c); size_t e = q; while (e < t.size() && t[e] != '+' && t[e] != '-') ++e; if (e > q) { auto it = std::find(nm.begin(), nm.end(), t.substr(q, e - q)); r[size_t(it - nm.begin())] += sg * c; } else r[d] += sg * c; p = e; } a.m.push_back(r); }
   return a;
}
static Aff reflectThrough(const Vec& twiceCenter) { Aff a; int d = int(twiceCenter.size()); for (int i = 0; i < d; ++i) { Vec r(d + 1, 0); r[i] = -1; r[d] = twiceCenter[i]; a.m.push_back(r); } return a; }
template <typename F> static bool closure(std::vector<Vec>& v, const std::vector<Aff>& g, size_t cap, F f) {
   std::set<Vec> seen; for (auto& x : v) { ref::primitive(x); } 
   std::vector<Vec> out; for (auto& x : v) if (seen.insert(x).second) out.push_back(x);
   for (size_t i = 0; i < out.size(); ++i) for (auto& a : g) { Vec y = f(a, out[i]); if (seen.insert(y).second) { out.push_back(y); if (out.size() > cap) return false; } }
   v = out; return true;
}
struct SymCase { int d; std::vector<Aff> maps; Mat seedV, seedR; Mat V, R; };
static bool close(SymCase& s, size_t cap = 26) { s.V = s.seedV; s.R = s.seedR; return closure(s.V, s.maps, cap, applyV) && closure(s.R, s.maps, cap, applyV); }

static std::vector<int> find(std::vector<int>& p, int x) { while (p[x] != x) x = p[x]; return {x}; }

// judge: output has exactly one row per orbit
static std::string judgeReducedFacets(const FacetRef& fr, const SymCase& s, const Result& r, const std::string& names) {
   if (!r.ok()) return "program ended with " + r.status();
   auto o = parseFacetOut(r.out, s.d, names); if (!o.err.empty()) return o.err;
   if (!o.reduced) return "output not marked as reduced although maps are given";
   auto e = fr.checkEquations(o.eqs); if (!e.empty()) return e;
   // permutation of generators under each map
   std::map<Vec, int> id; for (size_t i = 0; i < fr.gens.size(); ++i) { Vec g = fr.gens[i]; ref::primitive(g); id[g] = int(i); }
   std::vector<Mask> fs(fr.facets.begin(), fr.facets.end()); std::map<Mask, int> fid; for (size_t i = 0; i < fs.size(); ++i) fid[fs[i]] = int(i);
   std::vector<int> uf(fs.size()); for (size_t i = 0; i < uf.size(); ++i) uf[i] = int(i);
   for (auto& a : s.maps) {
      std::vector<int> perm; for (auto& g : fr.gens) { auto it = id.find(applyV(a, g)); if (it == id.end()) return "ORACLE: map does not preserve the input"; perm.push_back(it->second); }
      for (size_t i = 0; i < fs.size(); ++i) { std::vector<bool> z(fr.gens.size(), false); for (size_t k = 0; k < perm.size(); ++k) if (fs[i][k / 64] >> (k % 64) & 1) z[size_t(perm[k])] = true; int j = fid.at(ref::maskOf(z)); int x = find(uf, int(i))[0], y = find(uf, j)[0]; uf[x] = y; }
   }
   std::map<int, Vec> seen;
   for (auto& row : o.ineqs) {
      Mask m; auto e2 = fr.classify(row, m); if (!e2.empty()) return e2;
      auto it = fid.find(m); if (it == fid.end()) return "row [" + ref::str(row) + "] does not define a facet";
      int c = find(uf, it->second)[0];
      if (seen.count(c)) return "rows [" + ref::str(row) + "] and [" + ref::str(seen[c]) + "] belong to the same class";
      seen[c] = row;
   }
   std::set<int> classes; for (size_t i = 0; i < fs.size(); ++i) classes.insert(find(uf, int(i))[0]);
   if (classes.size() != seen.size()) return "output has " + std::to_string(seen.size()) + " classes, there are " + std::to_string(classes.size());
   return "";
}
static std::string judgeReducedVertices(const std::set<Vec>& rays, int d, const std::vector<Aff>& maps, const Result& r) {
   if (!r.ok()) return "program ended with " + r.status();
   auto o = parseVertexOut(r.out, d); if (!o.err.empty()) return o.err;
   if (!o.reduced) return "output not marked as reduced although maps are given";
   std::vector<Vec> vs(rays.begin(), rays.end()); std::map<Vec, int> id; for (size_t i = 0; i < vs.size(); ++i) id[vs[i]] = int(i);
   std::vector<int> uf(vs.size()); for (size_t i = 0; i < uf.size(); ++i) uf[i] = int(i);
   for (auto& a : maps) for (size_t i = 0; i < vs.size(); ++i) { auto it = id.find(applyV(a, vs[i])); if (it == id.end()) return "ORACLE: map does not preserve the polyhedron"; int x = find(uf, int(i))[0], y = find(uf, it->second)[0]; uf[x] = y; }
   std::map<int, Vec> seen;
   for (auto& g : o.gens) { Vec p = g; ref::primitive(p); auto it = id.find(p); if (it == id.end()) return "row [" + ref::str(g) + "] is not a vertex or extreme ray"; int c = find(uf, it->second)[0]; if (seen.count(c)) return "rows [" + ref::str(g) + "] and [" + ref::str(seen[c]) + "] belong to the same class"; seen[c] = p; }
   std::set<int> classes; for (size_t i = 0; i < vs.size(); ++i) classes.insert(find(uf, int(i))[0]);
   if (classes.size() != seen.size()) return "output has " + std::to_string(seen.size()) + " classes, there are " + std::to_string(classes.size());
   return "";
}

typedef std::function<void(const SymCase&)> SymSink;
static void emitSym(const std::vector<Aff>& maps, int d, const Mat& v, const Mat& r, const SymSink& s, size_t cap = 26) { SymCase c; c.d = d; c.maps = maps; c.seedV = v; c.seedR = r; if (close(c, cap)) s(c); }

static std::vector<std::string> M2() { return {"y x", "-x y", "x -y", "-x -y", "1-x y", "x 1-y", "1-x 1-y", "-y x", "1-y x", "-y -x", "1-y 1-x", "x-y x", "-y x-y", "x x-y", "-x-y x", "1-x-y y", "y 1-x-y", "-y+1 x", "2-x y", "y-1 x+1", "-x-y+1 x"}; }
static std::vector<std::string> M3() { return {"y x z", "y z x", "x z y", "-x y z", "1-x y z", "x y 1-z", "-x -y -z", "1-x 1-y 1-z", "x z 1-y", "-y x z", "1-x-y-z y z", "1-x-y-z x y", "y x 1-z", "-z -x -y", "x-y x z", "-y x-y -z"}; }
static std::vector<std::string> M4() { return {"y x z w", "y z w x", "x y w z", "1-x y z w", "1-x 1-y 1-z 1-w", "z w x y", "-x -y -z -w", "y x w z", "x z y 1-w"}; }

static void symPlane(const SymSink& s, int seeds, bool pairs) {
   auto p = gridPoints(2, {{-1,1},{0,1},{1,2},{1,1},{2,1}}); auto m = M2();
   std::vector<std::vector<Aff>> gs; for (auto& a : m) gs.push_back({A(a, 2)}); if (pairs) for (size_t i = 0; i < m.size(); ++i) for (size_t j = i + 1; j < m.size(); ++j) gs.push_back({A(m[i], 2), A(m[j], 2)});
   for (auto& g : gs) subsets(int(p.size()), 1, seeds, [&](const std::vector<int>& c) { emitSym(g, 2, pick(p, c), {}, s, 12); });
}
static void symPlaneRays(const SymSink& s) {
   auto p = gridPoints(2, 0, 1); auto dir = directions(2, 1);
   for (auto& a : M2()) subsets(int(p.size()), 1, 2, [&](const std::vector<int>& c) { subsets(int(dir.size()), 1, 2, [&](const std::vector<int>& e) { emitSym({A(a, 2)}, 2, pick(p, c), pick(dir, e), s, 8); }); });
}
static void symSpace(const SymSink& s, int seeds, bool pairs, const Mat& p) {
   auto m = M3(); std::vector<std::vector<Aff>> gs; for (auto& a : m) gs.push_back({A(a, 3)}); if (pairs) for (size_t i = 0; i < m.size(); ++i) for (size_t j = i + 1; j < m.size(); ++j) gs.push_back({A(m[i], 3), A(m[j], 3)});
   for (auto& g : gs) subsets(int(p.size()), 1, seeds, [&](const std::vector<int>& c) { emitSym(g, 3, pick(p, c), {}, s, 14); });
}
static void symSpaceRays(const SymSink& s) {
   auto dir = directions(3, 1); auto p = gridPoints(3, 0, 1);
   for (auto& a : M3()) subsets(int(p.size()), 1, 1, [&](const std::vector<int>& c) { subsets(int(dir.size()), 1, 2, [&](const std::vector<int>& e) { emitSym({A(a, 3)}, 3, pick(p, c), pick(dir, e), s, 8); }); });
}
// every segment / planar set is symmetric under the reflection through its centre: arbitrary equations
static void symCentral(const SymSink& s) {
   auto p = gridPoints(2, {{-2,1},{-1,1},{0,1},{1,2},{1,1},{3,1}});
   subsets(int(p.size()), 2, 2, [&](const std::vector<int>& c) {
      auto q = pick(p, c); Vec t; bool integral = true; for (int k = 0; k < 2; ++k) { Z n = q[0][k] * q[1][2] + q[1][k] * q[0][2], d = q[0][2] * q[1][2]; if (n % d) integral = false; else t.push_back(n / d); }
      if (integral) emitSym({reflectThrough(t)}, 2, q, {}, s); });
   auto r = gridPoints(3, -1, 1); r.push_back({2, 0, 1, 1}); r.push_back({0, 2, -1, 1}); r.push_back({1, 0, 2, 1}); r.push_back({-2, 1, 1, 1});
   subsets(int(r.size()), 2, 3, [&](const std::vector<int>& c) {
      auto q = pick(r, c);
      emitSym({reflectThrough({0, 0, 0})}, 3, q, {}, s);
      Vec t; for (int k = 0; k < 3; ++k) t.push_back(q[0][k] + q[1][k]); emitSym({reflectThrough(t)}, 3, q, {}, s); });
}
static SymCase symOf(const VInput& v, const std::vector<Aff>& g) { SymCase c; c.d = v.d; c.maps = g; c.seedV = v.verts; close(c, 1000); return c; }
static Aff permAff(const std::vector<int>& p) { Aff a; int d = int(p.size()); for (int i = 0; i < d; ++i) { Vec r(d + 1, 0); r[p[i]] = 1; a.m.push_back(r); } return a; }
static void symClassic(const SymSink& s) {
   for (int d = 2; d <= 4; ++d) {
      std::vector<Aff> sw; for (int i = 0; i + 1 < d; ++i) { std::vector<int> p(d); for (int k = 0; k < d; ++k) p[k] = k; std::swap(p[i], p[i + 1]); sw.push_back(permAff(p)); }
      for (auto v : {simplex(d), cube(d), cross(d), permutahedron(d)}) { if (d == 4 && v.verts.size() > 20) { s(symOf(v, sw)); continue; } for (unsigned m = 1; m < (1u << sw.size()); ++m) { std::vector<Aff> g; for (size_t k = 0; k < sw.size(); ++k) if (m >> k & 1) g.push_back(sw[k]); s(symOf(v, g)); } }
      Aff fl = permAff([&] { std::vector<int> p(d); for (int k = 0; k < d; ++k) p[k] = k; return p; }()); fl.m[0][0] = -1; fl.m[0][d] = 1; std::vector<Aff> g2 = sw; g2.push_back(fl); s(symOf(cube(d), g2)); s(symOf(cube(d), {fl}));
      Aff f0 = fl; f0.m[0][d] = 0; std::vector<Aff> g3 = sw; g3.push_back(f0); s(symOf(cross(d), g3)); s(symOf(cross(d), {f0}));
   }
   { // Birkhoff 3x3: row swap, column swap, transposition
      auto b = birkhoff(3); Aff rs = permAff({3,4,5,0,1,2,6,7,8}), cs = permAff({1,0,2,4,3,5,7,6,8}), tr = permAff({0,3,6,1,4,7,2,5,8}), rc = permAff({3,4,5,6,7,8,0,1,2});
      for (auto g : std::vector<std::vector<Aff>>{{rs}, {cs}, {tr}, {rc}, {rs, cs}, {rs, tr}, {rs, rc, cs, tr}}) s(symOf(b, g)); }
   { // linear ordering polytopes: relabelling of the items
      for (int n : {3, 4}) { auto v = linearOrdering(n); auto mk = [&](std::vector<int> p) { Aff a; int d = v.d; int k = 0; std::map<std::pair<int,int>, int> id; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) id[{i, j}] = k++; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { Vec r(d + 1, 0); int x = p[i], y = p[j]; if (x < y) r[id[{x, y}]] = 1; else { r[id[{y, x}]] = -1; r[d] = 1; } a.m.push_back(r); } return a; };
         std::vector<int> t(n); for (int i = 0; i < n; ++i) t[i] = i; auto sw = t; std::swap(sw[0], sw[1]); std::vector<int> cy(n); for (int i = 0; i < n; ++i) cy[i] = (i + 1) % n; std::vector<int> rv(n); for (int i = 0; i < n; ++i) rv[i] = n - 1 - i;
         s(symOf(v, {mk(sw)})); s(symOf(v, {mk(cy)})); s(symOf(v, {mk(sw), mk(cy)})); s(symOf(v, {mk(rv)}));
         Aff fl; for (int i = 0; i < v.d; ++i) { Vec r(v.d + 1, 0); r[i] = -1; r[v.d] = 1; fl.m.push_back(r); } s(symOf(v, {fl})); s(symOf(v, {mk(sw), mk(cy), fl})); } }
   { // cut polytope: relabelling and switching
      auto v = cutPolytope(4); auto mk = [&](std::vector<int> p, int sw) { Aff a; std::map<std::pair<int,int>, int> id; int k = 0; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) id[{i, j}] = k++; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { Vec r(7, 0); int x = std::min(p[i], p[j]), y = std::max(p[i], p[j]); bool f = ((sw >> i) ^ (sw >> j)) & 1; r[id[{x, y}]] = f ? -1 : 1; r[6] = f; a.m.push_back(r); } return a; };
      s(symOf(v, {mk({1,0,2,3}, 0)})); s(symOf(v, {mk({0,1,2,3}, 1)})); s(symOf(v, {mk({1,2,3,0}, 0), mk({0,1,2,3}, 1)})); s(symOf(v, {mk({1,2,3,0}, 0), mk({1,0,2,3}, 0), mk({0,1,2,3}, 1)})); s(symOf(v, {mk({1,0,2,3}, 5)})); }
}
static VInput toInput(const SymCase& s) { VInput v; v.d = s.d; v.verts = s.V; v.rays = s.R; v.names = defaultNames(s.d); for (auto& a : s.maps) v.maps.push_back(text(a, split(v.names))); return v; }

struct SymH { int d; std::vector<Aff> maps; Mat seed, rows, eqs; };
static void emitSymH(const std::vector<Aff>& maps, int d, const Mat& seed, const Mat& eqs, const std::function<void(const SymH&)>& s, size_t cap = 14) {
   SymH h; h.d = d; h.maps = maps; h.seed = seed; h.rows = seed; h.eqs = eqs; if (closure(h.rows, maps, cap, applyF)) s(h);
}
} // namespace mc
