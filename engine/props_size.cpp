// Inputs of many rows and of high dimension: expected results in closed form (or from a small base polytope whose
// hull all further rows lie in), so that the reference does not limit the size.
#include <memory>
#include "spaces.hpp"
#include "sym.hpp"
namespace mc {

typedef std::vector<std::string> Args;
static const Args ad{"-i", "64", "-t", "1", "in"}, dd{"-i", "64", "-m", "dd", "in"};

// sizes around every boundary of a 32-bit word at which the program changes its data structures, and all small ones
static std::vector<int> sizes(int lo, int all, int hi) {
   std::set<int> s; for (int n = lo; n <= all && n <= hi; ++n) s.insert(n);
   for (int w = 1; 32 * w - 1 <= hi; w += w < 24 ? 1 : 1) { if (w > 13 && w != 16 && w != 17 && w != 20 && w != 21 && w != 30 && w != 31 && w != 40 && w != 41 && w != 50 && w != 51 && w != 75 && w != 76 && w != 100 && w != 101 && w != 150 && w != 151 && w != 200 && w != 201) continue; for (int k = -1; k <= 1; ++k) if (32 * w + k >= lo && 32 * w + k <= hi) s.insert(32 * w + k); }
   return std::vector<int>(s.begin(), s.end());
}
static std::vector<int> order(int n, int o) { // 0 as is, 1 reversed, 2 from both ends, 3 strided
   std::vector<int> r;
   if (o == 0) for (int i = 0; i < n; ++i) r.push_back(i);
   if (o == 1) for (int i = n; i-- > 0;) r.push_back(i);
   if (o == 2) for (int i = 0, j = n - 1; i <= j; ++i, --j) { r.push_back(i); if (i != j) r.push_back(j); }
   if (o == 3) { int s = 7; while (ref::gcd(s, n) != 1) ++s; for (int i = 0, k = 0; i < n; ++i, k = (k + s) % n) r.push_back(k); }
   return r;
}
// merges fillers and base: 0 fillers first, 1 base first, 2 base spread over the fillers
static Mat merged(const Mat& base, const Mat& fill, int position) {
   Mat r;
   if (position == 0) { r = fill; r.insert(r.end(), base.begin(), base.end()); return r; }
   if (position == 1) { r = base; r.insert(r.end(), fill.begin(), fill.end()); return r; }
   size_t n = base.size() + fill.size(), b = 0, f = 0;
   for (size_t i = 0; i < n; ++i) if (b < base.size() && (b + 1) * n <= (i + 1) * base.size()) r.push_back(base[b++]); else if (f < fill.size()) r.push_back(fill[f++]); else r.push_back(base[b++]);
   return r;
}
// all ways to write s as an ordered sum of k non-negative numbers, at most cap of them
static std::vector<std::vector<int>> compositions(int s, int k, size_t cap) {
   std::vector<std::vector<int>> out; std::vector<int> c(size_t(k), 0);
   std::function<void(int, int)> go = [&](int i, int left) { if (out.size() >= cap) return; if (i + 1 == k) { c[size_t(i)] = left; out.push_back(c); return; } for (int x = 0; x <= left; ++x) { c[size_t(i)] = x; go(i + 1, left - x); } };
   go(0, s); return out;
}
// generators and the facets as sets of generators (indices into gens)
static FacetRef known(const Mat& gens, int d, const std::vector<std::vector<int>>& facets) {
   FacetRef f; f.D = d + 1; f.gens = gens;
   for (auto& s : facets) { std::vector<bool> b(gens.size(), false); for (int i : s) b[size_t(i)] = true; f.facets.insert(ref::maskOf(b)); }
   return f;
}
// runs the program on the given rows; the reference refers to its own list of generators with the same hull
static void caseHull(Emitter& em, const std::function<FacetRef()>& reference, int d, const std::function<Mat()>& rows, const Args& a, bool named = false) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      VInput v; v.d = d; v.verts = rows(); if (named) { for (int i = 0; i < d; ++i) v.names += (i ? " x" : "x") + std::to_string(i + 1); }
      Result r = c.run({a, {{"in", v.text()}}});
      return judgeFacets(reference(), r, d, v.names);
   });
}
static void caseSystem(Emitter& em, const std::function<std::set<Vec>()>& reference, int d, const std::function<Mat()>& rows, const Args& a, bool named = false) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      HInput h; h.d = d; h.ineqs = rows(); if (named) { for (int i = 0; i < d; ++i) h.names += (i ? " x" : "x") + std::to_string(i + 1); }
      return judgeVertices(reference(), c.run({a, {{"in", h.text()}}}), d);
   });
}

// ------------------------------------------------------------------ small polytope among many redundant rows
static std::vector<VInput> bases() {
   std::vector<VInput> l; l.push_back(cube(2)); VInput hex; hex.d = 2; for (auto& p : Mat{{2, 0, 1}, {1, 1, 1}, {-1, 1, 1}, {-2, 0, 1}, {-1, -1, 1}, {1, -1, 1}}) hex.verts.push_back(p); l.push_back(hex);
   l.push_back(cube(3)); l.push_back(cross(3)); l.push_back(cyclic(3, 7, -3)); l.push_back(cyclic(4, 7, -3)); l.push_back(cross(4));
   return l;
}
static Mat fillers(const VInput& b, int n, int kind) { // kind 0: the first points again and again; 1: interior points, all different as far as possible
   Mat f;
   if (kind == 0) { for (int i = 0; i < n; ++i) f.push_back(b.verts[size_t(i) % (size_t(b.d) + 1)]); return f; }
   int S = 3; auto enough = [&](int s) { double c = 1; for (int i = 1; i <= b.d; ++i) c = c * (s + i) / i; return c >= n; };
   while (!enough(S) && S < 40) ++S;
   auto w = compositions(S, b.d + 1, size_t(n));
   for (int i = 0; i < n; ++i) { auto& c = w[size_t(i) % w.size()]; Vec p(size_t(b.d) + 1, 0); for (size_t k = 0; k < c.size(); ++k) for (int j = 0; j < b.d; ++j) p[size_t(j)] += c[k] * b.verts[k][size_t(j)]; p.back() = S; ref::primitive(p); f.push_back(p); }
   return f;
}
static void hullAmongRedundant(Emitter& em, const std::vector<int>& ns, const Args& a) {
   for (auto& b : bases()) {
      auto fr = std::make_shared<FacetRef>();
      for (int n : ns) for (int kind = 0; kind < 2; ++kind) for (int pos = 0; pos < 3; ++pos)
         caseHull(em, [=]() { if (fr->gens.empty()) *fr = FacetRef(b.verts, b.d); return *fr; }, b.d, [=]() { return merged(b.verts, fillers(b, n - int(b.verts.size()), kind), pos); }, a);
   }
}
static std::vector<HInput> systems() {
   std::vector<HInput> l; auto dual = [&](const VInput& v) { HInput h; h.d = v.d; h.ineqs = ref::coneFacets(v.verts, v.d + 1).normals; l.push_back(h); };
   dual(cube(2)); dual(cube(3)); dual(cross(3)); dual(cyclic(3, 6, -2)); dual(cube(4)); dual(simplex(4));
   HInput o; o.d = 3; for (int i = 0; i < 3; ++i) { Vec r(4, 0); r[size_t(i)] = -1; o.ineqs.push_back(r); } o.ineqs.push_back({-1, -1, -1, 2}); o.ineqs.push_back({-1, -2, 0, 1}); l.push_back(o); // unbounded
   return l;
}
static void systemAmongRedundant(Emitter& em, const std::vector<int>& ns, const Args& a) {
   for (auto& h : systems()) {
      auto er = std::make_shared<std::set<Vec>>();
      for (int n : ns) for (int kind = 0; kind < 2; ++kind) for (int pos = 0; pos < 3; ++pos)
         caseSystem(em, [=]() { if (er->empty()) *er = ref::extremeRays(h.cone(), h.d + 1).rays; return *er; }, h.d, [=]() { return merged(h.ineqs, redundantRows(h.ineqs, h.d, n - int(h.ineqs.size()), kind), pos); }, a);
   }
}

// ------------------------------------------------------------------ polytopes of any size, facets known in closed form
static Mat parabola(int n) { Mat m; for (int i = 0; i < n; ++i) { Z t = i - n / 2; m.push_back({t, t * t, 1}); } return m; }
static std::vector<std::vector<int>> polygonEdges(int n) { std::vector<std::vector<int>> f; for (int i = 0; i < n; ++i) f.push_back({i, (i + 1) % n}); return f; }
static void polygons(Emitter& em, const std::vector<int>& ns, const Args& a) {
   for (int n : ns) for (int o = 0; o < 4; ++o) caseHull(em, [=]() { return known(parabola(n), 2, polygonEdges(n)); }, 2, [=]() { return pick(parabola(n), order(n, o)); }, a, o == 3 && n < 200);
}
static void prisms(Emitter& em, const std::vector<int>& ns, const Args& a) {
   for (int n : ns) for (int o = 0; o < 4; ++o) {
      auto prism = [n]() { Mat m; for (int z = 0; z < 2; ++z) for (auto p : parabola(n)) { p.insert(p.begin() + 2, z); m.push_back(p); } return m; };
      caseHull(em, [=]() { std::vector<std::vector<int>> f; for (auto e : polygonEdges(n)) f.push_back({e[0], e[1], e[0] + n, e[1] + n}); for (int z = 0; z < 2; ++z) { f.push_back({}); for (int i = 0; i < n; ++i) f.back().push_back(i + z * n); } return known(prism(), 3, f); }, 3, [=]() { return pick(prism(), order(2 * n, o)); }, a);
      // bipyramid: the apexes see every edge of the polygon
      auto bip = [n]() { Mat m; for (auto p : parabola(n)) { p.insert(p.begin() + 2, 0); m.push_back(p); } for (int s = -1; s <= 1; s += 2) m.push_back({0, 1, 2 * s, 2}); return m; };
      caseHull(em, [=]() { std::vector<std::vector<int>> f; for (auto e : polygonEdges(n)) for (int s = 0; s < 2; ++s) f.push_back({e[0], e[1], n + s}); return known(bip(), 3, f); }, 3, [=]() { return pick(bip(), order(n + 2, o)); }, a);
   }
}
// Gale's evenness condition
static void cyclics(Emitter& em, int d, const std::vector<int>& ns, const Args& a) {
   for (int n : ns) for (int o = 0; o < 4; ++o) caseHull(em, [=]() {
      std::vector<std::vector<int>> f;
      ref::combos(n, d, [&](const std::vector<int>& c) { std::vector<bool> in(size_t(n), false); for (int i : c) in[size_t(i)] = true; bool ok = true; int run = 0; bool inner = false;
         for (int i = 0; i < n; ++i) { if (in[size_t(i)]) ++run; else { if (inner && run % 2) ok = false; run = 0; inner = true; } } if (ok) f.push_back(c); return true; });
      return known(cyclic(d, n, -(n / 2)).verts, d, f); }, d, [=]() { return pick(cyclic(d, n, -(n / 2)).verts, order(n, o)); }, a);
}
static void cubes(Emitter& em, int lo, int hi, const Args& a) {
   for (int d = lo; d <= hi; ++d) for (int o = 0; o < 4; ++o) caseHull(em, [=]() { auto g = cube(d).verts; std::vector<std::vector<int>> f; for (int i = 0; i < d; ++i) for (int s = 0; s < 2; ++s) { f.push_back({}); for (size_t k = 0; k < g.size(); ++k) if (g[k][size_t(i)] == s) f.back().push_back(int(k)); } return known(g, d, f); }, d, [=]() { return pick(cube(d).verts, order(1 << d, o)); }, a);
}
static void crosses(Emitter& em, int lo, int hi, const Args& a) {
   for (int d = lo; d <= hi; ++d) for (int o = 0; o < 4; ++o) caseHull(em, [=]() { auto g = cross(d).verts; std::vector<std::vector<int>> f; for (int m = 0; m < (1 << d); ++m) { f.push_back({}); for (int i = 0; i < d; ++i) f.back().push_back(2 * i + (m >> i & 1)); } return known(g, d, f); }, d, [=]() { return pick(cross(d).verts, order(2 * d, o)); }, a);
}
// conv(0, e_1, ..., e_d) and conv(0, e_1, ..., e_d, (1,...,1)), whose facets omit one e_i and one of the other two points
static void dimensionsV(Emitter& em, int lo, int hi, const Args& a) {
   for (int d = lo; d <= hi; ++d) for (int o = 0; o < 4; ++o) {
      auto simp = [d]() { return simplex(d).verts; }; // e_1..e_d, 0
      caseHull(em, [=]() { std::vector<std::vector<int>> f; for (int i = 0; i <= d; ++i) { f.push_back({}); for (int j = 0; j <= d; ++j) if (j != i) f.back().push_back(j); } return known(simp(), d, f); }, d, [=]() { return pick(simp(), order(d + 1, o)); }, a, o == 1);
      if (d < 2) continue;
      auto bip = [simp, d]() { auto m = simp(); m.push_back(Vec(size_t(d) + 1, 1)); return m; };
      caseHull(em, [=]() { std::vector<std::vector<int>> f; for (int i = 0; i < d; ++i) for (int k = 0; k < 2; ++k) { f.push_back({d + k}); for (int j = 0; j < d; ++j) if (j != i) f.back().push_back(j); } return known(bip(), d, f); }, d, [=]() { return pick(bip(), order(d + 2, o)); }, a, o == 2);
   }
}
// simplex, and simplex x segment, by their inequalities
static void dimensionsH(Emitter& em, int lo, int hi, const Args& a) {
   auto rows = [](int d, bool prism) { Mat m; int k = prism ? d - 1 : d; Vec s(size_t(d) + 1, 0); for (int i = 0; i < k; ++i) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = -1; m.push_back(r); s[size_t(i)] = 1; } s.back() = -1; m.push_back(s); if (prism) { Vec r(size_t(d) + 1, 0); r[size_t(k)] = -1; m.push_back(r); r[size_t(k)] = 1; r.back() = -1; m.push_back(r); } return m; };
   auto verts = [](int d, bool prism) { std::set<Vec> s; int k = prism ? d - 1 : d; for (int z = 0; z < (prism ? 2 : 1); ++z) for (int i = 0; i <= k; ++i) { Vec p(size_t(d) + 1, 0); if (i < k) p[size_t(i)] = 1; if (prism) p[size_t(k)] = z; p.back() = 1; s.insert(p); } return s; };
   for (int d = lo; d <= hi; ++d) for (int pr = 0; pr < (d > 1 ? 2 : 1); ++pr) for (int o = 0; o < 4; ++o) caseSystem(em, [=]() { return verts(d, pr); }, d, [=]() { auto m = rows(d, pr); return pick(m, order(int(m.size()), o)); }, a, o == 1);
}
// y >= 2 t x - t^2 for n values of t, y <= cap: vertices between neighbouring tangents, two on the cap
static void tangents(Emitter& em, const std::vector<int>& ns, const Args& a) {
   for (int n : ns) for (int o = 0; o < 4; ++o) {
      Z lo = -(n / 2), hi = lo + n - 1, cap = Z(n) * n * 2; // caps off beyond the last crossing
      caseSystem(em, [=]() { std::set<Vec> s; for (Z t = lo; t < hi; ++t) { Vec p{2 * t + 1, 2 * t * (t + 1), 2}; ref::primitive(p); s.insert(p); } for (Z t : {lo, hi}) { Vec p{cap + t * t, 2 * t * cap, 2 * t}; if (t < 0) for (Z& x : p) x = -x; ref::primitive(p); s.insert(p); } return s; }, 2,
         [=]() { Mat m; for (Z t = lo; t <= hi; ++t) m.push_back({2 * t, -1, -t * t}); m.push_back({0, 1, -cap}); return pick(m, order(int(m.size()), o)); }, a, o == 3 && n < 200);
   }
}
// [0,1]^d by its 2d rows
static void boxes(Emitter& em, int lo, int hi, const Args& a) {
   for (int d = lo; d <= hi; ++d) for (int o = 0; o < 4; ++o) caseSystem(em, [=]() { std::set<Vec> s; for (auto& p : cube(d).verts) s.insert(p); return s; }, d, [=]() { Mat m; for (int i = 0; i < d; ++i) for (int s = 0; s < 2; ++s) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = s ? 1 : -1; r.back() = s ? -1 : 0; m.push_back(r); } return pick(m, order(2 * d, o)); }, a);
}

// ------------------------------------------------------------------ large groups: facets in closed form, one row per class expected
typedef std::function<FacetRef()> RefMaker;
static void caseClasses(Emitter& em, const RefMaker& reference, int d, const std::vector<Aff>& maps, const Mat& rows, bool reduced, const Args& a) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      VInput v; v.d = d; v.verts = rows; v.reducedV = reduced; v.names = defaultNames(d); for (auto& m : maps) v.maps.push_back(text(m, split(v.names)));
      FacetRef fr = reference(); SymCase s; s.d = d; s.maps = maps;
      return judgeReducedFacets(fr, s, c.run({a, {{"in", v.text()}}}), v.names);
   });
}
static void caseClassesH(Emitter& em, const std::set<Vec>& rays, int d, const std::vector<Aff>& maps, const Mat& rows, bool reduced, const Args& a) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      HInput h; h.d = d; h.ineqs = rows; h.reduced = reduced; h.names = defaultNames(d); for (auto& m : maps) h.maps.push_back(text(m, split(h.names)));
      return judgeReducedVertices(rays, d, maps, c.run({a, {{"in", h.text()}}}));
   });
}
static Aff transposition(int d, int i) { std::vector<int> p(size_t(d), 0); for (int k = 0; k < d; ++k) p[size_t(k)] = k; std::swap(p[size_t(i)], p[size_t(i) + 1]); return permAff(p); }
static Aff shift(int d, int n) { std::vector<int> p(size_t(d), 0); for (int k = 0; k < d; ++k) p[size_t(k)] = k < n ? (k + 1) % n : k; return permAff(p); }
static Aff flip(int d, int i, Z t) { Aff a = shift(d, 1); a.m[size_t(i)][size_t(i)] = -1; a.m[size_t(i)][size_t(d)] = t; return a; }
static Mat unionOfOrbits(Mat seeds, const std::vector<Aff>& maps) { closure(seeds, maps, 1000000, applyV); return seeds; }
static FacetRef cubeRef(int d) { auto g = cube(d).verts; std::vector<std::vector<int>> f; for (int i = 0; i < d; ++i) for (int s = 0; s < 2; ++s) { f.push_back({}); for (size_t k = 0; k < g.size(); ++k) if (g[k][size_t(i)] == s) f.back().push_back(int(k)); } return known(g, d, f); }
static FacetRef crossRef(int d) { auto g = cross(d).verts; std::vector<std::vector<int>> f; for (int m = 0; m < (1 << d); ++m) { f.push_back({}); for (int i = 0; i < d; ++i) f.back().push_back(2 * i + (m >> i & 1)); } return known(g, d, f); }
static FacetRef permutahedronRef(int n) { // x(S) >= 1 + ... + |S| for every proper non-empty S
   auto g = permutahedron(n).verts; std::vector<std::vector<int>> f;
   for (int m = 1; m + 1 < (1 << n); ++m) { int k = __builtin_popcount(unsigned(m)); f.push_back({}); for (size_t i = 0; i < g.size(); ++i) { Z t = 0; for (int j = 0; j < n; ++j) if (m >> j & 1) t += g[i][size_t(j)]; if (t == k * (k + 1) / 2) f.back().push_back(int(i)); } }
   auto r = known(g, n, f); Vec e(size_t(n) + 1, 1); e.back() = -n * (n + 1) / 2; r.cf.equations = {e}; r.eqSpace = ref::rowSpace(r.cf.equations); return r;
}
static void classes(Emitter& em, int lo, int hi, const Args& a, int permLo, int permHi, int polyLo, int polyHi) {
   auto once = [](RefMaker f) { auto p = std::make_shared<FacetRef>(); return RefMaker([p, f]() { if (p->gens.empty()) *p = f(); return *p; }); };
   for (int d = lo; d <= hi; ++d) {
      auto cu = once([d]() { return cubeRef(d); }), cr = once([d]() { return crossRef(d); }); Mat c = cube(d).verts, x = cross(d).verts;
      std::vector<Aff> sym{shift(d, d), transposition(d, 0)}, alt; for (int i = 0; i + 1 < d; ++i) alt.push_back(transposition(d, i));
      for (auto& g : {sym, alt, std::vector<Aff>{shift(d, d)}, std::vector<Aff>{shift(d, d - 1)}, std::vector<Aff>{transposition(d, d - 2)}}) for (int k = 0; k < 4; ++k) {
         auto h = g, h0 = g; for (int i = 0; i < d; ++i) if (k == 1 ? i == 0 : k == 2 ? i % 2 : k == 3) { h.push_back(flip(d, i, 1)); h0.push_back(flip(d, i, 0)); }
         caseClasses(em, cu, d, h, c, false, a); caseClasses(em, cr, d, h0, x, false, a);
         // representatives: the orbit of the origin / of a unit vector is everything iff the group moves it everywhere; otherwise all rows are given
         Mat one{c.front()}, rep; for (auto& p : c) { auto o = unionOfOrbits(rep, h); if (rep.empty() || std::find(o.begin(), o.end(), p) == o.end()) rep.push_back(p); } caseClasses(em, cu, d, h, rep, true, a);
         rep.clear(); for (auto& p : x) { auto o = unionOfOrbits(rep, h0); if (rep.empty() || std::find(o.begin(), o.end(), p) == o.end()) rep.push_back(p); } caseClasses(em, cr, d, h0, rep, true, a);
         // the same by rows: vertices of the box and of the cross polytope
         Mat box; for (int i = 0; i < d; ++i) for (int s = 0; s < 2; ++s) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = s ? 1 : -1; r.back() = s ? -1 : 0; box.push_back(r); }
         Mat oct; for (int m = 0; m < (1 << d); ++m) { Vec r; for (int i = 0; i < d; ++i) r.push_back((m >> i & 1) ? 1 : -1); r.push_back(-1); oct.push_back(r); }
         std::set<Vec> cv(c.begin(), c.end()), xv(x.begin(), x.end());
         caseClassesH(em, cv, d, h, box, false, a); caseClassesH(em, xv, d, h0, oct, false, a);
         if (k == 3) { caseClassesH(em, cv, d, std::vector<Aff>(h.begin(), h.end()), g.size() > 1 && d > 2 ? Mat{box[0]} : box, true, a); caseClassesH(em, xv, d, h0, Mat{oct[0]}, true, a); }
      }
   }
   for (int n = permLo; n <= permHi; ++n) {
      auto pr = once([n]() { return permutahedronRef(n); }); Mat p = permutahedron(n).verts; Aff rev; for (int i = 0; i < n; ++i) { Vec r(size_t(n) + 1, 0); r[size_t(i)] = -1; r.back() = n + 1; rev.m.push_back(r); }
      std::vector<Aff> sym{shift(n, n), transposition(n, 0)}, both = sym; both.push_back(rev);
      for (auto& g : {sym, both}) for (int full = 0; full < 2; ++full) for (int o = 0; o < 2; ++o) caseClasses(em, pr, n, g, full ? pick(p, order(int(p.size()), o)) : Mat{p[o ? p.size() / 2 : 0]}, !full, a);
      if (n < 6) for (auto& g : {std::vector<Aff>{rev}, std::vector<Aff>{shift(n, n)}}) caseClasses(em, pr, n, g, p, false, a);
   }
   for (int n = polyLo; n <= polyHi; n += 2) for (int o = 0; o < 4; ++o) { // parabola and its axis
      Aff mirror; mirror.m = {{-1, 0, 0}, {0, 1, 0}}; Mat p = parabola(n), half(p.begin(), p.begin() + n / 2 + 1);
      auto pr = once([n]() { return known(parabola(n), 2, polygonEdges(n)); });
      caseClasses(em, pr, 2, {mirror}, pick(p, order(n, o)), false, a); caseClasses(em, pr, 2, {mirror}, pick(half, order(int(half.size()), o)), true, a);
   }
}

// cones over the cube [-1,1]^(d-1) (large classes of rays), whole or cut off at height one, at the origin or moved along the axis;
// the group acts on the first d-1 coordinates; and the strip |x_i| <= 1, x_d >= 0 with the single ray e_d
static std::vector<std::vector<Aff>> coneGroups(int d) {
   std::vector<std::vector<Aff>> gs; int n = d - 1; std::vector<Aff> perms; if (n > 1) { perms.push_back(shift(d, n)); if (n > 2) perms.push_back(transposition(d, 0)); }
   std::vector<Aff> one{flip(d, 0, 0)}, half, flips; for (int i = 0; i < n; ++i) { flips.push_back(flip(d, i, 0)); if (i % 2) half.push_back(flip(d, i, 0)); }
   gs.push_back(one); if (n > 1) { gs.push_back(half); gs.push_back(flips); gs.push_back(perms); auto g = perms; g.push_back(flip(d, 0, 0)); gs.push_back(g); }
   return gs;
}
static Mat representatives(const Mat& all, const std::vector<Aff>& maps, Vec (*f)(const Aff&, const Vec&)) {
   Mat r; std::set<Vec> seen; for (auto p : all) { ref::primitive(p); if (seen.count(p)) continue; r.push_back(p); Mat o{p}; closure(o, maps, 1000000, f); seen.insert(o.begin(), o.end()); } return r;
}
void conesByRows(int lo, int hi, const std::function<void(const std::set<Vec>&, int, const std::vector<Aff>&, const Mat&, bool)>& sink) {
   for (int d = lo; d <= hi; ++d) for (int z = 0; z < 2; ++z) for (int kind = 0; kind < 3; ++kind) {
      Mat rows; std::set<Vec> ext; auto mv = [&](Vec r) { r.back() -= z * r[size_t(d) - 1]; return r; }; auto mg = [&](Vec g) { g[size_t(d) - 1] += z * g.back(); return g; };
      if (kind == 2 ? z : 0) continue;
      for (int i = 0; i + 1 < d; ++i) for (int sgn = -1; sgn <= 1; sgn += 2) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = sgn; (kind == 2 ? r.back() : r[size_t(d) - 1]) = -1; rows.push_back(mv(r)); }
      if (kind) { Vec r(size_t(d) + 1, 0); r[size_t(d) - 1] = -1; r.back() = kind == 1 ? 1 : 0; rows.push_back(mv(r)); }
      Vec apex(size_t(d) + 1, 0); apex.back() = 1; if (!kind) ext.insert(mg(apex)); if (kind == 2) { Vec e(size_t(d) + 1, 0); e[size_t(d) - 1] = 1; ext.insert(e); }
      for (int m = 0; m < (1 << (d - 1)); ++m) { Vec g; for (int i = 0; i + 1 < d; ++i) g.push_back((m >> i & 1) ? 1 : -1); g.push_back(kind == 2 ? 0 : 1); g.push_back(kind == 2); if (kind == 2) { ext.insert(g); continue; } ext.insert(g); if (kind == 1) { g.back() = 1; ext.insert(mg(g)); } }
      for (auto& g : coneGroups(d)) { sink(ext, d, g, rows, false); sink(ext, d, g, representatives(rows, g, applyF), true); }
   }
}
// cones over the cross polytope: 0 and the rays +-e_i + e_d, or cut off at height one; facets: one per sign vector (and the cut)
void conesByRays(int lo, int hi, const std::function<void(const std::function<FacetRef()>&, const SymCase&, int)>& sink) {
   for (int d = lo; d <= hi; ++d) for (int cut = 0; cut < 2; ++cut) for (auto& g : coneGroups(d)) {
      SymCase s; s.d = d; s.maps = g; for (int i = 0; i + 1 < d; ++i) for (int sgn = -1; sgn <= 1; sgn += 2) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = sgn; r[size_t(d) - 1] = 1; s.R.push_back(r); r.back() = 1; if (cut) s.V.push_back(r); }
      if (!cut) { Vec apex(size_t(d) + 1, 0); apex.back() = 1; s.V.push_back(apex); }
      s.seedV = representatives(s.V, g, applyV); s.seedR = representatives(s.R, g, applyV);
      auto ref = [d, cut, s]() { Mat gens = s.V; gens.insert(gens.end(), s.R.begin(), s.R.end()); int nv = int(s.V.size()), n = d - 1; std::vector<std::vector<int>> f;
         for (int m = 0; m < (1 << n); ++m) { std::vector<int> k; if (!cut) k.push_back(0); for (int i = 0; i < n; ++i) { int j = 2 * i + (m >> i & 1); if (cut) k.push_back(j); k.push_back(nv + j); } f.push_back(k); }
         if (cut) { std::vector<int> k; for (int j = 0; j < nv; ++j) k.push_back(j); f.push_back(k); }
         return known(gens, d, f); };
      for (int reduced = 0; reduced < 4; ++reduced) sink(ref, s, reduced);
   }
}
static void symmetricCones(Emitter& em, int lo, int hi, const Args& a) {
   conesByRows(lo, hi, [&](const std::set<Vec>& ext, int d, const std::vector<Aff>& g, const Mat& rows, bool reduced) { caseClassesH(em, ext, d, g, rows, reduced, a); });
   conesByRays(lo, hi, [&](const std::function<FacetRef()>& ref, const SymCase& s, int reduced) {
      if (!em.want()) return;
      em.exec([=](Ctx& c) -> std::string { VInput v = toInput(s); if (reduced & 1) { v.verts = s.seedV; v.reducedV = true; } if (reduced & 2) { v.rays = s.seedR; v.reducedR = true; } return judgeReducedFacets(ref(), s, c.run({a, {{"in", v.text()}}}), v.names); });
   });
}

// one class of 2^d facets / vertices: sizes of a single class up to and beyond 2^13
static void wideClasses(Emitter& em, int lo, int hi, const Args& a) {
   for (int d = lo; d <= hi; ++d) {
      std::vector<Aff> h{shift(d, d), transposition(d, 0), flip(d, 0, 0)}; Vec e(size_t(d) + 1, 0); e[0] = 1; e.back() = 1; Mat all;
      for (int i = 0; i < d; ++i) for (int s = -1; s <= 1; s += 2) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = s; r.back() = 1; all.push_back(r); }
      for (int full = 0; full < 2; ++full) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string { // points +-e_i: one facet, all coefficients +-1
         VInput v; v.d = d; v.verts = full ? all : Mat{e}; v.reducedV = !full; v.names = defaultNames(d); for (auto& m : h) v.maps.push_back(text(m, split(v.names)));
         Result r = c.run({a, {{"in", v.text()}}}); if (!r.ok()) return "program ended with " + r.status();
         auto o = parseFacetOut(r.out, d, v.names); if (!o.err.empty()) return o.err; if (!o.reduced) return "output not marked as reduced although maps are given";
         if (o.ineqs.size() != 1 || !o.eqs.empty()) return std::to_string(o.ineqs.size()) + " inequalities and " + std::to_string(o.eqs.size()) + " equations, there is one class";
         for (int i = 0; i < d; ++i) if (o.ineqs[0][size_t(i)] != 1 && o.ineqs[0][size_t(i)] != -1) return "the inequality is not a facet";
         return o.ineqs[0].back() == -1 ? "" : "the inequality is not a facet"; }); }
      Mat box; for (auto& p : all) { Vec r = p; r.back() = -1; box.push_back(r); }
      for (int full = 0; full < 2; ++full) { if (!em.want()) continue; em.exec([=](Ctx& c) -> std::string { // rows +-x_i <= 1: one vertex, all coordinates +-1
         HInput v; v.d = d; v.ineqs = full ? box : Mat{box[0]}; v.reduced = !full; v.names = defaultNames(d); for (auto& m : h) v.maps.push_back(text(m, split(v.names)));
         Result r = c.run({a, {{"in", v.text()}}}); if (!r.ok()) return "program ended with " + r.status();
         auto o = parseVertexOut(r.out, d); if (!o.err.empty()) return o.err; if (!o.reduced) return "output not marked as reduced although maps are given";
         if (o.gens.size() != 1) return std::to_string(o.gens.size()) + " rows, there is one class";
         for (int i = 0; i < d; ++i) if (o.gens[0][size_t(i)] != 1 && o.gens[0][size_t(i)] != -1) return "the row is not a vertex";
         return o.gens[0].back() == 1 ? "" : "the row is not a vertex"; }); }
   }
}

static std::vector<Family> sizeFamilies() {
   std::vector<Family> f;
   auto both = [&](const std::string& name, const std::string& what, bool thorough, std::function<void(Emitter&, const Args&)> g) {
      f.push_back({name + "-dd", "-m dd: " + what, thorough, [g](Emitter& em) { g(em, dd); }});
      f.push_back({name + "-ad", "adjacency decomposition: " + what, thorough, [g](Emitter& em) { g(em, ad); }});
   };
   both("polygons", "convex polygons of n points, n = 3..140 and around multiples of 32 up to 417, in 4 row orders", false, [](Emitter& em, const Args& a) { polygons(em, sizes(3, 140, 417), a); });
   both("hull-among-redundant", "7 small polytopes among repeated or interior points, n = 12..100 and around the word boundaries up to 6433 points, the vertices last, first and spread", false, [](Emitter& em, const Args& a) { hullAmongRedundant(em, sizes(12, 70, 6433), a); });
   both("system-among-redundant", "7 small systems (one unbounded) among repeated or redundant rows, n = 12..100 and around the word boundaries up to 1633 rows, the essential rows last, first and spread", false, [](Emitter& em, const Args& a) { systemAmongRedundant(em, sizes(12, 70, 1633), a); });
   both("prisms", "prisms and bipyramids over n-gons, n = 3..66 and around multiples of 32 up to 129, in 4 row orders", false, [](Emitter& em, const Args& a) { prisms(em, sizes(3, 66, 129), a); });
   both("cyclic", "cyclic polytopes: dimension 3 with up to 70, 4 with up to 35, 5 with up to 13, 6 with up to 11 vertices, in 4 row orders", false, [](Emitter& em, const Args& a) { cyclics(em, 3, sizes(4, 70, 70), a); cyclics(em, 4, sizes(5, 35, 35), a); cyclics(em, 5, sizes(6, 13, 13), a); cyclics(em, 6, sizes(7, 11, 11), a); });
   both("cubes", "cubes of dimension 2..7 by their vertices, cross polytopes of dimension 2..7, in 4 row orders", false, [](Emitter& em, const Args& a) { cubes(em, 2, 7, a); crosses(em, 2, 7, a); });
   both("dimensions-points", "simplices and bipyramids over simplices of every dimension up to 40 (points), in 4 row orders, partly named", false, [](Emitter& em, const Args& a) { dimensionsV(em, 1, 40, a); });
   both("dimensions-rows", "simplices and prisms over simplices of every dimension up to 40 (inequalities), in 4 row orders, partly named", false, [](Emitter& em, const Args& a) { dimensionsH(em, 1, 40, a); });
   both("tangents", "n tangents of a parabola and a cap, n = 3..140 and around multiples of 32 up to 417, in 4 row orders", false, [](Emitter& em, const Args& a) { tangents(em, sizes(3, 140, 417), a); });
   both("boxes", "boxes of dimension 1..8 by their rows, in 4 row orders", false, [](Emitter& em, const Args& a) { boxes(em, 1, 8, a); });
   both("classes", "large symmetry groups: cubes and cross polytopes of dimension 2..6 under 20 groups each (up to 46080 elements), permutahedra of dimension 3..5 and symmetric polygons of up to 131 points, listed in full and by representatives, and the boxes and cross polytopes by their rows", false, [](Emitter& em, const Args& a) { classes(em, 2, 6, a, 3, 5, 3, 131); });
   both("many-results", "cross polytopes of dimension 8..14 by their vertices (up to 16384 facets), boxes of dimension 9..14 by their rows (up to 16384 vertices), polygons of 1023..1026 points, in 4 row orders", false, [](Emitter& em, const Args& a) { crosses(em, 8, 14, a); boxes(em, 9, 14, a); polygons(em, {1023, 1024, 1025, 1026}, a); });
   both("cyclic-larger", "cyclic polytopes: dimension 4 with 36..48, 5 with 14..20, 6 with 12..17, 7 with 9..14, 8 with 10..13 vertices (up to 1080 facets), in 4 row orders", false, [](Emitter& em, const Args& a) { cyclics(em, 4, sizes(36, 48, 48), a); cyclics(em, 5, sizes(14, 20, 20), a); cyclics(em, 6, sizes(12, 17, 17), a); cyclics(em, 7, sizes(9, 14, 14), a); cyclics(em, 8, sizes(10, 13, 13), a); });
   both("many-more-results", "cross polytopes and boxes of dimension 15 (up to 32768 facets or vertices), polygons of 2047..2050 points, in 4 row orders", false, [](Emitter& em, const Args& a) { crosses(em, 15, 15, a); boxes(em, 15, 15, a); polygons(em, {2047, 2048, 2049, 2050}, a); });
   both("cones", "cones over cubes (up to 512 rays) and cross polytopes of dimension 2..9, whole, moved or cut off, and unbounded strips, under 5 groups each, listed in full and by representatives (vertices and rays separately)", false, [](Emitter& em, const Args& a) { symmetricCones(em, 2, a == dd ? 8 : 10, a); });
   f.push_back({"classes-wide-ad", "adjacency decomposition: cross polytopes and boxes of dimension 2..15 under their full group, one class of up to 32768 facets / vertices, listed in full and by one representative", false, [](Emitter& em) { wideClasses(em, 2, 15, ad); }});
   f.push_back({"classes-wide-dd", "-m dd: the same of dimension 2..9 (one class of up to 512 facets / vertices)", false, [](Emitter& em) { wideClasses(em, 2, 9, dd); }});
   f.push_back({"classes-wider-ad", "adjacency decomposition: the same of dimension 16 and 17 (one class of up to 131072 facets / vertices)", false, [](Emitter& em) { wideClasses(em, 16, 17, ad); }});
   f.push_back({"classes-wider-dd", "-m dd: the same of dimension 10 and 11", false, [](Emitter& em) { wideClasses(em, 10, 11, dd); }});
   both("classes-large", "dimension 7 and 8 (groups of up to 10321920 elements), permutahedra of 720 (adjacency decomposition: also 5040) points, symmetric polygons of up to 801 points", false, [](Emitter& em, const Args& a) { classes(em, 7, 8, a, 6, a == dd ? 6 : 7, 133, 801); });
   both("polygons-large", "convex polygons of every n up to 400 and around the word boundaries up to 1633 points, in 4 row orders", false, [](Emitter& em, const Args& a) { polygons(em, sizes(141, 400, 1633), a); });
   both("prisms-large", "prisms and bipyramids over n-gons up to n = 200", false, [](Emitter& em, const Args& a) { prisms(em, sizes(67, 200, 200), a); });
   both("cyclic-large", "cyclic polytopes: dimension 3 up to 140, 4 up to 66 vertices", false, [](Emitter& em, const Args& a) { cyclics(em, 3, sizes(71, 140, 140), a); cyclics(em, 4, sizes(49, 66, 66), a); });
   both("cubes-large", "cubes and cross polytopes of dimension 8", false, [](Emitter& em, const Args& a) { cubes(em, 8, 8, a); crosses(em, 8, 8, a); });
   both("dimensions-large", "simplices, bipyramids and prisms of every dimension up to 70", false, [](Emitter& em, const Args& a) { dimensionsV(em, 41, 70, a); dimensionsH(em, 41, 70, a); });
   both("polygons-largest", "convex polygons of 1634..1700 and 2111..2113 points, in 4 row orders", true, [](Emitter& em, const Args& a) { std::vector<int> n; for (int i = 1634; i <= 1700; ++i) n.push_back(i); for (int i : {2111, 2112, 2113}) n.push_back(i); polygons(em, n, a); });
   both("prisms-largest", "prisms and bipyramids over n-gons, n = 201..420", true, [](Emitter& em, const Args& a) { std::vector<int> n; for (int i = 201; i <= 420; ++i) n.push_back(i); prisms(em, n, a); });
   both("cyclic-largest", "cyclic polytopes: dimension 3 with 141..260, 4 with 67..90, 5 with 21..30, 6 with 18..22, 7 with 15..18, 8 with 14..16, 9 with 11..14 vertices, in 4 row orders", true, [](Emitter& em, const Args& a) { auto r = [](int l, int h) { std::vector<int> n; for (int i = l; i <= h; ++i) n.push_back(i); return n; }; cyclics(em, 3, r(141, 260), a); cyclics(em, 4, r(67, 90), a); cyclics(em, 5, r(21, 30), a); cyclics(em, 6, r(18, 22), a); cyclics(em, 7, r(15, 18), a); cyclics(em, 8, r(14, 16), a); cyclics(em, 9, r(11, 14), a); });
   both("dimensions-largest", "simplices, bipyramids and prisms of every dimension from 71 to 130", true, [](Emitter& em, const Args& a) { dimensionsV(em, 71, 130, a); dimensionsH(em, 71, 130, a); });
   both("cubes-largest", "cubes of dimension 9 and 10 by their vertices, cross polytopes by their vertices and boxes by their rows of dimension 16 (65536 results)", true, [](Emitter& em, const Args& a) { cubes(em, 9, 10, a); crosses(em, 16, 16, a); boxes(em, 16, 16, a); });
   both("classes-largest", "cubes and cross polytopes of dimension 9 and 10, symmetric polygons of up to 1601 points", true, [](Emitter& em, const Args& a) { classes(em, 9, 10, a, 1, 0, 803, 1601); });
   both("cones-largest", "the cones of dimension 9..12", true, [](Emitter& em, const Args& a) { symmetricCones(em, a == dd ? 9 : 11, a == dd ? 9 : 12, a); });
   both("hull-among-redundant-largest", "7 small polytopes among redundant points, every n = 71..420, and 12865..12867 points", true, [](Emitter& em, const Args& a) { std::vector<int> n; for (int i = 71; i <= 420; ++i) n.push_back(i); for (int i : {12865, 12866, 12867}) n.push_back(i); hullAmongRedundant(em, n, a); });
   both("system-among-redundant-largest", "7 small systems among redundant rows, every n = 71..420", true, [](Emitter& em, const Args& a) { std::vector<int> n; for (int i = 71; i <= 420; ++i) n.push_back(i); systemAmongRedundant(em, n, a); });
   return f;
}
void addSizeProps(std::vector<Property>& out) { out.push_back({"many-rows", sizeFamilies()}); }
} // namespace mc
