#include "spaces.hpp"
#include "props.hpp"
namespace mc {

static std::vector<std::string> adArgs{"-t", "1", "in"}, ddArgs{"-m", "dd", "in"};

void caseFacets(Emitter& em, const VInput& v, const std::vector<std::string>& args) {
   if (!em.want()) return;
   VInput vi = v;
   em.exec([vi, args](Ctx& c) {
      FacetRef fr(vi.gens(), vi.d);
      Result r = c.run({args, {{"in", vi.text()}}});
      c.tag("facets=" + std::to_string(fr.facets.size() > 12 ? 12 : fr.facets.size()));
      c.tag("codim=" + std::to_string(fr.cf.equations.size()));
      return judgeFacets(fr, r, vi.d, vi.names);
   });
}
// one reference computation, the input in several row orders
static std::vector<std::vector<int>> rowOrders(int n) {
   std::vector<std::vector<int>> r; std::vector<int> a(n);
   for (int i = 0; i < n; ++i) a[i] = i;
   r.push_back(a);
   for (int s : {2, 3, 5, 7}) { std::vector<int> b; std::vector<bool> u(n, false); int k = 0; while (int(b.size()) < n) { while (u[k]) k = (k + 1) % n; u[k] = true; b.push_back(k); k = (k + s) % n; } r.push_back(b); }
   std::vector<int> rev(a.rbegin(), a.rend()); r.push_back(rev);
   return r;
}
static void caseFacetsOrders(Emitter& em, const VInput& v, const std::vector<std::string>& args) {
   if (!em.want()) return;
   VInput vi = v;
   em.exec([vi, args](Ctx& c) -> std::string {
      FacetRef fr(vi.gens(), vi.d);
      c.tag("facets=" + std::to_string(fr.facets.size() > 40 ? 40 : fr.facets.size()));
      for (auto& o : rowOrders(int(vi.verts.size()))) {
         VInput w = vi; w.verts = pick(vi.verts, o);
         auto e = judgeFacets(fr, c.run({args, {{"in", w.text()}}}), vi.d, ""); if (!e.empty()) return e;
      }
      return "";
   });
}
// unions of orbits of points under a permutation group of the coordinates
static void orbitUnions(int d, int lo, int hi, const std::vector<std::vector<int>>& perms, int nmin, int nmax, const VSink& sink) {
   auto pts = gridPoints(d, lo, hi);
   std::vector<Mat> orbits; std::set<Vec> seen;
   for (auto& p : pts) if (!seen.count(p)) { Mat o{p}; seen.insert(p); for (size_t i = 0; i < o.size(); ++i) for (auto& g : perms) { Vec q = o[i]; for (int k = 0; k < d; ++k) q[k] = o[i][g[k]]; if (seen.insert(q).second) o.push_back(q); } orbits.push_back(o); }
   for (unsigned long m = 1; m < (1ul << orbits.size()); ++m) { VInput v; v.d = d; for (size_t i = 0; i < orbits.size(); ++i) if (m >> i & 1) v.verts.insert(v.verts.end(), orbits[i].begin(), orbits[i].end()); if (int(v.verts.size()) >= nmin && int(v.verts.size()) <= nmax) { std::sort(v.verts.begin(), v.verts.end()); sink(v); } }
}
// runs only if the polyhedron has a vertex
void caseVertices(Emitter& em, const HInput& h, const std::vector<std::string>& args) {
   if (!em.want()) return;
   HInput hi = h;
   em.exec([hi, args](Ctx& c) -> std::string {
      auto er = ref::extremeRays(hi.cone(), hi.d + 1);
      bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true;
      if (!er.pointed || !hasVertex) { c.tag("skipped: polyhedron without vertex"); return ""; }
      Result r = c.run({args, {{"in", hi.text()}}});
      c.tag("extreme=" + std::to_string(er.rays.size() > 12 ? 12 : er.rays.size()));
      return judgeVertices(er.rays, r, hi.d);
   });
}

// sections at height one: invariant sets of {-1,0,1}^(d-1)
static void sections(int d, const VSink& sink) {
   std::vector<int> id; for (int i = 0; i < d - 1; ++i) id.push_back(i);
   std::vector<std::vector<int>> perms; for (int i = 0; i + 2 < d; ++i) { auto p = id; std::swap(p[size_t(i)], p[size_t(i) + 1]); perms.push_back(p); }
   if (d < 5) { orbitUnions(d - 1, -1, 1, perms, 2, d == 4 ? 14 : 9, sink); return; }
   // d = 5: one class per number of zeros and sign pattern up to sign changes
   auto g = gridPoints(d - 1, -1, 1);
   for (int m = 1; m < 32; ++m) { VInput v; v.d = d - 1; for (auto& p : g) { int k = 0; for (int i = 0; i + 1 < d; ++i) k += p[size_t(i)] != 0; if (m >> k & 1) v.verts.push_back(p); } if (v.verts.size() >= 2 && v.verts.size() <= 24) sink(v); }
}
static void crossSections(const VSink& sink) {
   for (int d = 2; d <= 5; ++d) sections(d, [&](const VInput& b) {
      Mat rays; for (auto p : b.verts) { p.push_back(0); rays.push_back(p); } // the section's 1 becomes the last coordinate
      for (int shifted = 0; shifted < 2; ++shifted) for (int cut = 0; cut < 2; ++cut) {
         VInput v; v.d = d; v.rays = rays; Vec t; for (int i = 0; i < d; ++i) t.push_back(shifted ? i + 1 : 0);
         if (!cut) { v.verts = {t}; v.verts[0].push_back(1); } else for (auto p : rays) { for (int i = 0; i < d; ++i) p[size_t(i)] += t[size_t(i)]; p.back() = 1; v.verts.push_back(p); }
         if (d == 5 && shifted && cut) continue;
         sink(v);
      } });
}
static std::vector<Family> facetFamilies(std::vector<std::string> a) {
   auto S = [a](std::function<void(VSink)> g) { return [g, a](Emitter& em) { g([&](const VInput& v) { caseFacets(em, v, a); }); }; };
   std::vector<Family> f;
   f.push_back({"line", "d=1: every non-empty set of up to 4 points of {-3/2,-1,-2/3,0,1/3,1/2,1,2}, unnamed and named", false, S([](VSink s) {
      auto p = gridPoints(1, {{-3,2},{-1,1},{-2,3},{0,1},{1,3},{1,2},{1,1},{2,1}}); vSubsets(1, p, 1, 4, s); vSubsets(1, p, 1, 4, s, true); })});
   f.push_back({"line-rays", "d=1: up to 2 vertices with every set of rays", false, S([](VSink s) { vRays(1, gridPoints(1, -2, 2), 1, 2, directions(1, 1), 1, 2, s); })});
   f.push_back({"grid3x3", "d=2: every non-empty subset of {-1,0,1}^2, unnamed and named", false, S([](VSink s) { auto p = gridPoints(2, -1, 1); vSubsets(2, p, 1, 9, s); vSubsets(2, p, 1, 9, s, true); })});
   f.push_back({"grid4x4", "d=2: every subset of up to 5 points of {0..3}^2", false, S([](VSink s) { vSubsets(2, gridPoints(2, 0, 3), 1, 5, s); })});
   f.push_back({"fractions", "d=2: every subset of up to 4 points with coordinates in {-2/3,0,1/3,1/2,1}", false, S([](VSink s) { vSubsets(2, gridPoints(2, {{-2,3},{0,1},{1,3},{1,2},{1,1}}), 1, 4, s); })});
   f.push_back({"plane-rays", "d=2: up to 3 vertices of {-1,0,1}^2 with up to 2 rays out of all 16 primitive directions with entries up to 2; up to 2 vertices with 3 rays out of 8", false, S([](VSink s) { vRays(2, gridPoints(2, -1, 1), 1, 3, directions(2, 2), 1, 2, s); vRays(2, gridPoints(2, -1, 1), 1, 2, directions(2, 1), 3, 4, s); })});
   f.push_back({"cube3", "d=3: every non-empty subset of {0,1}^3, unnamed and named", false, S([](VSink s) { vSubsets(3, gridPoints(3, 0, 1), 1, 8, s); vSubsets(3, gridPoints(3, 0, 1), 1, 8, s, true); })});
   f.push_back({"grid3^3", "d=3: every subset of up to 4 points of {-1,0,1}^3", false, S([](VSink s) { vSubsets(3, gridPoints(3, -1, 1), 1, 4, s); })});
   f.push_back({"grid3^3-5", "d=3: every subset of 5 points of {-1,0,1}^3", true, S([](VSink s) { vSubsets(3, gridPoints(3, -1, 1), 5, 5, s); })});
   f.push_back({"frac3", "d=3: every subset of 3..4 points with coordinates in {0,1/2,-1/3}", false, S([](VSink s) { vSubsets(3, gridPoints(3, {{0,1},{1,2},{-1,3}}), 3, 4, s); })});
   f.push_back({"space-rays", "d=3: up to 2 vertices of {0,1}^3 with up to 2 rays out of the 26 directions with entries in {-1,0,1}", false, S([](VSink s) { vRays(3, gridPoints(3, 0, 1), 1, 2, directions(3, 1), 1, 2, s); })});
   f.push_back({"space-rays-3", "d=3: 1..2 vertices of {0,1}^3 with 3 rays out of the 26 directions", true, S([](VSink s) { vRays(3, gridPoints(3, 0, 1), 1, 2, directions(3, 1), 3, 3, s); })});
   f.push_back({"triangle-rays", "d=3: triangles of {0,1}^3 with up to 2 of the 26 directions", true, S([](VSink s) { vRays(3, gridPoints(3, 0, 1), 3, 3, directions(3, 1), 1, 2, s); })});
   f.push_back({"grid-rays", "d=2: every subset of 5..9 points of {-1,0,1}^2 with each of 16 directions as a ray, all 9 points with every pair of them", false, S([](VSink s) {
      vRays(2, gridPoints(2, -1, 1), 5, 8, directions(2, 2), 1, 1, s); vRays(2, gridPoints(2, -1, 1), 9, 9, directions(2, 2), 1, 3, s); })});
   f.push_back({"cube-rays", "d=3: every subset of 5..8 points of {0,1}^3 with each of the 26 directions as a ray, of 7..8 points with every pair", false, S([](VSink s) {
      vRays(3, gridPoints(3, 0, 1), 5, 8, directions(3, 1), 1, 1, s); vRays(3, gridPoints(3, 0, 1), 7, 8, directions(3, 1), 2, 2, s); })});
   f.push_back({"cube-rays-more", "d=3: every subset of 4..6 points of {0,1}^3 with every pair of the 26 directions", true, S([](VSink s) { vRays(3, gridPoints(3, 0, 1), 4, 6, directions(3, 1), 2, 2, s); })});
   f.push_back({"cones", "d=2..5: cones over every union of orbits of {-1,0,1}^(d-1) under the permutations (d=5: and sign changes), placed at height one, with apex at the origin or at (1,...,d), whole or cut off at height one", false, S([](VSink s) { crossSections(s); })});
   f.push_back({"cube4", "d=4: every subset of 1..7 points of {0,1}^4", false, S([](VSink s) { vSubsets(4, gridPoints(4, 0, 1), 1, 7, s); })});
   f.push_back({"cube4-all", "d=4: every subset of 8..16 points of {0,1}^4", true, S([](VSink s) { vSubsets(4, gridPoints(4, 0, 1), 8, 16, s); })});
   f.push_back({"cube5", "d=5: every subset of 6 points of {0,1}^5 containing the origin", true, S([](VSink s) { auto p = gridPoints(5, 0, 1); subsets(31, 5, 5, [&](const std::vector<int>& c) { VInput v; v.d = 5; v.verts = {p[0]}; for (int i : c) v.verts.push_back(p[i + 1]); s(v); }); })});
   f.push_back({"classic", "simplices, cubes, cross polytopes d<=5, cyclic, Birkhoff, permutahedra, linear ordering and cut polytopes, with every interior/duplicate extension by one integral midpoint", false, S([](VSink s) {
      std::vector<VInput> l;
      for (int d = 1; d <= 5; ++d) { l.push_back(simplex(d)); l.push_back(cross(d)); if (d <= 4) l.push_back(cube(d)); }
      for (int d = 2; d <= 4; ++d) for (int n = d + 1; n <= 9; ++n) { l.push_back(cyclic(d, n)); l.push_back(cyclic(d, n, -n / 2)); }
      l.push_back(birkhoff(2)); l.push_back(birkhoff(3)); l.push_back(permutahedron(3)); l.push_back(permutahedron(4)); l.push_back(linearOrdering(3)); l.push_back(linearOrdering(4)); l.push_back(cutPolytope(4));
      for (auto& v : l) {
         s(v); VInput n = v; n.names = defaultNames(v.d); s(n);
         for (size_t i = 0; i < v.verts.size() && i < 12; ++i) for (size_t j = i; j < v.verts.size() && j < 12; ++j) { VInput w = v; Vec m; for (int k = 0; k <= v.d; ++k) m.push_back(v.verts[i][k] + v.verts[j][k]); ref::primitive(m); w.verts.push_back(m); s(w); }
      } })});
   auto O = [a](std::function<void(VSink)> g) { return [g, a](Emitter& em) { g([&](const VInput& v) { caseFacetsOrders(em, v, a); }); }; };
   f.push_back({"orbits5", "d=5: every subset of 6..13 points of {0,1}^5 that is invariant under the cyclic shift of four coordinates, each in 6 row orders", false, O([](VSink s) { orbitUnions(5, 0, 1, {{1,2,3,0,4}}, 6, 13, s); })});
   f.push_back({"orbits5-large", "d=5: every subset of 14..22 points of {0,1}^5 invariant under the cyclic shift of four coordinates, and of 6..22 points invariant under S3 x S2, each in 6 row orders", true, O([](VSink s) { orbitUnions(5, 0, 1, {{1,2,3,0,4}}, 14, 22, s); orbitUnions(5, 0, 1, {{1,2,0,3,4},{1,0,2,3,4},{0,1,2,4,3}}, 6, 22, s); })});
   f.push_back({"orbits4", "d=4: every subset of 8..14 points of {0,1,2}^4 with coordinate sum in 3..4 or vertices of the cube, invariant under all permutations of three coordinates, each in 6 row orders", true, O([](VSink s) { orbitUnions(4, 0, 2, {{1,2,0,3},{1,0,2,3}}, 8, 11, [&](const VInput& v) { bool ok = true; for (auto& p : v.verts) { int t = 0; for (int k = 0; k < 4; ++k) t += int(p[k]); if (t < 3 || t > 5) ok = false; } if (ok) s(v); }); })});
   auto a64 = a; a64.insert(a64.begin(), {"-i", "64"});
   auto S64 = [a64](std::function<void(VSink)> g) { return [g, a64](Emitter& em) { g([&](const VInput& v) { caseFacets(em, v, a64); }); }; };
   f.push_back({"scaled", "-i 64, d=2,3: every 3- or 4-subset of a small grid stretched by large or coprime factors and translated (checks arithmetic normalisation, results stay far below overflow)", false, S64([](VSink s) {
      for (int k : {7, 60, 999}) for (int t : {-5, 0, 1000}) {
         auto p = gridPoints(2, 0, 2); subsets(9, 3, 4, [&](const std::vector<int>& c) { VInput v; v.d = 2; v.verts = pick(p, c); for (auto& x : v.verts) { x[0] = x[0] * k + t; x[1] = x[1] * (k + 1) - t; } s(v); });
         auto q = gridPoints(3, 0, 1); if (k < 100) subsets(8, 4, 5, [&](const std::vector<int>& c) { VInput v; v.d = 3; v.verts = pick(q, c); for (auto& x : v.verts) { x[0] = x[0] * k + t / 10; x[1] = x[1] * (k + 1) - t / 10; x[2] = x[2] * 3 + 1; } s(v); });
      } })});
   return f;
}

static HInput box(int d, int lo, int hi) { HInput h; h.d = d; for (int i = 0; i < d; ++i) { Vec a(d + 1, 0), b(d + 1, 0); a[i] = 1; a[d] = -hi; b[i] = -1; b[d] = lo; h.ineqs.push_back(a); h.ineqs.push_back(b); } return h; }
static Mat planes(int d, int k, const std::vector<int>& rhs) { Mat m; for (auto n : directions(d, k)) for (int b : rhs) { Vec r = n; r[d] = -b; m.push_back(r); } return m; }
static void hSubsets(int d, const Mat& rows, int kmin, int kmax, const Mat& base, const HSink& s, bool named = false) {
   subsets(int(rows.size()), kmin, kmax, [&](const std::vector<int>& c) { HInput h; h.d = d; h.ineqs = base; for (int i : c) h.ineqs.push_back(rows[i]); if (named) h.names = defaultNames(d); if (!h.ineqs.empty()) s(h); });
}

static std::vector<Family> vertexFamilies(std::vector<std::string> a) {
   auto S = [a](std::function<void(HSink)> g) { return [g, a](Emitter& em) { g([&](const HInput& v) { caseVertices(em, v, a); }); }; };
   std::vector<Family> f;
   f.push_back({"line", "d=1: every set of 1..4 rows a x <= b with a in {-2,-1,1,2} (as given, not normalised), b in {-2..2}, that has a vertex", false, S([](HSink s) {
      Mat rows; for (int a : {-2, -1, 1, 2}) for (int b = -2; b <= 2; ++b) rows.push_back({a, -b}); hSubsets(1, rows, 1, 4, {}, s); hSubsets(1, rows, 1, 3, {}, s, true); })});
   f.push_back({"plane", "d=2: every set of 2..4 rows out of 8 directions x rhs {0,1,2} with a vertex", false, S([](HSink s) { hSubsets(2, planes(2, 1, {0, 1, 2}), 2, 4, {}, s); })});
   f.push_back({"plane-cuts", "d=2: the square [-1,2]^2 with every set of up to 2 cuts out of 16 directions x rhs {-1..3}, named", false, S([](HSink s) { hSubsets(2, planes(2, 2, {-1, 0, 1, 2, 3}), 0, 2, box(2, -1, 2).ineqs, s, true); })});
   f.push_back({"plane-eq", "d=2: [0,2]^2, one or two equations, up to one cut", false, S([](HSink s) {
      auto eq = planes(2, 2, {0, 1, 2}); auto cut = planes(2, 1, {0, 1});
      for (size_t i = 0; i < eq.size(); ++i) for (size_t j = i; j < eq.size(); ++j) for (size_t k = 0; k <= cut.size(); ++k) { if (j != i && k != 0) continue; HInput h = box(2, 0, 2); h.eqs = {eq[i]}; if (j != i) h.eqs.push_back(eq[j]); if (k) h.ineqs.push_back(cut[k - 1]); s(h); HInput n = h; n.names = defaultNames(2); if (k == 0) s(n); } })});
   f.push_back({"cones", "d=3: every set of 3..4 rows out of the 26 directions with rhs 0 or 1 alternating over direction parity", false, S([](HSink s) { Mat p = planes(3, 1, {1}); for (size_t i = 0; i < p.size(); i += 2) p[i][3] = 0; hSubsets(3, p, 3, 4, {}, s); })});
   f.push_back({"cube-cuts", "d=3: [0,1]^3 with every set of up to 2 cuts out of 26 directions x rhs {0,1}", false, S([](HSink s) { hSubsets(3, planes(3, 1, {0, 1}), 0, 2, box(3, 0, 1).ineqs, s); })});
   f.push_back({"cube-cuts-frac", "d=3: [-1,1]^3 with up to 2 cuts out of the directions with entries up to 2, rhs 1 (fractional vertices)", false, S([](HSink s) { hSubsets(3, planes(3, 2, {1}), 0, 2, box(3, -1, 1).ineqs, s); })});
   f.push_back({"cube-cuts-3", "d=3: [0,1]^3 with every set of 3 cuts out of 26 directions x rhs {0,1}", true, S([](HSink s) { hSubsets(3, planes(3, 1, {0, 1}), 3, 3, box(3, 0, 1).ineqs, s); })});
   f.push_back({"rows5", "d=3: every set of 5 rows out of the 26 directions with rhs 1", true, S([](HSink s) { hSubsets(3, planes(3, 1, {1}), 5, 5, {}, s); })});
   f.push_back({"orthant-cuts", "d=3: positive orthant (unbounded) with every set of up to 2 cuts out of 26 directions x rhs {-1,0,1}", false, S([](HSink s) { Mat b; for (int i = 0; i < 3; ++i) { Vec r(4, 0); r[i] = -1; b.push_back(r); } hSubsets(3, planes(3, 1, {-1, 0, 1}), 0, 2, b, s); })});
   f.push_back({"cube4-eq", "d=4: [0,1]^4 cut by one equation out of the 40 directions (up to sign) with entries in {-1,0,1}, rhs {0,1,2}, and at most one inequality", false, S([](HSink s) {
      auto e = planes(4, 1, {0, 1, 2}); for (size_t i = 0; i < e.size(); ++i) { HInput h = box(4, 0, 1); h.eqs = {e[i]}; s(h); HInput g = box(4, 0, 1); g.ineqs.push_back(e[i]); s(g); for (size_t k = 0; k < e.size(); k += 7) { HInput q = h; q.ineqs.push_back(e[k]); s(q); } } })});
   f.push_back({"duals", "the H-descriptions (reference facets) of every 4..5-subset of {-1,0,1}^3 that is full-dimensional", false, S([](HSink s) {
      auto p = gridPoints(3, -1, 1); subsets(27, 4, 4, [&](const std::vector<int>& c) { auto g = pick(p, c); if (ref::rank(g) < 4) return; auto cf = ref::coneFacets(g, 4); HInput h; h.d = 3; h.ineqs = cf.normals; s(h); }); })});
   f.push_back({"many-unbounded", "d=2,3: every pointed system of 2..3 (d=3: 3) rows with entries in {-1,0,1} and rhs 0 or 1 and the tangents of a parabola without cap, with 4..40 redundant rows in front, behind and in between", false, S([](HSink s) {
      auto go = [&](const HInput& h, std::vector<int> ns) { for (int n : ns) for (int kind = 0; kind < 2; ++kind) for (int pos = 0; pos < 3; ++pos) { HInput g = h; auto f = redundantRows(h.ineqs, h.d, n, kind); if (pos == 0) g.ineqs.insert(g.ineqs.begin(), f.begin(), f.end()); if (pos == 1) g.ineqs.insert(g.ineqs.end(), f.begin(), f.end()); if (pos == 2) g.ineqs.insert(g.ineqs.begin() + 1, f.begin(), f.end()); s(g); } };
      hSubsets(2, planes(2, 1, {0, 1}), 2, 3, {}, [&](const HInput& h) { if (ref::rank(h.ineqs) >= 2) go(h, {4, 9, 16, 31}); });
      auto p = planes(3, 1, {1}); for (size_t i = 0; i < p.size(); i += 3) p[i][3] = 0;
      int k = 0; hSubsets(3, p, 3, 3, {}, [&](const HInput& h) { Mat m = h.ineqs; for (auto& r : m) r.pop_back(); if (ref::rank(m) == 3) go(h, {k % 2 ? 11 : 24}), ++k; });
      for (int n = 3; n <= 14; ++n) { HInput h; h.d = 2; for (int i = 0; i < n; ++i) { Z t = i - n / 2; h.ineqs.push_back({2 * t, -1, -t * t}); } go(h, {4, 9, 16, 31, 40}); HInput q = h; s(q); std::reverse(q.ineqs.begin(), q.ineqs.end()); s(q); } })});
   f.push_back({"cones-many-rays", "d=2..5: |x_i| <= x_d, x_i >= 0 and mixtures, with the apex at the origin or moved, whole or cut off at height one, with every subset of up to 2 of the rows x_i + x_j <= x_d", false, S([](HSink s) {
      for (int d = 2; d <= 5; ++d) for (int m = 0; m < 3; ++m) for (int moved = 0; moved < 2; ++moved) for (int cut = 0; cut < 3; ++cut) {
         Mat rows, extra; for (int i = 0; i + 1 < d; ++i) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = 1; r[size_t(d) - 1] = -1; rows.push_back(r); r[size_t(i)] = -1; if (m == 1 || (m == 2 && i % 2)) r[size_t(d) - 1] = 0; rows.push_back(r); }
         for (int i = 0; i + 1 < d; ++i) for (int j = i + 1; j + 1 < d; ++j) { Vec r(size_t(d) + 1, 0); r[size_t(i)] = r[size_t(j)] = 1; r[size_t(d) - 1] = -1; extra.push_back(r); }
         if (cut) { Vec r(size_t(d) + 1, 0); r[size_t(d) - 1] = -1; r.back() = cut == 1 ? 1 : -1; rows.push_back(r); }
         subsets(int(extra.size()), 0, 2, [&](const std::vector<int>& c) { HInput h; h.d = d; h.ineqs = rows; for (int i : c) h.ineqs.push_back(extra[size_t(i)]); if (moved) for (auto& r : h.ineqs) for (int i = 0; i < d; ++i) r.back() -= r[size_t(i)] * (i + 1); s(h); });
      } })});
   auto a64 = a; a64.insert(a64.begin(), {"-i", "64"});
   auto S64 = [a64](std::function<void(HSink)> g) { return [g, a64](Emitter& em) { g([&](const HInput& v) { caseVertices(em, v, a64); }); }; };
   f.push_back({"scaled", "-i 64, d=2,3: small systems after the substitution x_j -> k_j x_j + t_j with large or coprime factors (large right-hand sides and coefficients of very different size; results stay far below overflow)", false, S64([](HSink s) {
      auto scale = [&](HInput h, const std::vector<Z>& k, const std::vector<Z>& t) { Z l = 1; for (Z x : k) l = ref::lcm(l, x); for (auto& r : h.ineqs) { Z b = r.back() * l; for (int j = 0; j < h.d; ++j) { r[size_t(j)] *= l / k[size_t(j)]; b -= r[size_t(j)] * t[size_t(j)]; } r.back() = b; ref::primitive(r); } s(h); };
      for (int k : {7, 60, 999}) for (int t : {-5, 0, 1000}) {
         hSubsets(2, planes(2, 1, {0, 1, 2}), 3, 3, {}, [&](const HInput& h) { scale(h, {k, 2}, {t, -t}); if (k != 60) scale(h, {2, k}, {t, 3}); });
         hSubsets(2, planes(2, 1, {0, 1}), 2, 2, box(2, -1, 2).ineqs, [&](const HInput& h) { scale(h, {k, 2}, {t, -t}); });
         if (k < 100) hSubsets(3, planes(3, 1, {0, 1}), 0, 1, box(3, 0, 1).ineqs, [&](const HInput& h) { scale(h, {k, 3, 2}, {t, -t, 1}); scale(h, {2, 3, k}, {1, t, -t}); });
         if (k < 100) { Mat b; for (int i = 0; i < 3; ++i) { Vec r(4, 0); r[size_t(i)] = -1; b.push_back(r); } hSubsets(3, planes(3, 1, {-1, 0, 1}), 0, 1, b, [&](const HInput& h) { scale(h, {k, 3, 2}, {t, -t, 1}); }); }
      } })});
   f.push_back({"classic", "-i 64, H-descriptions of simplices, cubes, cross polytopes (d<=5), cyclic polytopes, Birkhoff polytopes; with redundant or cutting rows appended", false, S64([](HSink s) {
      std::vector<HInput> l;
      for (int d = 1; d <= 5; ++d) { l.push_back(box(d, 0, 1)); l.push_back(box(d, -3, 7)); HInput c; c.d = d; for (int m = 0; m < (1 << d); ++m) { Vec r; for (int i = 0; i < d; ++i) r.push_back((m >> i & 1) ? 1 : -1); r.push_back(-1); c.ineqs.push_back(r); } if (d <= 4) l.push_back(c);
         HInput si; si.d = d; Vec o(d + 1, 1); o[d] = -1; si.ineqs.push_back(o); for (int i = 0; i < d; ++i) { Vec r(d + 1, 0); r[i] = -1; si.ineqs.push_back(r); } l.push_back(si); }
      for (int d = 2; d <= 4; ++d) for (int n = d + 1; n <= 7; ++n) { HInput h; h.d = d; h.ineqs = ref::coneFacets(cyclic(d, n).verts, d + 1).normals; l.push_back(h); }
      for (int n = 2; n <= 3; ++n) { HInput h; h.d = n * n; for (int i = 0; i < n; ++i) { Vec a(n * n + 1, 0), b(n * n + 1, 0); for (int j = 0; j < n; ++j) { a[i * n + j] = 1; b[j * n + i] = 1; } a[n * n] = b[n * n] = -1; h.eqs.push_back(a); if (i) h.eqs.push_back(b); } for (int i = 0; i < n * n; ++i) { Vec r(n * n + 1, 0); r[i] = -1; h.ineqs.push_back(r); } l.push_back(h); }
      for (auto& h : l) { s(h); HInput n = h; n.names = defaultNames(h.d); s(n); HInput r = h; Vec t(h.d + 1, 1); t[h.d] = -1000; r.ineqs.push_back(t); s(r); HInput d2 = h; d2.ineqs.push_back(h.ineqs[0]); Vec dbl = h.ineqs[0]; for (Z& x : dbl) x *= 3; d2.ineqs.push_back(dbl); s(d2); }
   })});
   return f;
}

void addEnumProps(std::vector<Property>& out) {
   out.push_back({"facets-ad", facetFamilies(adArgs)});
   out.push_back({"facets-dd", facetFamilies(ddArgs)});
   out.push_back({"vertices-ad", vertexFamilies(adArgs)});
   out.push_back({"vertices-dd", vertexFamilies(ddArgs)});
}
} // namespace mc
