// The validity check (-c): output appears exactly if the maps are bijections of the given rows and the known rows are facets / extreme.
#include "sym.hpp"
namespace mc {
static std::set<Vec> primSet(const Mat& m) { std::set<Vec> s; for (auto r : m) { ref::primitive(r); s.insert(r); } return s; }
template <typename F> static bool bijective(const Aff& a, const std::set<Vec>& s, F f) { std::set<Vec> t; for (auto& x : s) t.insert(f(a, x)); return t == s; }
static bool validMap(const Aff& a, const VInput& v) { return bijective(a, primSet(v.verts), applyV) && bijective(a, primSet(v.rays), applyV); }
static std::string refusedBeforeRows(const Result& r, const std::string& what) {
   if (r.ok()) return what + " passes the check";
   if (r.sig || r.timeout) return what + ": program ended with " + r.status();
   std::istringstream in(r.out); for (std::string l; std::getline(in, l);) { auto t = trim(l); if (!t.empty() && t.back() != ':') return what + " is refused after printing rows"; }
   return "";
}
enum Layout { MAPS_FIRST, MAPS_LAST, MAPS_BETWEEN };
static std::string vText(const VInput& v, Layout l) { // unlike VInput::text, rows as they are (unreduced fractions, multiples of rays) and the maps anywhere
   auto row = [](const Vec& g) { std::string s; for (size_t i = 0; i + 1 < g.size(); ++i) { if (i) s += ' '; s += ref::str(g[i]); if (g.back() > 1) s += "/" + ref::str(g.back()); } return s + "\n"; };
   std::string names = "Names\n" + v.names + "\n", maps, ve, ra;
   if (!v.maps.empty()) { maps = "Maps\n"; for (auto& m : v.maps) maps += m + "\n"; }
   if (!v.verts.empty()) { ve = "Vertices\n"; for (auto& x : v.verts) ve += row(x); }
   if (!v.rays.empty()) { ra = "Rays\n"; for (auto& x : v.rays) ra += row(x); }
   return names + (l == MAPS_FIRST ? maps + ve + ra : l == MAPS_LAST ? ve + ra + maps : ra + maps + ve);
}
static void caseMapsV(Emitter& em, const VInput& in, const std::vector<Aff>& maps, const std::vector<std::string>& args, Layout layout = MAPS_FIRST) {
   if (!em.want()) return;
   VInput v = in; v.names = defaultNames(v.d); for (auto& a : maps) v.maps.push_back(text(a, split(v.names)));
   em.exec([=](Ctx& c) -> std::string {
      auto a = args; a.push_back("-c");
      Result r = c.run({a, {{"in", vText(v, layout)}}});
      bool ok = true; for (auto& m : maps) if (!validMap(m, v)) ok = false;
      if (ok) { c.tag("valid"); if (!r.ok()) return "valid maps are refused: " + r.status(); Mat g; for (auto& x : primSet(v.gens())) g.push_back(x); FacetRef fr(g, v.d); SymCase sc; sc.d = v.d; sc.maps = maps; return judgeReducedFacets(fr, sc, r, v.names); }
      // the rows are not mapped to each other; if the polyhedron is (redundant points), the documentation leaves it open
      FacetRef fr(v.gens(), v.d); Mat rows = fr.cf.normals; for (auto& e : fr.cf.equations) { rows.push_back(e); Vec n = e; for (Z& x : n) x = -x; rows.push_back(n); }
      auto er = ref::extremeRays(rows, v.d + 1); if (!er.pointed) { c.tag("open: lineality"); return ""; }
      bool poly = true; for (auto& m : maps) if (!bijective(m, er.rays, applyV)) poly = false;
      if (poly) { c.tag("open: maps of the polyhedron, not of the rows"); return ""; }
      c.tag("invalid"); return refusedBeforeRows(r, "a map that is no bijection of the input");
   });
}
static std::string hText(const HInput& h, Layout l) {
   auto nm = split(h.names); std::string maps, q, e;
   if (!h.maps.empty()) { maps = "Maps\n"; for (auto& m : h.maps) maps += m + "\n"; }
   if (!h.eqs.empty()) { e = "Equations\n"; for (auto& r : h.eqs) e += namedRow(r, nm, "=") + "\n"; }
   q = "Inequalities\n"; for (auto& r : h.ineqs) q += namedRow(r, nm, "<=") + "\n";
   return "Names\n" + h.names + "\n" + (l == MAPS_FIRST ? maps + e + q : l == MAPS_LAST ? e + q + maps : e + maps + q);
}
static void caseMapsH(Emitter& em, const HInput& in, const std::vector<Aff>& maps, const std::vector<std::string>& args, Layout layout = MAPS_FIRST) {
   if (!em.want()) return;
   HInput h = in; h.names = defaultNames(h.d); for (auto& a : maps) h.maps.push_back(text(a, split(h.names)));
   em.exec([=](Ctx& c) -> std::string {
      auto er = ref::extremeRays(h.cone(), h.d + 1);
      bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true;
      if (!er.pointed || !hasVertex) { c.tag("skipped: no vertex"); return ""; }
      auto a = args; a.push_back("-c");
      Result r = c.run({a, {{"in", hText(h, layout)}}});
      bool ok = true, poly = true, eqs = true; auto rows = primSet(h.ineqs);
      for (auto& m : maps) { if (!bijective(m, rows, applyF)) ok = false; if (!bijective(m, er.rays, applyV)) poly = false; Mat img; for (auto& e : h.eqs) img.push_back(applyF(m, e)); if (ref::rowSpace(img) != ref::rowSpace(h.eqs)) eqs = false; }
      if (ok && eqs) { c.tag("valid"); if (!r.ok()) return "valid maps are refused: " + r.status(); return judgeReducedVertices(er.rays, h.d, maps, r); }
      if (ok || poly) { c.tag("open: maps of the rows or of the polyhedron only"); return ""; }
      c.tag("invalid"); return refusedBeforeRows(r, "a map that is no bijection of the inequalities");
   });
}
// all affine maps with linear part entries in [-k,k] and translations in ts
static std::vector<Aff> allMaps(int d, int k, const std::vector<int>& ts) {
   std::vector<Aff> l; std::vector<int> v(size_t(d * (d + 1)), 0); std::vector<int> lin; for (int i = -k; i <= k; ++i) lin.push_back(i);
   std::function<void(size_t)> go = [&](size_t i) { if (i == v.size()) { Aff a; for (int r = 0; r < d; ++r) { Vec row; for (int q = 0; q <= d; ++q) row.push_back(v[size_t(r * (d + 1) + q)]); a.m.push_back(row); } l.push_back(a); return; } for (int x : int(i) % (d + 1) == d ? ts : lin) { v[i] = x; go(i + 1); } };
   go(0); return l;
}
static const std::vector<std::vector<std::string>> kBoth{{"-t", "1", "in"}, {"-m", "dd", "in"}};

// known rows: candidates enumerated, exactly the true ones may pass
static void caseKnownRowsV(Emitter& em, const VInput& v, const FacetRef& fr, const Mat& known, const std::vector<std::string>& args) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      bool ok = true; std::string bad; for (auto& k : known) { Mask m; if (!fr.classify(k, m).empty() || !fr.facets.count(m)) { ok = false; bad = ref::str(k); } }
      std::string t = "Inequalities\n"; for (auto& k : known) t += ref::str(k) + "\n";
      auto a = args; a.insert(a.end(), {"-k", "known", "-c"});
      Result r = c.run({a, {{"in", v.text()}, {"known", t}}}); c.tag(ok ? "facets" : "not facets");
      if (!ok) return refusedBeforeRows(r, "known inequality " + bad + ", which is no facet,");
      return judgeFacets(fr, r, v.d, v.names);
   });
}
static void caseKnownRowsH(Emitter& em, const HInput& h, const std::set<Vec>& rays, const Mat& known, const std::vector<std::string>& args) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      bool ok = true; std::string bad; for (auto k : known) { ref::primitive(k); if (!rays.count(k)) { ok = false; bad = ref::str(k); } }
      std::string vs, rs; for (auto& k : known) (k.back() ? vs : rs) += pointText(k) + "\n";
      std::string t; if (!vs.empty()) t += "Vertices\n" + vs; if (!rs.empty()) t += "Rays\n" + rs;
      auto a = args; a.insert(a.end(), {"-k", "known", "-c"});
      Result r = c.run({a, {{"in", h.text()}, {"known", t}}}); c.tag(ok ? "extreme" : "not extreme");
      if (!ok) return refusedBeforeRows(r, "known vertex / ray " + bad + ", which is not extreme,");
      return judgeVertices(rays, r, h.d);
   });
}
static Mat boxRows(int d, int k, int kl) { // every row with coefficients in [-k,k] and last entry in [-kl,kl]
   Mat l; for (auto p : gridPoints(d, -k, k)) for (int b = -kl; b <= kl; ++b) { Vec r = p; r[size_t(d)] = b; l.push_back(r); } return l;
}
static std::vector<VInput> checkV() {
   std::vector<VInput> l; VInput v; v.d = 2;
   v.verts = {{0,0,1},{1,0,1},{0,1,1}}; l.push_back(v); v.verts = {{0,0,1},{2,0,1},{0,2,1},{2,2,1},{1,1,1}}; l.push_back(v); v.verts = {{1,1,2},{0,0,1},{1,0,1}}; l.push_back(v);
   v.verts = {{0,0,1},{1,1,1}}; l.push_back(v); v.verts = {{0,1,1},{2,0,1}}; l.push_back(v);
   v.verts = {{0,0,1}}; v.rays = {{1,0,0},{0,1,0}}; l.push_back(v); v.verts = {{0,0,1},{1,0,1}}; v.rays = {{0,1,0}}; l.push_back(v); v.verts = {{0,0,1},{0,1,1}}; v.rays = {{1,0,0},{2,1,0}}; l.push_back(v); v.verts = {{1,0,1}}; v.rays = {{1,1,0}}; l.push_back(v);
   VInput w; w.d = 3; w.verts = simplex(3).verts; l.push_back(w); w.verts = {{0,0,0,1},{1,0,0,1},{0,1,0,1},{1,1,0,1}}; l.push_back(w); w.verts = {{0,0,1,1},{1,0,0,1},{0,1,0,1}}; l.push_back(w); w.verts = {{0,0,0,1},{1,0,0,1}}; w.rays = {{0,1,0,0},{0,0,1,0}}; l.push_back(w);
   w.verts = {{0,0,0,1}}; w.rays = {{1,0,0,0},{0,1,0,0},{0,0,1,0}}; l.push_back(w); l.push_back(cross(3)); l.push_back(cube(3));
   return l;
}
static std::vector<HInput> checkH() {
   std::vector<HInput> l; for (auto& v : checkV()) { auto g = v.gens(); if (ref::rank(g) < v.d + 1) continue; auto cf = ref::coneFacets(g, v.d + 1); HInput h; h.d = v.d; for (auto& n : cf.normals) if (!ref::isZero(Vec(n.begin(), n.end() - 1))) h.ineqs.push_back(n); if (h.ineqs.empty()) continue; l.push_back(h);
      HInput e = h; Vec q(size_t(h.d + 1), 0); q[0] = 1; q[1] = -1; e.eqs.push_back(q); l.push_back(e); HInput f = h; Vec x = h.ineqs[0]; x.back() -= 1; f.ineqs.push_back(x); f.ineqs.push_back(h.ineqs[0]); l.push_back(f); }
   return l;
}
static Property validityCheck() {
   Property p; p.id = "validity-check";
   p.families.push_back({"maps-plane", "d=2: all 729 affine maps with linear entries in {-1,0,1} and translation in {-1,0,1} x every subset of 2..3 points of {0,1}^2 and some of {-1,0,1}^2 with 3..4 points, double description", false, [](Emitter& em) {
      std::vector<VInput> vs; vSubsets(2, gridPoints(2, 0, 1), 1, 4, [&](const VInput& v) { vs.push_back(v); }); int k = 0; vSubsets(2, gridPoints(2, -1, 1), 3, 4, [&](const VInput& v) { if (k++ % 9 == 0) vs.push_back(v); });
      for (auto& a : allMaps(2, 1, {-1, 0, 1})) for (auto& v : vs) caseMapsV(em, v, {a}, kBoth[1]); }});
   p.families.push_back({"maps-plane-rays", "d=2: all 81 linear maps with entries in {-1,0,1} and those with translation (1,0), (0,1) x 1..2 points of {0,1}^2 with 1..2 of 8 rays", false, [](Emitter& em) {
      auto ms = allMaps(2, 1, {0}); for (auto a : allMaps(2, 1, {0, 1})) if (a.m[0][2] + a.m[1][2] == 1) ms.push_back(a);
      int k = 0; std::vector<VInput> vs; vRays(2, gridPoints(2, 0, 1), 1, 2, directions(2, 1), 1, 2, [&](const VInput& v) { if (k++ % 5 == 0) vs.push_back(v); });
      for (auto& a : ms) for (auto& v : vs) caseMapsV(em, v, {a}, kBoth[1]); }});
   p.families.push_back({"maps-forms", "orbits of every map of the symmetry families: with every row repeated, every single point missing or added, fractions not in lowest terms, rays with factors, maps before, between and after the sections, a second map that is or is no symmetry; both methods", false, [](Emitter& em) {
      int k = 0; auto one = [&](const SymCase& s) {
         if (s.V.size() + s.R.size() > 8) return; VInput v; v.d = s.d; v.verts = s.V; v.rays = s.R;
         int kk = k++; for (auto l : {MAPS_FIRST, MAPS_LAST, MAPS_BETWEEN}) for (auto& a : kBoth) {
            if (&a == &kBoth[0] && kk % 4) continue;
            caseMapsV(em, v, s.maps, a, l);
            VInput w = v; for (auto& g : w.verts) for (Z& x : g) x *= 2; for (size_t i = 0; i < w.rays.size(); ++i) for (Z& x : w.rays[i]) x *= Z(i + 2); caseMapsV(em, w, s.maps, a, l);
            if (kk % 3 == 0) for (size_t i = 0; i < v.verts.size(); ++i) { VInput u = v; u.verts.push_back(v.verts[i]); caseMapsV(em, u, s.maps, a, l); if (v.verts.size() > 1) { u = v; u.verts.erase(u.verts.begin() + long(i)); caseMapsV(em, u, s.maps, a, l); } u = v; Vec g = v.verts[i]; g[0] += 3 * g.back(); u.verts.push_back(g); caseMapsV(em, u, s.maps, a, l); }
            if (kk % 3 == 0) for (size_t i = 0; i < v.rays.size(); ++i) { VInput u = v; Vec r = v.rays[i]; for (Z& x : r) x *= 3; u.rays.push_back(r); caseMapsV(em, u, s.maps, a, l); if (v.rays.size() > 1) { u = v; u.rays.erase(u.rays.begin() + long(i)); caseMapsV(em, u, s.maps, a, l); } }
         }
         for (auto& b : s.d == 2 ? M2() : s.d == 3 ? M3() : M4()) { if (s.d > 4) break; auto ms = s.maps; ms.push_back(A(b, s.d)); if (kk % 2) std::swap(ms.front(), ms.back()); if (kk % 6 == 0) caseMapsV(em, v, ms, kBoth[1], Layout(kk % 3)); }
      };
      symPlane(one, 1, false); symPlaneRays([&](const SymCase& s) { if (s.seedR.size() == 1) one(s); }); symSpace(one, 1, false, gridPoints(3, 0, 1)); symCentral([&](const SymCase& s) { if (k % 7 == 0) one(s); else ++k; }); }});
   p.families.push_back({"maps-inequalities", "orbits of 1..2 rows (coefficients in {-1,0,1}, right-hand sides in {0,1}) under each plane map, and single rows under each space map: as they are, scaled, repeated, with a row missing or moved, with an invariant or other equation, maps at every place; both methods", false, [](Emitter& em) {
      int k = 0; auto one = [&](const SymH& s) {
         int kk = k++; HInput h; h.d = s.d; h.ineqs = s.rows; h.eqs = s.eqs; auto& a = kBoth[size_t(kk % 2)]; Layout l = Layout(kk % 3);
         caseMapsH(em, h, s.maps, a, l); caseMapsH(em, h, s.maps, kBoth[1], MAPS_LAST);
         HInput w = h; for (size_t i = 0; i < w.ineqs.size(); ++i) for (Z& x : w.ineqs[i]) x *= Z(i % 3 + 1); caseMapsH(em, w, s.maps, a, l);
         for (size_t i = 0; i < h.ineqs.size(); ++i) { HInput u = h; u.ineqs.push_back(h.ineqs[i]); caseMapsH(em, u, s.maps, a, l); u = h; u.ineqs[i].back() -= 1; caseMapsH(em, u, s.maps, a, l); if (h.ineqs.size() > 1) { u = h; u.ineqs.erase(u.ineqs.begin() + long(i)); caseMapsH(em, u, s.maps, a, l); } }
      };
      auto rows = [](int d, std::vector<int> rhs) { Mat m; for (auto n : directions(d, 1)) for (int b : rhs) { Vec r = n; r[size_t(d)] = -b; m.push_back(r); } return m; };
      auto r2 = rows(2, {0, 1}); for (auto& a : M2()) subsets(int(r2.size()), 1, 2, [&](const std::vector<int>& c) { emitSymH({A(a, 2)}, 2, pick(r2, c), {}, one, 8); });
      auto r3 = rows(3, {0, 1}); for (auto& a : M3()) subsets(int(r3.size()), 1, 2, [&](const std::vector<int>& c) { if (c.size() == 2 && (c[0] * 7 + c[1]) % 5) return; emitSymH({A(a, 3)}, 3, pick(r3, c), {}, one, 8); });
      for (auto& a : {"y x z", "y z x", "x z y"}) for (Vec e : {Vec{1,1,1,-2}, Vec{1,0,-1,0}}) for (size_t i = 0; i < r3.size(); ++i) emitSymH({A(a, 3)}, 3, {r3[i]}, {e}, one, 6); }});
   p.families.push_back({"known-facets", "16 V-descriptions (bounded, unbounded, cones, lower-dimensional) x every row with coefficients in {-1,0,1} (d=2: {-2..2}) and last entry in {-2..2} as known data with -c: exactly the facets pass; both methods", false, [](Emitter& em) {
      for (auto& v : checkV()) { FacetRef fr(v.gens(), v.d); for (auto& k : boxRows(v.d, v.d == 2 ? 2 : 1, 2)) for (auto& a : kBoth) caseKnownRowsV(em, v, fr, {k}, a); } }});
   p.families.push_back({"known-facets-pairs", "the same with a true facet before or after the row", false, [](Emitter& em) {
      for (auto& v : checkV()) { FacetRef fr(v.gens(), v.d); Mat f; for (auto& n : fr.cf.normals) { Mask m; fr.classify(n, m); if (fr.facets.count(m)) f.push_back(n); } if (f.empty()) continue;
         int i = 0; for (auto& k : boxRows(v.d, 1, 1)) { ++i; caseKnownRowsV(em, v, fr, {f[size_t(i) % f.size()], k}, kBoth[size_t(i / 2 % 2)]); caseKnownRowsV(em, v, fr, {k, f[size_t(i) % f.size()]}, kBoth[size_t(i / 2 % 2)]); } } }});
   p.families.push_back({"known-vertices", "H-descriptions (also with equations, redundant and repeated rows) x every point with coordinates in {-1,0,1/2,1,2} and every ray in {-1,0,1}^d: exactly the extreme ones pass; alone and next to a true one", false, [](Emitter& em) {
      for (auto& h : checkH()) { auto er = ref::extremeRays(h.cone(), h.d + 1); bool hasVertex = false; Vec tv; for (auto& v : er.rays) if (v.back() > 0) { hasVertex = true; tv = v; } if (!er.pointed || !hasVertex) continue;
         auto cand = gridPoints(h.d, {{-1,1},{0,1},{1,2},{1,1},{2,1}}); for (auto q : gridPoints(h.d, -1, 1)) { q.back() = 0; cand.push_back(q); } for (auto q : directions(h.d, 1)) { for (Z& x : q) x *= 2; cand.push_back(q); }
         int i = 0; for (auto& k : cand) { ++i; for (auto& a : kBoth) caseKnownRowsH(em, h, er.rays, {k}, a); caseKnownRowsH(em, h, er.rays, {tv, k}, kBoth[size_t(i % 2)]); caseKnownRowsH(em, h, er.rays, {k, tv}, kBoth[size_t(i % 2)]); } } }});
   p.families.push_back({"maps-space", "d=3: all linear maps with entries in {-1,0,1} (19683) on the simplex, the octahedron and the cube", true, [](Emitter& em) { for (auto& a : allMaps(3, 1, {0})) for (auto& v : {simplex(3), cross(3), cube(3)}) caseMapsV(em, v, {a}, kBoth[1]); }});
   p.families.push_back({"maps-plane-all", "d=2: all 729 maps x every subset of 1..5 points of {-1,0,1}^2, double description", true, [](Emitter& em) {
      std::vector<VInput> vs; vSubsets(2, gridPoints(2, -1, 1), 1, 5, [&](const VInput& v) { vs.push_back(v); }); for (auto& a : allMaps(2, 1, {-1, 0, 1})) for (auto& v : vs) caseMapsV(em, v, {a}, kBoth[1]); }});
   return p;
}
void addCheckProps(std::vector<Property>& l) { l.push_back(validityCheck()); }
} // namespace mc
