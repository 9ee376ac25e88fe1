// Symmetry: maps, reduced output, reduced input.
#include "sym.hpp"
namespace mc {
void conesByRows(int lo, int hi, const std::function<void(const std::set<Vec>&, int, const std::vector<Aff>&, const Mat&, bool)>& sink);
void conesByRays(int lo, int hi, const std::function<void(const std::function<FacetRef()>&, const SymCase&, int)>& sink);

static void caseSym(Emitter& em, const SymCase& s, const std::vector<std::string>& args, int reducedMode = 0) {
   if (!em.want()) return;
   SymCase sc = s;
   em.exec([=](Ctx& c) -> std::string {
      VInput v = toInput(sc);
      FacetRef fr(v.gens(), v.d);
      if (reducedMode) { if (reducedMode & 1) { v.verts = sc.seedV; v.reducedV = true; } if (reducedMode & 2) { v.rays = sc.seedR; v.reducedR = true; } }
      Result r = c.run({args, {{"in", v.text()}}});
      c.tag("codim=" + std::to_string(fr.cf.equations.size()));
      return judgeReducedFacets(fr, sc, r, v.names);
   });
}
static void caseSymH(Emitter& em, const SymH& s, const std::vector<std::string>& args, bool reduced, bool raw = false) {
   if (!em.want()) return;
   SymH sh = s;
   em.exec([=](Ctx& c) -> std::string {
      HInput h; h.d = sh.d; h.ineqs = sh.rows; h.eqs = sh.eqs; h.names = defaultNames(sh.d); for (auto& a : sh.maps) h.maps.push_back(text(a, split(h.names)));
      auto er = ref::extremeRays(h.cone(), h.d + 1);
      bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true;
      if (!er.pointed || !hasVertex) { c.tag("skipped: no vertex"); return ""; }
      if (reduced) { h.reduced = true; h.ineqs = sh.seed; }
      Result r = c.run({args, {{"in", h.text()}}});
      c.tag("extreme=" + std::to_string(er.rays.size() > 12 ? 12 : er.rays.size()));
      return judgeReducedVertices(er.rays, h.d, sh.maps, r);
   });
}
// cones with large classes of rays (dimension up to 6)
static void coneFacets(Emitter& em, const std::vector<std::string>& args, bool reducedOnly) {
   conesByRays(2, 6, [&](const std::function<FacetRef()>&, const SymCase& s, int reduced) { if ((reduced != 0) == reducedOnly) caseSym(em, s, args, reduced); });
}
static void coneVertices(Emitter& em, const std::vector<std::string>& args, bool reducedOnly) {
   conesByRows(2, 6, [&](const std::set<Vec>& ext, int d, const std::vector<Aff>& g, const Mat& rows, bool reduced) {
      if (reduced != reducedOnly || !em.want()) return;
      em.exec([=](Ctx& c) -> std::string { HInput h; h.d = d; h.ineqs = rows; h.reduced = reduced; h.names = defaultNames(d); for (auto& m : g) h.maps.push_back(text(m, split(h.names))); return judgeReducedVertices(ext, d, g, c.run({args, {{"in", h.text()}}})); });
   });
}
static Mat hrows(int d, const std::vector<int>& rhs, int k = 1) { Mat m; for (auto n : directions(d, k)) for (int b : rhs) { Vec r = n; r[d] = -b; m.push_back(r); } return m; }
static void symHPlane(const std::function<void(const SymH&)>& s, int seeds) {
   auto rows = hrows(2, {0, 1, 2});
   for (auto& a : M2()) subsets(int(rows.size()), 1, seeds, [&](const std::vector<int>& c) { emitSymH({A(a, 2)}, 2, pick(rows, c), {}, s, 10); });
}
static void symHSpace(const std::function<void(const SymH&)>& s, int seeds, bool pairs) {
   auto rows = hrows(3, {0, 1}); auto m = M3(); std::vector<std::vector<Aff>> gs; for (auto& a : m) gs.push_back({A(a, 3)}); if (pairs) for (size_t i = 0; i < m.size(); ++i) for (size_t j = i + 1; j < m.size(); ++j) gs.push_back({A(m[i], 3), A(m[j], 3)});
   for (auto& g : gs) subsets(int(rows.size()), 1, seeds, [&](const std::vector<int>& c) { emitSymH(g, 3, pick(rows, c), {}, s, 10); });
}
// with an invariant equation (permutations act on x+y+z = b)
static void symHEq(const std::function<void(const SymH&)>& s) {
   for (auto& ms : {"y x z", "y z x", "x z y"}) for (int b : {1, 2, 3}) { Vec e{1, 1, 1, -b}; auto rows = hrows(3, {0, 1, 2}); subsets(int(rows.size()), 1, 2, [&](const std::vector<int>& c) { emitSymH({A(ms, 3)}, 3, pick(rows, c), {e}, s, 8); }); }
   // leading coefficients other than 1, several and dependent equations
   for (auto& ms : {"x z y"}) for (int lead : {-1, 2, -2, 3}) for (int b : {1, 2}) { Vec e{lead, 1, 1, -b}; auto rows = hrows(3, {0, 1, 2}); subsets(int(rows.size()), 1, 2, [&](const std::vector<int>& c) { emitSymH({A(ms, 3)}, 3, pick(rows, c), {e}, s, 8); }); }
   std::vector<Mat> systems{{{1, 1, 0, 0, -1}, {0, 0, 1, 1, -1}}, {{1, 1, 1, 1, -2}, {1, 1, 0, 0, -1}}, {{1, 1, 0, 0, -1}, {1, 1, 1, 1, -2}, {0, 0, 1, 1, -1}}, {{-2, -2, 0, 0, 2}, {0, 0, 3, 3, -3}}, {{2, 2, 1, 1, -3}, {1, 1, 2, 2, -3}}};
   for (auto& sys : systems) for (auto& ms : {"y x z w", "z w x y", "x y w z", "w z y x"}) { Mat lo; for (int i = 0; i < 4; ++i) { Vec r(5, 0); r[i] = -1; lo.push_back(r); } auto rows = hrows(4, {1}); for (size_t i = 0; i < rows.size(); ++i) { Mat seed = lo; seed.push_back(rows[i]); emitSymH({A(ms, 4)}, 4, seed, sys, s, 12); } }
   for (auto& ms : {"y x z w", "y z w x", "x y w z", "z w x y"}) for (int b : {1, 2}) { Vec e{1, 1, 1, 1, -b}; Mat lo; for (int i = 0; i < 4; ++i) { Vec r(5, 0); r[i] = -1; lo.push_back(r); } auto rows = hrows(4, {1}); for (size_t i = 0; i < rows.size(); ++i) { Mat seed = lo; seed.push_back(rows[i]); emitSymH({A(ms, 4)}, 4, seed, {e}, s, 12); } }
}

void addSymProps(std::vector<Property>& out) {
   const std::vector<std::string> ad{"-t", "1", "in"}, dd{"-m", "dd", "in"};
   auto F = [=](std::function<void(SymSink)> g, int modes = 0) { return [=](Emitter& em) { g([&](const SymCase& s) { if (!modes) { caseSym(em, s, ad); caseSym(em, s, dd); } else for (int m = 1; m <= 3; ++m) { if ((m & 2) && s.seedR.empty()) continue; caseSym(em, s, ad, m); caseSym(em, s, dd, m); } }); }; };
   auto H = [=](std::function<void(std::function<void(const SymH&)>)> g, bool red) { return [=](Emitter& em) { g([&](const SymH& s) { caseSymH(em, s, ad, red); caseSymH(em, s, dd, red); }); }; };
   Property p; p.id = "symmetry-facets";
   p.families.push_back({"plane", "d=2: orbits of up to 2 seed points of {-1,0,1/2,1,2}^2 under each of 21 affine maps; AD and DD", false, F([](SymSink s) { symPlane(s, 2, false); })});
   p.families.push_back({"plane-pairs", "d=2: orbits of 1 seed point under every pair of the 21 maps generating a group with orbit size <= 12", false, F([](SymSink s) { symPlane(s, 1, true); })});
   p.families.push_back({"plane-rays", "d=2: orbits of up to 2 points of {0,1}^2 and up to 2 of 8 rays under each map", false, F([](SymSink s) { symPlaneRays(s); })});
   p.families.push_back({"central", "segments of a 6x6 grid and sets of 2..3 seeds of a 3-d grid reflected through the origin / the midpoint of the first two seeds: arbitrary affine hulls", false, F([](SymSink s) { symCentral(s); })});
   p.families.push_back({"space", "d=3: orbits of up to 2 seeds of {0,1}^3 and of {-1,0,1}^3 under each of 16 maps", false, F([](SymSink s) { symSpace(s, 2, false, gridPoints(3, -1, 1)); })});
   p.families.push_back({"space-pairs", "d=3: orbits of up to 2 seeds of {0,1}^3 under every pair of maps", false, F([](SymSink s) { symSpace(s, 2, true, gridPoints(3, 0, 1)); })});
   p.families.push_back({"space-rays", "d=3: orbits of 1 vertex of {0,1}^3 and up to 2 of the 26 rays under each map", false, F([](SymSink s) { symSpaceRays(s); })});
   p.families.push_back({"space-3", "d=3: orbits of 3 seeds of {-1,0,1}^3 under each map", true, F([](SymSink s) { symSpace(s, 3, false, gridPoints(3, -1, 1)); })});
   p.families.push_back({"space4", "d=4: orbits of up to 2 seeds of {0,1}^4 under each of 9 maps", false, F([](SymSink s) { auto q = gridPoints(4, 0, 1); for (auto& a : M4()) subsets(16, 1, 2, [&](const std::vector<int>& c) { emitSym({A(a, 4)}, 4, pick(q, c), {}, s, 12); }); })});
   p.families.push_back({"space4-3", "d=4: orbits of 3 seeds of {0,1}^4 under each of 9 maps", true, F([](SymSink s) { auto q = gridPoints(4, 0, 1); for (auto& a : M4()) subsets(16, 3, 3, [&](const std::vector<int>& c) { emitSym({A(a, 4)}, 4, pick(q, c), {}, s, 12); }); })});
   p.families.push_back({"classic", "simplices, cubes, cross polytopes, permutahedra, Birkhoff, linear ordering and cut polytopes with subgroups of their symmetries", false, F([](SymSink s) { symClassic(s); })});
   p.families.push_back({"cones", "d=2..6: cones over cross polytopes (apex and rays, or cut off) under 5 groups each", false, [=](Emitter& em) { coneFacets(em, ad, false); coneFacets(em, dd, false); }});
   out.push_back(p);
   Property v; v.id = "symmetry-vertices";
   v.families.push_back({"plane", "d=2: row systems that are orbits of up to 2 seed rows (8 directions x rhs {0,1,2}) under each of 21 maps", false, H([](auto s) { symHPlane(s, 2); }, false)});
   v.families.push_back({"plane-3", "d=2: orbits of up to 3 seed rows", true, H([](auto s) { symHPlane(s, 3); }, false)});
   v.families.push_back({"space", "d=3: orbits of up to 2 of 52 seed rows under each of 16 maps", false, H([](auto s) { symHSpace(s, 2, false); }, false)});
   v.families.push_back({"space-pairs", "d=3: orbits of 1 seed row under every pair of maps", false, H([](auto s) { symHSpace(s, 1, true); }, false)});
   v.families.push_back({"space-3", "d=3: orbits of 3 seed rows", true, H([](auto s) { symHSpace(s, 3, false); }, false)});
   v.families.push_back({"equations", "with an invariant equation x+y+z=b (d=3: orbits of up to 2 rows; d=4: orthant plus one orbit)", false, H([](auto s) { symHEq(s); }, false)});
   v.families.push_back({"cones", "d=2..6: cones over cubes, whole, moved or cut off, and strips, under 5 groups each", false, [=](Emitter& em) { coneVertices(em, ad, false); coneVertices(em, dd, false); }});
   out.push_back(v);
   Property q; q.id = "reduced-input";
   q.families.push_back({"vertices-plane", "d=2: Reduced Vertices with up to 2 seeds under each of 21 maps", false, F([](SymSink s) { symPlane(s, 2, false); }, 1)});
   q.families.push_back({"vertices-pairs", "d=2: one seed, two maps", false, F([](SymSink s) { symPlane(s, 1, true); }, 1)});
   q.families.push_back({"rays-plane", "d=2: Reduced Vertices / Reduced Rays in all combinations", false, F([](SymSink s) { symPlaneRays(s); }, 1)});
   q.families.push_back({"rays-space", "d=3: Reduced Vertices / Reduced Rays in all combinations (every 5th orbit)", false, F([](SymSink s) { int k = 0; symSpaceRays([&](const SymCase& c) { if (k++ % 5 == 0) s(c); }); }, 1)});
   q.families.push_back({"rays-space-all", "the same, all of them", true, F([](SymSink s) { symSpaceRays(s); }, 1)});
   q.families.push_back({"vertices-space", "d=3: up to 2 seeds of {0,1}^3 under every pair of 16 maps", false, F([](SymSink s) { symSpace(s, 2, true, gridPoints(3, 0, 1)); }, 1)});
   q.families.push_back({"central", "arbitrary affine hulls: reflection through a point", false, F([](SymSink s) { symCentral(s); }, 1)});
   q.families.push_back({"inequalities-plane", "d=2: Reduced Inequalities with up to 2 seed rows under each of 21 maps", false, H([](auto s) { symHPlane(s, 2); }, true)});
   q.families.push_back({"inequalities-space", "d=3: up to 2 seed rows under each of 16 maps", false, H([](auto s) { symHSpace(s, 2, false); }, true)});
   q.families.push_back({"inequalities-eq", "Reduced Inequalities with the full set of equations", false, H([](auto s) { symHEq(s); }, true)});
   q.families.push_back({"cones", "d=2..6: the cones over cross polytopes and cubes by representatives of the points, of the rays, of both, and of the rows", false, [=](Emitter& em) { for (auto& a : {ad, dd}) { coneFacets(em, a, true); coneVertices(em, a, true); } }});
   out.push_back(q);
}
} // namespace mc
