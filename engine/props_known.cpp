// Known data (-k): any non-empty part of the result may be supplied in advance without changing the result.
#include "reps.hpp"
#include "sym.hpp"
namespace mc {

// representation variants of a row: multiples, and (for facets of lower-dimensional polyhedra) shifted by equations
static Vec combo(const Vec& r, Z k, const Mat& eqs, unsigned variant) {
   Vec v = r; for (Z& x : v) x *= k;
   for (size_t i = 0; i < eqs.size(); ++i) { Z f = 0; switch ((variant + i) % 4) { case 0: f = 0; break; case 1: f = 1; break; case 2: f = -2; break; case 3: f = 3; break; } for (size_t j = 0; j < v.size(); ++j) v[j] += f * eqs[i][j]; }
   return v;
}
static std::string knownFacetsText(const Mat& rows, const std::string& names) {
   std::string s = "Inequalities\n"; auto nm = split(names);
   for (auto& r : rows) s += (names.empty() ? ref::str(r) : namedRow(r, nm, "<=")) + "\n";
   return s;
}
static void choices(size_t n, const std::function<void(const std::vector<int>&)>& f) {
   if (n <= 6) { subsets(int(n), 1, int(n), f); return; }
   subsets(int(n), 1, n <= 12 ? 2 : 1, f);
   std::vector<int> all; for (size_t i = 0; i < n; ++i) all.push_back(int(i)); f(all);
   for (size_t i = 0; i < n && i < 8; ++i) { std::vector<int> c = all; c.erase(c.begin() + long(i)); f(c); }
}
static void caseKnownFacets(Emitter& em, const VInput& v, const std::vector<std::vector<std::string>>& argsets, unsigned variants) {
   // the reference is only computed by the worker that needs it, but the number of cases must not depend on the worker
   FacetRef fr(v.gens(), v.d);
   Mat facets; for (auto& n : fr.cf.normals) { Mask m; fr.classify(n, m); if (fr.facets.count(m)) facets.push_back(n); }
   if (facets.empty()) return;
   unsigned nv = fr.cf.equations.empty() ? 1 : variants;
   choices(facets.size(), [&](const std::vector<int>& c) {
      for (unsigned var = 0; var < nv; ++var) for (Z k : {1, 3}) for (int rev = 0; rev < (c.size() > 1 ? 2 : 1); ++rev) for (auto& a : argsets) {
         if (!em.want()) continue;
         Mat rows; for (int i : c) rows.push_back(combo(facets[size_t(i)], k, fr.cf.equations, var)); if (rev) std::reverse(rows.begin(), rows.end());
         VInput vi = v; auto args = a;
         em.exec([=](Ctx& ctx) { Result r = ctx.run({args, {{"in", vi.text()}, {"known", knownFacetsText(rows, vi.names)}}}); ctx.tag("known=" + std::to_string(rows.size())); return judgeFacets(fr, r, vi.d, vi.names); });
      }
   });
}
static std::string knownVerticesText(const Mat& g, int order) {
   std::string v, r; for (auto& x : g) (x.back() ? v : r) += pointText(x) + "\n";
   std::string s; if (order == 0) { if (!v.empty()) s += "Vertices\n" + v; if (!r.empty()) s += "Rays\n" + r; } else { if (!r.empty()) s += "Rays\n" + r; if (!v.empty()) s += "Vertices\n" + v; }
   return s;
}
static void caseKnownVertices(Emitter& em, const HInput& h, const std::vector<std::vector<std::string>>& argsets) {
   auto er = ref::extremeRays(h.cone(), h.d + 1);
   bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true;
   if (!er.pointed || !hasVertex) return;
   Mat all(er.rays.begin(), er.rays.end());
   choices(all.size(), [&](const std::vector<int>& c) {
      for (Z k : {1, 2}) for (int rev = 0; rev < 2; ++rev) for (auto& a : argsets) {
         if (!em.want()) continue;
         Mat rows; for (int i : c) { Vec g = all[size_t(i)]; if (g.back() == 0) for (Z& x : g) x *= k; rows.push_back(g); } if (rev) std::reverse(rows.begin(), rows.end());
         HInput hi = h; auto args = a; auto rays = er.rays; auto txt = knownVerticesText(rows, rev);
         em.exec([=](Ctx& ctx) { Result r = ctx.run({args, {{"in", hi.text()}, {"known", txt}}}); ctx.tag("known=" + std::to_string(rows.size())); return judgeVertices(rays, r, hi.d); });
      }
   });
}
static void caseKnownSym(Emitter& em, const SymCase& sc, const std::vector<std::vector<std::string>>& argsets) {
   VInput v = toInput(sc); FacetRef fr(v.gens(), v.d);
   Mat facets; for (auto& n : fr.cf.normals) { Mask m; fr.classify(n, m); if (fr.facets.count(m)) facets.push_back(n); }
   if (facets.empty()) return;
   choices(facets.size() > 4 ? 4 : facets.size(), [&](const std::vector<int>& c) {
      for (unsigned var = 0; var < (fr.cf.equations.empty() ? 1u : 4u); ++var) for (auto& a : argsets) {
         if (!em.want()) continue;
         Mat rows; for (int i : c) rows.push_back(combo(facets[size_t(i)], 1, fr.cf.equations, var));
         auto args = a; SymCase s = sc;
         em.exec([=](Ctx& ctx) { Result r = ctx.run({args, {{"in", v.text()}, {"known", knownFacetsText(rows, v.names)}}}); ctx.tag("known=" + std::to_string(rows.size())); return judgeReducedFacets(fr, s, r, v.names); });
      }
   });
}
void addKnownProps(std::vector<Property>& out) {
   Property p; p.id = "known-data";
   const std::vector<std::vector<std::string>> one{{"-t", "1", "-k", "known", "in"}}, more{{"-t", "1", "-k", "known", "in"}, {"-t", "2", "-k", "known", "in"}}, spell{{"-t", "1", "-k", "known", "in"}, {"-t", "1", "in", "-k=known"}, {"--known-data=known", "in", "-t", "2"}, {"in", "--known-facets=known"}, {"-m", "dd", "-k", "known", "in"}}, spellV{{"-t", "1", "-k", "known", "in"}, {"-t", "1", "in", "-k=known"}, {"--known-data=known", "in", "-t", "2"}, {"in", "--known-vertices=known"}, {"-m", "dd", "-k", "known", "in"}};
   auto V = [](std::function<void(VSink)> g, std::vector<std::vector<std::string>> a, unsigned variants) { return [=](Emitter& em) { g([&](const VInput& v) { caseKnownFacets(em, v, a, variants); VInput n = v; n.names = defaultNames(v.d); caseKnownFacets(em, n, a, variants); }); }; };
   p.families.push_back({"facets", "representative V-descriptions, unnamed and named: every non-empty subset of the facets (all subsets up to 6 facets; beyond that singles, pairs, all, all but one), primitive and scaled, in both orders, shifted by multiples of the equations; 1 and 2 threads", false, V([](VSink s) { for (auto& v : vReps()) s(v); }, more, 4)});
   p.families.push_back({"flat", "d=3: every affinely dependent subset of 2..4 points of {0,1}^3 and of 2..3 points of {-1,0,2}^3: subsets of the facets, 4 representations modulo the equations", false, V([](VSink s) { auto f = [&](const VInput& v) { if (ref::rank(v.gens()) < 4) s(v); }; vSubsets(3, gridPoints(3, 0, 1), 2, 4, f); vSubsets(3, gridPoints(3, {{-1,1},{0,1},{2,1}}), 2, 2, f); }, one, 4)});
   p.families.push_back({"rays", "d=2: 1..2 vertices of {0,1}^2, 1..2 rays out of 8", false, V([](VSink s) { vRays(2, gridPoints(2, 0, 1), 1, 2, directions(2, 1), 1, 2, s); }, one, 4)});
   p.families.push_back({"spellings", "all spellings of the option, and the double description method", false, V([](VSink s) { s(cube(3)); s(simplex(2)); s(cyclic(2, 5)); s(permutahedron(3)); }, spell, 4)});
   auto H = [](std::function<void(HSink)> g, std::vector<std::vector<std::string>> a) { return [=](Emitter& em) { g([&](const HInput& h) { caseKnownVertices(em, h, a); }); }; };
   p.families.push_back({"vertices", "representative H-descriptions: every non-empty subset of the vertices and extreme rays, both section orders", false, H([](HSink s) { for (auto& h : hReps()) s(h); }, more)});
   p.families.push_back({"vertices-frac", "d=2: every pair of cuts of the square by rows with coefficients up to 2 (fractional vertices)", false, H([](HSink s) { HInput b; b.d = 2; b.ineqs = {{1,0,-2},{-1,0,-1},{0,1,-2},{0,-1,-1}}; Mat rows; for (auto n : directions(2, 2)) for (int r : {1, 2}) { Vec q = n; q[2] = -r; rows.push_back(q); } subsets(int(rows.size()), 1, 1, [&](const std::vector<int>& c) { HInput h = b; for (int i : c) h.ineqs.push_back(rows[size_t(i)]); s(h); }); }, one)});
   p.families.push_back({"vertices-spellings", "all spellings of the option, and the double description method", false, H([](HSink s) { auto l = hReps(); for (size_t i = 0; i < l.size(); i += 5) s(l[i]); }, spellV)});
   auto S = [=](std::function<void(SymSink)> g) { return [=](Emitter& em) { g([&](const SymCase& s) { caseKnownSym(em, s, one); }); }; };
   p.families.push_back({"maps-plane", "with maps, d=2: orbits of 1..2 seeds under 21 maps, subsets of up to 4 facets", false, S([](SymSink s) { int k = 0; symPlane([&](const SymCase& c) { if (k++ % 3 == 0) s(c); }, 2, false); })});
   p.families.push_back({"maps-central", "with maps: segments and flat sets with arbitrary equations under a point reflection (every 7th)", false, S([](SymSink s) { int k = 0; symCentral([&](const SymCase& c) { if (k++ % 7 == 0) s(c); }); })});
   p.families.push_back({"maps-central-all", "the same, all of them", true, S([](SymSink s) { symCentral(s); })});
   p.families.push_back({"maps-classic", "with maps: classic polytopes", false, S([](SymSink s) { symClassic(s); })});
   out.push_back(p);
}
} // namespace mc
