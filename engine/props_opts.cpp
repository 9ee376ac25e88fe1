#include "props.hpp"
#include "reps.hpp"
namespace mc {

static const std::vector<std::string> kSort{"", "lex_asc", "lexicographic_ascending", "lex_desc", "lexicographic_descending", "nz_asc", "nonzero_ascending", "nz_desc", "nonzero_descending", "rev", "reverse"};
static const std::vector<std::string> kInt{"", "16", "32", "64", "safe", "inf"};

static void optionArgs(const std::function<void(const std::vector<std::string>&)>& f, bool full) {
   for (std::string m : {"ad", "dd"}) for (auto& s : kSort) for (auto& i : kInt) for (std::string t : {"1", "2", "3", ""}) {
      if (!full && s.size() > 8) continue;            // long spellings only in the reduced product below
      std::vector<std::string> a;
      if (m == "dd") { a.push_back("-m"); a.push_back("dd"); if (t != "1") continue; } else if (!t.empty()) { a.push_back("-t"); a.push_back(t); }
      if (!s.empty()) { a.push_back("-s"); a.push_back(s); }
      if (!i.empty()) { a.push_back("-i"); a.push_back(i); }
      a.push_back("in");
      f(a);
   }
}

static Property optionIndependence() {
   Property p; p.id = "option-independence";
   p.families.push_back({"facets", "representative V-descriptions x {ad with 1/2/3/default threads, dd} x 6 orders x 6 integer types, judged by the reference", false, [](Emitter& em) {
      for (auto& v : vReps()) optionArgs([&](const std::vector<std::string>& a) { caseFacets(em, v, a); }, false); }});
   p.families.push_back({"vertices", "representative H-descriptions x the same options", false, [](Emitter& em) {
      for (auto& h : hReps()) optionArgs([&](const std::vector<std::string>& a) { caseVertices(em, h, a); }, false); }});
   p.families.push_back({"spellings", "all spellings of the options on a few inputs", false, [](Emitter& em) {
      std::vector<VInput> vs{cross(3), permutahedron(3), cyclic(2, 6, -3)};
      for (auto& v : vs) {
         optionArgs([&](const std::vector<std::string>& a) { caseFacets(em, v, a); }, true);
         for (auto& s : kSort) for (auto& i : kInt) for (std::string m : {"", "--method=ad", "--method=adjacency-decomposition", "--method=dd", "--method=double-description"}) for (std::string t : {"", "--threads=1", "--threads=2"}) {
            if (!t.empty() && m.find("d") != std::string::npos && m.find("adj") == std::string::npos && m != "--method=ad") continue;
            std::vector<std::string> a{"in"};
            if (!s.empty()) a.push_back("--sorting=" + s);
            if (!i.empty()) a.push_back("--integer-type=" + i);
            if (!m.empty()) a.push_back(m);
            if (!t.empty()) a.push_back(t);
            caseFacets(em, v, a);
         }
      } }});
   p.families.push_back({"scale", "each order and method on larger vertex and facet sets (cyclic, permutahedron, random-looking lattice polygons)", false, [](Emitter& em) {
      std::vector<VInput> vs{cyclic(4, 9, -4), permutahedron(4), cyclic(2, 40, -20), linearOrdering(4), cutPolytope(4), cross(5), cube(4)};
      for (auto& v : vs) optionArgs([&](const std::vector<std::string>& a) { for (auto& x : a) if (x == "16") return; VInput w = v; caseFacets(em, w, a); }, false); }});
   return p;
}

static Property rowOrder() {
   Property p; p.id = "row-order";
   auto perms = [](Emitter& em, const VInput& v, size_t maxRows) {
      if (v.verts.size() + v.rays.size() > maxRows) return;
      std::vector<int> pv(v.verts.size()), pr(v.rays.size());
      for (size_t i = 0; i < pv.size(); ++i) pv[i] = int(i);
      do { for (size_t i = 0; i < pr.size(); ++i) pr[i] = int(i);
         do { VInput w = v; w.verts = pick(v.verts, pv); w.rays = pick(v.rays, pr); caseFacets(em, w, {"-t", "1", "in"}); caseFacets(em, w, {"-m", "dd", "in"}); } while (std::next_permutation(pr.begin(), pr.end()));
      } while (std::next_permutation(pv.begin(), pv.end()));
   };
   p.families.push_back({"permutations", "every order of the rows of representative V-descriptions (up to 5 rows; 6 for octahedron, triangular prism and hexagon), both methods", false, [perms](Emitter& em) {
      for (auto& v : vReps()) perms(em, v, 5);
      perms(em, cross(3), 6); perms(em, permutahedron(3), 6); VInput pr; pr.d = 3; pr.verts = {{0,0,0,1},{1,0,0,1},{0,1,0,1},{0,0,1,1},{1,0,1,1},{0,1,1,1}}; perms(em, pr, 6); }});
   p.families.push_back({"duplicates", "every representative V-description with every row repeated at every position, both methods", false, [](Emitter& em) {
      for (auto& v : vReps()) {
         for (size_t i = 0; i < v.verts.size(); ++i) for (size_t j = 0; j <= v.verts.size(); ++j) { VInput w = v; w.verts.insert(w.verts.begin() + long(j), v.verts[i]); caseFacets(em, w, {"-t", "1", "in"}); caseFacets(em, w, {"-m", "dd", "in"}); }
         for (size_t i = 0; i < v.rays.size(); ++i) for (size_t j = 0; j <= v.rays.size(); ++j) { VInput w = v; Vec r = v.rays[i]; for (Z& x : r) x *= Z(j + 1); w.rays.insert(w.rays.begin() + long(j), r); caseFacets(em, w, {"-t", "1", "in"}); caseFacets(em, w, {"-m", "dd", "in"}); }
      } }});
   p.families.push_back({"many-equal-rows", "a triangle, a pyramid, a square with a ray and their H-descriptions with one row repeated up to n times, n in {8, 15..18, 31..34, 64, 128, 500}, first, last or spread, x every order option and both methods", false, [](Emitter& em) {
      std::vector<VInput> vs(3); vs[0].d = 2; vs[0].verts = {{0,0,1},{1,0,1},{0,3,2}}; vs[1].d = 3; vs[1].verts = {{0,0,0,1},{1,0,0,1},{0,1,0,1},{1,1,0,1},{0,0,1,1}}; vs[2].d = 2; vs[2].verts = {{0,0,1},{1,0,1}}; vs[2].rays = {{1,2,0},{-1,2,0}};
      std::vector<HInput> hs; for (auto& v : vs) { HInput h; h.d = v.d; h.ineqs = ref::coneFacets(v.gens(), v.d + 1).normals; hs.push_back(h); }
      auto rep = [](Mat m, size_t k, int n, int mode) { Mat r; if (mode == 0) r.assign(size_t(n), m[k]); for (size_t i = 0; i < m.size(); ++i) { r.push_back(m[i]); if (mode == 2) for (int j = 0; j < n; j += int(m.size())) r.push_back(m[k]); } if (mode == 1) for (int j = 0; j < n; ++j) r.push_back(m[k]); return r; };
      for (int n : {8, 15, 16, 17, 18, 31, 32, 33, 34, 64, 128, 500}) for (auto& so : kSort) { if (so.size() > 8) continue; for (std::string meth : {"ad", "dd"}) for (int mode = 0; mode < 3; ++mode) {
         std::vector<std::string> a{"-m", meth, "-t", "1"}; if (meth == "dd") a = {"-m", "dd"}; if (!so.empty()) { a.push_back("-s"); a.push_back(so); } a.push_back("in");
         for (auto& v : vs) { for (size_t k = 0; k < v.verts.size(); k += 2) { VInput w = v; w.verts = rep(v.verts, k, n, mode); caseFacets(em, w, a); } if (!v.rays.empty()) { VInput w = v; w.rays = rep(v.rays, 0, n, mode); caseFacets(em, w, a); } }
         for (auto& h : hs) for (size_t k = 0; k < h.ineqs.size(); k += 2) { HInput w = h; w.ineqs = rep(h.ineqs, k, n, mode); caseVertices(em, w, a); }
      } } }});
   auto hperms = [](Emitter& em, const HInput& h, size_t maxRows) {
      if (h.ineqs.size() > maxRows) return;
      std::vector<int> q(h.ineqs.size()); for (size_t i = 0; i < q.size(); ++i) q[i] = int(i);
      do { HInput w = h; w.ineqs = pick(h.ineqs, q); caseVertices(em, w, {"-t", "1", "in"}); caseVertices(em, w, {"-m", "dd", "in"}); } while (std::next_permutation(q.begin(), q.end()));
   };
   p.families.push_back({"row-permutations", "every order of the rows of representative H-descriptions (up to 5 rows, 6 for the cube), both methods", false, [hperms](Emitter& em) {
      auto l = hReps(); for (auto& h : l) hperms(em, h, 5);
      HInput c; c.d = 3; c.ineqs = ref::coneFacets(cube(3).verts, 4).normals; hperms(em, c, 6); }});
   p.families.push_back({"row-duplicates", "every representative H-description with every row repeated and scaled at every position", false, [](Emitter& em) {
      for (auto& h : hReps()) for (size_t i = 0; i < h.ineqs.size(); ++i) for (size_t j = 0; j <= h.ineqs.size(); ++j) { HInput w = h; Vec r = h.ineqs[i]; for (Z& x : r) x *= Z(j % 3 + 1); w.ineqs.insert(w.ineqs.begin() + long(j), r); caseVertices(em, w, {"-t", "1", "in"}); caseVertices(em, w, {"-m", "dd", "in"}); } }});
   return p;
}

// output -> input again
static void caseRoundTripV(Emitter& em, const VInput& v, const std::vector<std::string>& a1, const std::vector<std::string>& a2) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      FacetRef fr(v.gens(), v.d);
      // extreme generators (reference); polyhedron must be pointed for its vertices to exist
      Mat rows = fr.cf.normals; for (auto& e : fr.cf.equations) { rows.push_back(e); Vec n = e; for (Z& x : n) x = -x; rows.push_back(n); }
      auto er = ref::extremeRays(rows, v.d + 1);
      if (!er.pointed) { c.tag("skipped: lineality"); return ""; }
      Result r1 = c.run({a1, {{"in", v.text()}}});
      if (!r1.ok()) return "first conversion ended with " + r1.status();
      auto o = parseFacetOut(r1.out, v.d, v.names); if (!o.err.empty()) return o.err;
      if (o.ineqs.empty()) { c.tag("single point"); if (!(er.rays.size() == 1)) return "no inequalities"; }
      std::string text; if (!v.names.empty()) text = "Names\n" + v.names + "\n";
      std::string body = r1.out; // the output must be readable as input as it stands (section headings with a colon)
      Result r2 = c.run({a2, {{"in", text + body}}});
      if (o.ineqs.empty()) return "";
      return judgeVertices(er.rays, r2, v.d);
   });
}
static void caseRoundTripH(Emitter& em, const HInput& h, const std::vector<std::string>& a1, const std::vector<std::string>& a2, bool dd) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      auto er = ref::extremeRays(h.cone(), h.d + 1);
      bool hasVertex = false; for (auto& v : er.rays) if (v.back() > 0) hasVertex = true;
      if (!er.pointed || !hasVertex) { c.tag("skipped"); return ""; }
      Result r1 = c.run({a1, {{"in", h.text()}}});
      if (!r1.ok()) return "first conversion ended with " + r1.status();
      auto o = parseVertexOut(r1.out, h.d); if (!o.err.empty()) return o.err;
      std::string text;
      if (dd) text = r1.out; // separate sections, readable as they stand
      else { VInput v; v.d = h.d; for (auto& g : o.gens) (g.back() ? v.verts : v.rays).push_back(g); text = v.text(); }
      Result r2 = c.run({a2, {{"in", text}}});
      Mat gens(er.rays.begin(), er.rays.end());
      FacetRef fr(gens, h.d);
      return judgeFacets(fr, r2, h.d, "");
   });
}
static Property roundTrip() {
   Property p; p.id = "round-trip";
   std::vector<std::vector<std::string>> as{{"-t", "1", "in"}, {"-m", "dd", "in"}};
   auto V = [as](std::function<void(VSink)> g) { return [g, as](Emitter& em) { g([&](const VInput& v) { for (auto& a : as) for (auto& b : as) { caseRoundTripV(em, v, a, b); } }); }; };
   auto H = [as](std::function<void(HSink)> g) { return [g, as](Emitter& em) { g([&](const HInput& v) { for (size_t i = 0; i < 2; ++i) for (auto& b : as) caseRoundTripH(em, v, as[i], b, i == 1); }); }; };
   p.families.push_back({"v-h-v", "representative V-descriptions, unnamed and named: facet enumeration output fed back verbatim, all four method combinations", false, V([](VSink s) { for (auto& v : vReps()) { s(v); VInput n = v; n.names = defaultNames(v.d); s(n); } })});
   p.families.push_back({"v-h-v-grid", "every non-empty subset of {-1,0,1}^2 and of {0,1}^3 (unnamed), same", false, V([](VSink s) { vSubsets(2, gridPoints(2, -1, 1), 1, 9, s); vSubsets(3, gridPoints(3, 0, 1), 1, 8, s); })});
   p.families.push_back({"v-h-v-rays", "d=2: one vertex or segment with up to 2 rays, same", false, V([](VSink s) { vRays(2, gridPoints(2, {{0,1},{1,2},{1,1}}), 1, 2, directions(2, 1), 1, 2, s); })});
   p.families.push_back({"h-v-h", "representative H-descriptions: vertex enumeration output fed back", false, H([](HSink s) { for (auto& h : hReps()) s(h); })});
   p.families.push_back({"h-v-h-cuts", "[0,1]^3 with up to one cut / [-1,2]^2 with up to two cuts", false, H([](HSink s) {
      HInput b; b.d = 2; b.ineqs = {{1,0,-2},{-1,0,-1},{0,1,-2},{0,-1,-1}};
      Mat rows; for (auto n : directions(2, 2)) for (int r : {-1, 0, 1, 2}) { Vec q = n; q[2] = -r; rows.push_back(q); }
      subsets(int(rows.size()), 0, 2, [&](const std::vector<int>& c) { HInput h = b; for (int i : c) h.ineqs.push_back(rows[i]); s(h); }); })});
   return p;
}

static Property lowestTerms() {
   Property p; p.id = "lowest-terms";
   auto V = [](std::function<void(VSink)> g) { return [g](Emitter& em) { g([&](const VInput& v) {
      if (!em.want()) return;
      VInput vi = v;
      em.exec([vi](Ctx& c) -> std::string {
         std::set<Vec> rows[2]; std::set<Vec> eqs[2];
         for (int m = 0; m < 2; ++m) {
            Result r = c.run({m ? std::vector<std::string>{"-m", "dd", "in"} : std::vector<std::string>{"-t", "1", "in"}, {{"in", vi.text()}}});
            if (!r.ok()) return "program ended with " + r.status();
            auto o = parseFacetOut(r.out, vi.d, vi.names); if (!o.err.empty()) return o.err;
            for (auto& x : o.ineqs) { if (ref::content(x) != 1) return "inequality not in lowest terms: " + ref::str(x); rows[m].insert(x); }
            for (auto& x : o.eqs) { if (ref::content(x) != 1) return "equation not in lowest terms: " + ref::str(x); eqs[m].insert(x); }
         }
         if (eqs[0] != eqs[1]) return "the two methods print different equations";
         if (rows[0] != rows[1]) return "the two methods print different inequalities";
         return "";
      }); }); }; };
   p.families.push_back({"grid3x3", "d=2: every non-empty subset of {-1,0,1}^2, unnamed and named", false, V([](VSink s) { vSubsets(2, gridPoints(2, -1, 1), 1, 9, s); vSubsets(2, gridPoints(2, -1, 1), 1, 6, s, true); })});
   p.families.push_back({"fractions", "d=2: up to 3 points with coordinates in {-2/3,0,1/3,1/2,1,4}", false, V([](VSink s) { vSubsets(2, gridPoints(2, {{-2,3},{0,1},{1,3},{1,2},{1,1},{4,1}}), 1, 3, s); })});
   p.families.push_back({"coarse", "d=2,3: up to 4 points of grids with non-coprime coordinates {0,2,6}^2, {0,4}^3, {0,3,6}^3", false, V([](VSink s) { vSubsets(2, gridPoints(2, {{0,1},{2,1},{6,1}}), 1, 5, s); vSubsets(3, gridPoints(3, {{0,1},{4,1}}), 1, 8, s); vSubsets(3, gridPoints(3, {{0,1},{3,1},{6,1}}), 1, 3, s); })});
   p.families.push_back({"planes", "d=3: every subset of 1..4 points of {-1,0,1}^3 (lower-dimensional ones included: the normal form modulo the equations must agree between methods)", false, V([](VSink s) { vSubsets(3, gridPoints(3, -1, 1), 1, 4, s); })});
   p.families.push_back({"rays", "d=2,3: vertices with up to two rays, also given with a common factor", false, V([](VSink s) { vRays(2, gridPoints(2, 0, 1), 1, 2, directions(2, 2), 1, 2, [&](const VInput& v) { s(v); VInput w = v; for (auto& r : w.rays) for (Z& x : r) x *= 6; s(w); }); vRays(3, gridPoints(3, 0, 1), 1, 1, directions(3, 1), 1, 2, s); })});
   p.families.push_back({"cube4", "d=4: every subset of 1..5 points of {0,1}^4", false, V([](VSink s) { vSubsets(4, gridPoints(4, 0, 1), 1, 5, s); })});
   auto H = [](std::function<void(HSink)> g) { return [g](Emitter& em) { g([&](const HInput& v) {
      if (!em.want()) return;
      HInput hi = v;
      em.exec([hi](Ctx& c) -> std::string {
         auto er = ref::extremeRays(hi.cone(), hi.d + 1);
         bool hasVertex = false; for (auto& x : er.rays) if (x.back() > 0) hasVertex = true;
         if (!er.pointed || !hasVertex) { c.tag("skipped"); return ""; }
         std::set<Vec> rows[2];
         for (int m = 0; m < 2; ++m) {
            Result r = c.run({m ? std::vector<std::string>{"-m", "dd", "in"} : std::vector<std::string>{"-t", "1", "in"}, {{"in", hi.text()}}});
            if (!r.ok()) return "program ended with " + r.status();
            auto o = parseVertexOut(r.out, hi.d); if (!o.err.empty()) return o.err;
            for (auto& x : o.gens) { if (ref::content(x) != 1 || x.back() < 0) return "vertex or ray not in lowest terms: " + ref::str(x); rows[m].insert(x); }
         }
         if (rows[0] != rows[1]) return "the two methods print different vertices or rays";
         return "";
      }); }); }; };
   p.families.push_back({"vertices", "representative H-descriptions and every H-description with rows scaled by 1..6", false, H([](HSink s) { for (auto& h : hReps()) { s(h); for (int k = 2; k <= 6; ++k) { HInput w = h; for (size_t i = 0; i < w.ineqs.size(); ++i) for (Z& x : w.ineqs[i]) x *= Z(1 + (i + size_t(k)) % size_t(k)); s(w); } } })});
   p.families.push_back({"vertices-frac", "d=2: every triple of rows with coefficients up to 3 around the origin (fractional vertices)", false, H([](HSink s) { Mat rows; for (auto n : directions(2, 3)) { Vec q = n; q[2] = -1; rows.push_back(q); } subsets(int(rows.size()), 3, 3, [&](const std::vector<int>& c) { HInput h; h.d = 2; h.ineqs = pick(rows, c); s(h); }); })});
   return p;
}

void addOptProps(std::vector<Property>& out) { out.push_back(optionIndependence()); out.push_back(rowOrder()); out.push_back(roundTrip()); out.push_back(lowestTerms()); }
} // namespace mc
