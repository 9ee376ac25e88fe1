// Exactness of whole conversions with numbers that leave the range of the fixed width types.
#include "props.hpp"
#include "reps.hpp"
namespace mc {
enum Mode { INF, SAFE, W64 };
static bool big(const Vec& v) { for (Z x : v) if (x > 2147483647 || x < -2147483647) return true; return false; }
// judged: an accepted run must print the exact result; a refusal is legitimate for safe (overflow), and for inf only if some number of the result itself does not fit into the printable range
static void caseBigFacets(Emitter& em, const VInput& v, Mode m, const std::string& method, bool named) {
   if (!em.want()) return;
   VInput w = v; if (named) w.names = defaultNames(v.d);
   em.exec([w, m, method](Ctx& c) -> std::string {
      FacetRef fr(w.gens(), w.d);
      std::vector<std::string> a{"-i", m == INF ? "inf" : m == SAFE ? "safe" : "64"}; if (method == "dd") { a.push_back("-m"); a.push_back("dd"); } else { a.push_back("-t"); a.push_back("1"); } a.push_back("in");
      Result r = c.run({a, {{"in", w.text()}}});
      bool large = !fr.cf.equations.empty(); for (auto& n : fr.cf.normals) if (big(n)) large = true; // with equations the form of the rows is not unique
      if (r.ok()) { c.tag(large ? "exact, beyond int" : "exact"); return judgeFacets(fr, r, w.d, w.names); }
      if (m == SAFE) { c.tag("refused"); return r.rejected() ? "" : "program ended with " + r.status(); }
      if (m == INF && large && r.rejected()) { c.tag("refused: result does not fit"); return ""; }
      return "program ended with " + r.status();
   });
}
static void caseBigVertices(Emitter& em, const HInput& h, Mode m, const std::string& method) {
   if (!em.want()) return;
   HInput w = h;
   em.exec([w, m, method](Ctx& c) -> std::string {
      auto er = ref::extremeRays(w.cone(), w.d + 1); bool hasVertex = false, large = false; for (auto& v : er.rays) { if (v.back() > 0) hasVertex = true; if (big(v)) large = true; }
      if (!er.pointed || !hasVertex) { c.tag("skipped: polyhedron without vertex"); return ""; }
      std::vector<std::string> a{"-i", m == INF ? "inf" : m == SAFE ? "safe" : "64"}; if (method == "dd") { a.push_back("-m"); a.push_back("dd"); } else { a.push_back("-t"); a.push_back("1"); } a.push_back("in");
      Result r = c.run({a, {{"in", w.text()}}});
      if (r.ok()) { c.tag(large ? "exact, beyond int" : "exact"); return judgeVertices(er.rays, r, w.d); }
      if (m == SAFE) { c.tag("refused"); return r.rejected() ? "" : "program ended with " + r.status(); }
      if (m == INF && large && r.rejected()) { c.tag("refused: result does not fit"); return ""; }
      return "program ended with " + r.status();
   });
}
static void stretched(int d, int kmin, int kmax, const std::vector<Z>& factors, const std::vector<Z>& shifts, const VSink& s) { // x_i -> f_i x_i + t, every combination of factor for the first axis and shift
   auto p = gridPoints(d, 0, d == 2 ? 2 : 1);
   for (Z f : factors) for (Z t : shifts) subsets(int(p.size()), kmin, kmax, [&](const std::vector<int>& c) { VInput v; v.d = d; v.verts = pick(p, c); for (auto& x : v.verts) for (int i = 0; i < d; ++i) x[size_t(i)] = x[size_t(i)] * (f - i) + (i % 2 ? -t : t); s(v); });
}
// 64 bit only with double description, whose intermediate results stay small enough
static std::vector<std::string> methods(Mode m) { return m == W64 ? std::vector<std::string>{"dd"} : std::vector<std::string>{"ad", "dd"}; }
static std::vector<Family> arithFamilies(Mode m) {
   std::vector<Family> f; std::string n = m == INF ? "-i inf" : m == SAFE ? "-i safe" : "-i 64";
   auto V = [m](std::function<void(VSink)> g) { return [g, m](Emitter& em) { g([&](const VInput& v) { for (std::string me : methods(m)) caseBigFacets(em, v, m, me, false); }); }; };
   auto H = [m](std::function<void(HSink)> g) { return [g, m](Emitter& em) { g([&](const HInput& v) { for (std::string me : methods(m)) caseBigVertices(em, v, m, me); }); }; };
   if (m != W64) f.push_back({"polygons", n + ", d=2: every 3..4-subset of {0,1,2}^2 with axes stretched by {999, 46341, 1000003, 2^30-1} and shifted by {0, 1, -40000, 10^9} (as far as the coordinates fit into int), both methods", false, [m](Emitter& em) { stretched(2, 3, 4, {999, 46341, 1000003, 1073741823}, {0, 1, -40000, 1000000000}, [&](const VInput& v) { for (auto& x : v.verts) for (Z y : x) if (y > 2147483647 || y < -2147483647) return; for (std::string me : {"ad", "dd"}) { caseBigFacets(em, v, m, me, false); if (v.verts.size() == 3) caseBigFacets(em, v, m, me, true); } }); }});
   else f.push_back({"triangles", n + ", d=2: every triangle of {0,1,2}^2 with a vertex in the origin, x stretched by {1, 3, 1009} and y by {999983, 1500007} (results beyond 32 bit, all intermediate products far within 64 bit), unnamed and named, method dd", false, [m](Emitter& em) { auto p = gridPoints(2, 0, 2); for (Z f : {1, 3, 1009}) for (Z g : {999983, 1500007}) subsets(9, 3, 3, [&](const std::vector<int>& c) { if (c[0]) return; VInput v; v.d = 2; v.verts = pick(p, c); for (auto& x : v.verts) { x[0] *= f; x[1] *= g; } for (std::string me : {"dd"}) for (bool nm : {false, true}) caseBigFacets(em, v, m, me, nm); }); }});
   if (m != W64) f.push_back({"solids", n + ", d=3: every 4..6-subset of {0,1}^3 stretched by {999, 46341, 1000003, 10^8+7} and shifted by {0, -40000}, both methods", false, V([](VSink s) { stretched(3, 4, 6, {999, 46341, 1000003, 100000007}, {0, -40000}, [&](const VInput& v) { for (auto& x : v.verts) for (Z y : x) if (y > 2147483647 || y < -2147483647) return; s(v); }); })});
   if (m != W64) f.push_back({"lines", n + ", d=1: every pair of points with numerators in {0, +-1, +-46341, +-(2^31-1)} and denominators in {1, 2, 3, 46337}", false, V([](VSink s) { Mat p; for (Z a : {0, 1, -1, 46341, -46341, 2147483647, -2147483647}) for (Z q : {1, 2, 3, 46337}) { if (a == 0 && q > 1) continue; p.push_back({a, q}); } subsets(int(p.size()), 1, 2, [&](const std::vector<int>& c) { VInput v; v.d = 1; v.verts = pick(p, c); s(v); }); })});
   if (m != W64) f.push_back({"vertices-2", n + ", d=2: every triple of rows with coefficients a in {1, -1, 46341, -46343, 2^31-1, -(2^31-1)} x {1, -1, 65537, -65539} and right-hand side in {1, 46337} that has a vertex", false, H([](HSink s) { Mat rows; for (Z a : {1, -1, 46341, -46343, 2147483647, -2147483647}) for (Z b : {1, -1, 65537, -65539}) { Z r = (rows.size() % 2) ? 1 : 46337; rows.push_back({a, b, -r}); } subsets(int(rows.size()), 3, 3, [&](const std::vector<int>& c) { HInput h; h.d = 2; h.ineqs = pick(rows, c); s(h); }); })});
   f.push_back({"vertices-scaled", n + ", d=2,3: boxes and simplices with every row multiplied by {1, 999, 46341} and right-hand sides up to 2*10^9 / 46341", false, H([](HSink s) {
      for (int d = 2; d <= 3; ++d) for (Z k : {1, 999, 46341}) for (Z lo : {-40000, 0, 7}) for (Z hi : {8, 40009}) { HInput h; h.d = d; for (int i = 0; i < d; ++i) { Vec a(size_t(d) + 1, 0), b(size_t(d) + 1, 0); a[size_t(i)] = k; a[size_t(d)] = -hi * k; b[size_t(i)] = -1 - i; b[size_t(d)] = lo; h.ineqs.push_back(a); h.ineqs.push_back(b); } s(h); HInput g = h; Vec t(size_t(d) + 1, k); t[size_t(d)] = -(hi + lo) * k; g.ineqs.push_back(t); s(g); } })});
   if (m == INF) {
      f.push_back({"solids-3x", n + ", d=3: every 4-subset of {0,1,2}^3 with coordinates 10^9 apart in one axis", true, V([](VSink s) { auto p = gridPoints(3, 0, 2); subsets(27, 4, 4, [&](const std::vector<int>& c) { VInput v; v.d = 3; v.verts = pick(p, c); for (auto& x : v.verts) { x[0] = x[0] * 1000000007; x[1] = x[1] * 65537 - 5; x[2] = x[2] * 3; } s(v); }); })});
   }
   return f;
}
void addArithProps(std::vector<Property>& out) {
   out.push_back({"big-integer", arithFamilies(INF)});
   out.push_back({"safe-integer", arithFamilies(SAFE)});
   for (auto& p : out) if (p.id == "option-independence") for (auto& f : arithFamilies(W64)) { f.name = "wide-" + f.name; p.families.push_back(f); }
}
} // namespace mc
