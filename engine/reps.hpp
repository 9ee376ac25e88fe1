// Representative inputs used where the enumerated dimension is not the polyhedron itself.
#pragma once
#include "spaces.hpp"
namespace mc {
// representative V-inputs: bounded / unbounded / lower-dimensional / fractional / redundant
static std::vector<VInput> vReps() {
   std::vector<VInput> l;
   auto add = [&](VInput v) { l.push_back(v); };
   vSubsets(2, gridPoints(2, 0, 1), 1, 4, add);
   vSubsets(2, gridPoints(2, {{0,1},{1,2},{-2,3}}), 3, 3, [&](const VInput& v) { if (l.size() % 3 == 0 || l.size() < 20) l.push_back(v); });
   int k = 0; vRays(2, gridPoints(2, 0, 1), 1, 2, directions(2, 1), 1, 2, [&](const VInput& v) { if (k++ % 17 == 0) l.push_back(v); });
   k = 0; vSubsets(3, gridPoints(3, 0, 1), 4, 8, [&](const VInput& v) { if (k++ % 6 == 0) l.push_back(v); });
   k = 0; vRays(3, gridPoints(3, 0, 1), 1, 2, directions(3, 1), 1, 2, [&](const VInput& v) { if (k++ % 701 == 0) l.push_back(v); });
   l.push_back(cube(3)); l.push_back(cross(3)); l.push_back(cyclic(3, 6, -3)); l.push_back(birkhoff(3)); l.push_back(permutahedron(3)); l.push_back(cross(4)); l.push_back(cutPolytope(4));
   return l;
}
static std::vector<HInput> hReps() {
   std::vector<HInput> l;
   for (auto& v : vReps()) {
      auto g = v.gens(); if (ref::rank(g) < v.d + 1) continue;
      auto cf = ref::coneFacets(g, v.d + 1);
      HInput h; h.d = v.d; for (auto& n : cf.normals) if (!(ref::content(n) == ref::zabs(n.back()) && n.back() != 0 && ref::isZero(Vec(n.begin(), n.end() - 1)))) h.ineqs.push_back(n);
      if (h.ineqs.empty()) continue;
      l.push_back(h);
      if (l.size() % 4 == 0) { HInput e = h; Vec q(h.d + 1, 0); q[0] = 1; q[1] = -1; e.eqs.push_back(q); l.push_back(e); }
      if (l.size() % 3 == 0) { HInput e = h; Vec q = h.ineqs[0]; q.back() -= 1; e.ineqs.push_back(q); l.push_back(e); }
   }
   return l;
}

} // namespace mc
