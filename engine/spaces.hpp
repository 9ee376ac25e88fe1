// Enumerated input spaces.
#pragma once
#include "io.hpp"

namespace mc {

typedef std::function<void(const VInput&)> VSink;
typedef std::function<void(const HInput&)> HSink;

inline Mat gridPoints(int d, const std::vector<std::pair<int,int>>& values /* num/den */) {
   Mat out; std::vector<size_t> idx(d, 0);
   while (true) {
      Z l = 1; for (int i = 0; i < d; ++i) l = ref::lcm(l, values[idx[i]].second);
      Vec v; for (int i = 0; i < d; ++i) v.push_back(Z(values[idx[i]].first) * (l / values[idx[i]].second));
      v.push_back(l); out.push_back(v);
      int i = d - 1; while (i >= 0 && ++idx[i] == values.size()) { idx[i] = 0; --i; }
      if (i < 0) break;
   }
   return out;
}
inline Mat gridPoints(int d, int lo, int hi) { std::vector<std::pair<int,int>> v; for (int i = lo; i <= hi; ++i) v.push_back({i, 1}); return gridPoints(d, v); }
// all primitive directions with entries in [-k,k], homogeneous (last 0)
inline Mat directions(int d, int k) {
   Mat out; for (auto p : gridPoints(d, -k, k)) { p.back() = 0; if (ref::isZero(p) || ref::content(p) != 1) continue; out.push_back(p); } return out;
}
inline Mat pick(const Mat& m, const std::vector<int>& c) { Mat r; for (int i : c) r.push_back(m[i]); return r; }
inline void subsets(int n, int kmin, int kmax, const std::function<void(const std::vector<int>&)>& f) {
   for (int k = kmin; k <= kmax && k <= n; ++k) { if (k == 0) { f({}); continue; } ref::combos(n, k, [&](const std::vector<int>& c) { f(c); return true; }); }
}

inline void vSubsets(int d, const Mat& pts, int kmin, int kmax, const VSink& sink, bool named = false) {
   subsets(int(pts.size()), kmin, kmax, [&](const std::vector<int>& c) { VInput v; v.d = d; v.verts = pick(pts, c); if (named) v.names = defaultNames(d); sink(v); });
}
inline void vRays(int d, const Mat& pts, int vmin, int vmax, const Mat& dirs, int rmin, int rmax, const VSink& sink) {
   subsets(int(pts.size()), vmin, vmax, [&](const std::vector<int>& c) {
      subsets(int(dirs.size()), rmin, rmax, [&](const std::vector<int>& e) { VInput v; v.d = d; v.verts = pick(pts, c); v.rays = pick(dirs, e); sink(v); });
   });
}

// classic polytopes in dimension d
inline VInput cube(int d) { VInput v; v.d = d; v.verts = gridPoints(d, 0, 1); return v; }
inline VInput cross(int d) { VInput v; v.d = d; for (int i = 0; i < d; ++i) for (int s = -1; s <= 1; s += 2) { Vec p(d + 1, 0); p[i] = s; p[d] = 1; v.verts.push_back(p); } return v; }
inline VInput simplex(int d) { VInput v; v.d = d; for (int i = 0; i <= d; ++i) { Vec p(d + 1, 0); if (i < d) p[i] = 1; p[d] = 1; v.verts.push_back(p); } return v; }
inline VInput cyclic(int d, int n, int from = 0) { VInput v; v.d = d; for (int t = from; t < from + n; ++t) { Vec p; Z x = 1; for (int i = 0; i < d; ++i) { x *= t; p.push_back(x); } p.push_back(1); v.verts.push_back(p); } return v; }
inline VInput birkhoff(int n) { VInput v; v.d = n * n; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; do { Vec r(n * n + 1, 0); for (int i = 0; i < n; ++i) r[i * n + p[i]] = 1; r[n * n] = 1; v.verts.push_back(r); } while (std::next_permutation(p.begin(), p.end())); return v; }
inline VInput permutahedron(int n) { VInput v; v.d = n; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i + 1; do { Vec r; for (int x : p) r.push_back(x); r.push_back(1); v.verts.push_back(r); } while (std::next_permutation(p.begin(), p.end())); return v; }
// linear ordering polytope on n items (variables x_ij, i<j)
inline VInput linearOrdering(int n) { VInput v; v.d = n * (n - 1) / 2; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; do { Vec r; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) r.push_back(p[i] < p[j] ? 1 : 0); r.push_back(1); v.verts.push_back(r); } while (std::next_permutation(p.begin(), p.end())); return v; }
inline VInput cutPolytope(int n) { VInput v; v.d = n * (n - 1) / 2; for (int s = 0; s < (1 << (n - 1)); ++s) { Vec r; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) r.push_back(((s >> i) & 1) != ((s >> j) & 1)); r.push_back(1); v.verts.push_back(r); } return v; }

inline Mat redundantRows(const Mat& rows, int d, int n, int kind) { // 0: the first rows again; 1: positive combinations of two rows with slack
   Mat f;
   for (int i = 0; i < n; ++i) {
      if (kind == 0) { f.push_back(rows[size_t(i) % rows.size()]); continue; }
      size_t p = size_t(i) % rows.size(), q = (p + 1 + size_t(i) / rows.size() % (rows.size() - 1)) % rows.size(); Z x = 1 + i / 7 % 5, y = i % 3; Vec r(size_t(d) + 1);
      for (int j = 0; j <= d; ++j) r[size_t(j)] = x * rows[p][size_t(j)] + y * rows[q][size_t(j)]; r.back() -= i % 11; f.push_back(r);
   }
   return f;
}

} // namespace mc
