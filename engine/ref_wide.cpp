// Gaussian elimination of the reference model with arbitrary precision, used where 128 bits do not suffice for intermediate results.
#include "ref.hpp"
#include <boost/multiprecision/cpp_int.hpp>
namespace ref {
typedef boost::multiprecision::cpp_int W;
static W toW(Z z) { bool n = z < 0; unsigned __int128 u = n ? -(unsigned __int128)z : (unsigned __int128)z; W w = W(uint64_t(u >> 64)); w <<= 64; w += W(uint64_t(u)); return n ? W(-w) : w; }
static Z toZ(const W& w) { W a = abs(w); if (a >> 126 != 0) { std::fprintf(stderr, "reference model overflow\n"); std::abort(); } Z z = Z((unsigned __int128)(static_cast<uint64_t>(W(a >> 64))) << 64 | static_cast<uint64_t>(W(a & W(0xffffffffffffffffull)))); return w < 0 ? -z : z; }
std::vector<int> echelonWide(Mat& m) {
   std::vector<std::vector<W>> a; for (auto& r : m) { std::vector<W> q; for (Z z : r) q.push_back(toW(z)); a.push_back(q); }
   auto prim = [](std::vector<W>& r) { W g = 0; for (auto& x : r) g = gcd(g, x); if (g > 1) for (auto& x : r) x /= g; };
   std::vector<int> piv; size_t row = 0, cols = m.empty() ? 0 : m[0].size();
   for (size_t c = 0; c < cols && row < a.size(); ++c) {
      size_t p = row; while (p < a.size() && a[p][c] == 0) ++p;
      if (p == a.size()) continue;
      std::swap(a[p], a[row]); prim(a[row]);
      for (size_t r = 0; r < a.size(); ++r) { if (r == row || a[r][c] == 0) continue; W f = a[r][c], h = a[row][c]; for (size_t k = 0; k < cols; ++k) a[r][k] = a[r][k] * h - a[row][k] * f; prim(a[r]); }
      piv.push_back(int(c)); ++row;
   }
   m.clear(); for (size_t i = 0; i < row; ++i) { Vec v; for (auto& x : a[i]) v.push_back(toZ(x)); m.push_back(v); }
   return piv;
}
} // namespace ref
