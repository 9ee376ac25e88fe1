// Independent reference model of polyhedra: exact brute force over subsets of generators / rows.
// It shares no code with the program under test.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ref {

typedef __int128 Z;

struct Overflow {}; // the reference model never computes with a wrapped number
[[noreturn]] inline void refOverflow() { throw Overflow(); }
inline Z mul(Z a, Z b) { Z r; if (__builtin_mul_overflow(a, b, &r)) refOverflow(); return r; }
inline Z add(Z a, Z b) { Z r; if (__builtin_add_overflow(a, b, &r)) refOverflow(); return r; }
inline Z sub(Z a, Z b) { Z r; if (__builtin_sub_overflow(a, b, &r)) refOverflow(); return r; }
inline Z zabs(Z a) { return a < 0 ? -a : a; }
inline Z gcd(Z a, Z b) { a = zabs(a); b = zabs(b); while (b) { Z t = a % b; a = b; b = t; } return a; }
inline Z lcm(Z a, Z b) { return (a == 0 || b == 0) ? 0 : mul(zabs(a) / gcd(a, b), zabs(b)); }
inline std::string str(Z a) {
   if (a == 0) return "0";
   bool neg = a < 0; std::string s;
   while (a != 0) { int d = int(a % 10); if (d < 0) d = -d; s.push_back(char('0' + d)); a /= 10; }
   if (neg) s.push_back('-');
   std::reverse(s.begin(), s.end());
   return s;
}
inline bool parseZ(const std::string& s, Z& out) {
   size_t i = 0; bool neg = false;
   if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
   if (i >= s.size() || s.size() - i > 36) return false;
   Z v = 0;
   for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = add(mul(v, 10), s[i] - '0'); }
   out = neg ? -v : v;
   return true;
}

typedef std::vector<Z> Vec;
typedef std::vector<Vec> Mat;

inline std::string str(const Vec& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ' '; s += str(v[i]); } return s; }
inline std::string str(const Mat& m) { std::string s; for (auto& r : m) { s += str(r); s += '\n'; } return s; }
inline Z content(const Vec& v) { Z g = 0; for (Z x : v) g = gcd(g, x); return g; }
inline void primitive(Vec& v) { Z g = content(v); if (g > 1) for (Z& x : v) x /= g; }
inline Z dot(const Vec& a, const Vec& b) { Z s = 0; for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0 && b[i] != 0) s = add(s, mul(a[i], b[i])); return s; }
inline bool isZero(const Vec& v) { for (Z x : v) if (x != 0) return false; return true; }

std::vector<int> echelonWide(Mat& m); // the same with arbitrary precision intermediate results (ref_wide.cpp)
// Row echelon form (integer, primitive rows). Returns pivot columns.
inline std::vector<int> echelonFast(Mat& m) {
   std::vector<int> piv;
   size_t row = 0, cols = m.empty() ? 0 : m[0].size();
   for (size_t c = 0; c < cols && row < m.size(); ++c) {
      size_t p = row;
      while (p < m.size() && m[p][c] == 0) ++p;
      if (p == m.size()) continue;
      std::swap(m[p], m[row]);
      primitive(m[row]);
      for (size_t r = 0; r < m.size(); ++r) {
         if (r == row || m[r][c] == 0) continue;
         Z f = m[r][c], h = m[row][c];
         Z g = gcd(f, h); f /= g; h /= g;
         for (size_t k = 0; k < cols; ++k) m[r][k] = sub(mul(m[r][k], h), mul(m[row][k], f));
         primitive(m[r]);
      }
      piv.push_back(int(c));
      ++row;
   }
   m.resize(row);
   return piv;
}
inline std::vector<int> echelon(Mat& m) {
   Mat copy = m;
   try { return echelonFast(m); } catch (const Overflow&) { m = copy; return echelonWide(m); }
}
inline int rank(Mat m) { return int(echelon(m).size()); }

// Canonical reduced row echelon form (for comparing row spaces).
inline Mat rowSpace(Mat m) {
   auto piv = echelon(m);
   for (size_t i = 0; i < m.size(); ++i) if (m[i][piv[i]] < 0) for (Z& x : m[i]) x = -x;
   return m;
}
// Basis of {x : m x = 0}.
inline Mat nullSpace(Mat m, int cols) {
   auto piv = echelon(m);
   std::vector<bool> isP(cols, false);
   for (int p : piv) isP[p] = true;
   Mat out;
   for (int f = 0; f < cols; ++f) {
      if (isP[f]) continue;
      Z l = 1;
      for (size_t i = 0; i < m.size(); ++i) l = lcm(l, m[i][piv[i]]);
      Vec v(cols, 0);
      v[f] = l;
      for (size_t i = 0; i < m.size(); ++i) v[piv[i]] = -mul(m[i][f], l / m[i][piv[i]]);
      primitive(v);
      out.push_back(v);
   }
   return out;
}

// ---- cones given by generators -----------------------------------------------------------
typedef std::set<int> IdSet;
typedef std::vector<uint64_t> Mask;
inline Mask maskOf(const std::vector<bool>& b) { Mask m((b.size() + 63) / 64, 0); for (size_t i = 0; i < b.size(); ++i) if (b[i]) m[i / 64] |= 1ull << (i % 64); return m; }

// All facets of cone(gens), each as the exact set of generators it contains. gens need not be distinct,
// extreme or spanning. Facets are those of the cone relative to its linear span.
struct ConeFacets {
   int rank = 0;
   Mat equations;             // basis of the orthogonal complement of the span
   std::set<Mask> facets;     // incidence masks
   Mat normals;               // one normal per facet (valid on the span, <= 0 on all generators), same order as found
};

inline void combos(int n, int k, const std::function<bool(const std::vector<int>&)>& f) {
   std::vector<int> c(k);
   for (int i = 0; i < k; ++i) c[i] = i;
   if (k > n) return;
   while (true) {
      if (!f(c)) return;
      int i = k - 1;
      while (i >= 0 && c[i] == n - k + i) --i;
      if (i < 0) return;
      ++c[i];
      for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
   }
}

inline ConeFacets coneFacets(const Mat& gens, int D) {
   ConeFacets out;
   int n = int(gens.size());
   Mat e = gens;
   auto piv = echelon(e);
   out.rank = int(piv.size());
   out.equations = nullSpace(gens, D);
   int r = out.rank;
   if (r == 0) return out;
   // Coordinates restricted to pivot columns are faithful on the span.
   Mat g(n, Vec(r));
   for (int i = 0; i < n; ++i) for (int k = 0; k < r; ++k) g[i][k] = gens[i][piv[k]];
   combos(n, r - 1, [&](const std::vector<int>& c) {
      Mat sub; for (int i : c) sub.push_back(g[i]);
      Mat ns = nullSpace(sub, r);
      if (ns.size() != 1) return true;
      Vec h = ns[0];
      bool pos = false, neg = false;
      std::vector<bool> z(n, false);
      for (int i = 0; i < n; ++i) { Z s = dot(h, g[i]); if (s > 0) pos = true; else if (s < 0) neg = true; else z[i] = true; if (pos && neg) return true; }
      if (!pos && !neg) return true;
      if (out.facets.insert(maskOf(z)).second) {
         Vec full(D, 0);
         for (int k = 0; k < r; ++k) full[piv[k]] = pos ? -h[k] : h[k];
         out.normals.push_back(full);
      }
      return true;
   });
   return out;
}

// ---- extreme rays of {y : rows y <= 0} ----------------------------------------------------
struct ExtremeRays { bool pointed = false; std::set<Vec> rays; };
inline ExtremeRays extremeRays(const Mat& rows, int D) {
   ExtremeRays out;
   if (rank(rows) < D) return out;
   out.pointed = true;
   combos(int(rows.size()), D - 1, [&](const std::vector<int>& c) {
      Mat sub; for (int i : c) sub.push_back(rows[i]);
      Mat ns = nullSpace(sub, D);
      if (ns.size() != 1) return true;
      for (int sgn = 0; sgn < 2; ++sgn) {
         Vec v = ns[0];
         if (sgn) for (Z& x : v) x = -x;
         bool ok = true;
         for (auto& r : rows) if (dot(r, v) > 0) { ok = false; break; }
         if (ok) { primitive(v); out.rays.insert(v); }
      }
      return true;
   });
   return out;
}

} // namespace ref
