// Engine for properties of the number types: operation sequences on the real classes against exact arithmetic.
#include <algorithm>
#include <cmath>
#include <memory>
#include <boost/multiprecision/cpp_int.hpp>
#include "runner.hpp"
#include "big_integer.h"
#include "safe_integer.h"
#include "algorithm_integer_operations.h"

using panda::BigInteger; using panda::SafeInteger;
typedef boost::multiprecision::cpp_int R;
namespace mc {

static R pow2(unsigned k) { return R(1) << k; }
static std::string S(const R& r) { return r.str(); }
static std::vector<R> signedSet(const std::vector<R>& m) { std::set<R> s; for (auto& x : m) { s.insert(x); s.insert(-x); } return std::vector<R>(s.begin(), s.end()); }
static std::vector<R> boundary(unsigned maxBit, bool dense) {
   std::vector<R> m{0, 1, 2, 3, 5, 6, 7, 10, 12};
   for (unsigned k : {8u, 15u, 16u, 30u, 31u, 32u, 33u, 47u, 61u, 62u, 63u, 64u, 65u, 95u, 96u, 97u, 126u, 127u, 128u, 129u, 160u, 191u, 192u, 193u, 256u}) {
      if (k > maxBit) break;
      for (int e : {-2, -1, 0, 1, 2}) { if (!dense && (e == 2 || e == -2)) continue; m.push_back(pow2(k) + e); }
      if (dense) { m.push_back(3 * pow2(k)); m.push_back(pow2(k) + pow2(k / 2)); m.push_back(pow2(k) - pow2(k / 2)); }
   }
   if (dense) { R f = 1; for (int i = 2; i <= 40; ++i) { f *= i; if (i % 4 == 0 && f < pow2(maxBit)) m.push_back(f); } R t = 10; for (int i = 0; i < 40; ++i, t *= 10) if (i % 3 == 0 && t < pow2(maxBit)) m.push_back(t); }
   return signedSet(m);
}

// ---- BigInteger
static BigInteger makeBig(const R& r) { // from 31-bit pieces, so that only constructors, * and + are involved
   R m = abs(r); std::vector<int32_t> pieces; while (m != 0) { pieces.push_back(static_cast<int32_t>(m & 0x7fffffff)); m >>= 31; }
   BigInteger b(int32_t(0)), base(int64_t(1) << 31);
   for (size_t i = pieces.size(); i-- > 0;) { b *= base; b += BigInteger(pieces[i]); }
   if (r < 0) b = -b;
   return b;
}
static bool readBig(const BigInteger& b, R& out) { // decimal-like digits through / and %
   bool neg = b < 0; BigInteger m = neg ? -b : b; R v = 0, w = 1; BigInteger base(int32_t(1) << 15);
   for (int i = 0; i < 80; ++i) { if (m == 0) { out = neg ? -v : v; return true; } int d = int(m % base); if (d < 0 || d >= (1 << 15)) return false; v += w * d; w <<= 15; m = m / base; }
   return false;
}
static std::string same(const BigInteger& b, const R& r, const std::string& what) {
   R got; if (!readBig(b, got)) return what + " should be " + S(r) + " but cannot be read back";
   if (got != r) return what + " should be " + S(r) + " but is " + S(got);
   BigInteger e = makeBig(r); // comparison operators must see the same number
   if (!(b == e) || (b != e) || (b < e) || (b > e) || !(b <= e) || !(b >= e)) return what + " is " + S(r) + " but does not compare equal to it";
   const R imax = R(INT32_MAX), imin = R(INT32_MIN); bool fits = r <= imax && r >= imin, conv = true; int iv = 0;
   try { iv = int(b); } catch (...) { conv = false; }
   if (fits && (!conv || R(iv) != r)) return what + " = " + S(r) + " does not convert to int";
   if (!fits && conv) return what + " = " + S(r) + " converts to int " + std::to_string(iv);
   return "";
}
template <typename F> static std::string noThrow(F f, const std::string& what) { try { f(); return ""; } catch (const std::exception& e) { return what + " throws " + e.what(); } catch (...) { return what + " throws"; } }
template <typename F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

static R fdiv(const R& a, const R& b) { return a / b; }                               // towards zero, as int
static R fmod(const R& a, const R& b) { R m = a % b; if (m < 0) m += b; return m; }   // 0 <= m < b
static const char* OPS[] = {"+", "-", "*", "/", "%"};
static bool defined(int op, const R& b) { return op < 3 || (op == 3 ? b != 0 : b > 0); }
static R refOp(int op, const R& a, const R& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return fdiv(a, b); default: return fmod(a, b); } }
template <typename T> static T apiOp(int op, const T& a, const T& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; default: return a % b; } }
template <typename T> static void apiOpAssign(int op, T& a, const T& b) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; default: a %= b; } }

static std::string bigPair(const R& ra, const R& rb) {
   BigInteger a = makeBig(ra), b = makeBig(rb); std::string w = S(ra) + " ? " + S(rb), e;
   if ((a == b) != (ra == rb) || (a != b) != (ra != rb) || (a < b) != (ra < rb) || (a > b) != (ra > rb) || (a <= b) != (ra <= rb) || (a >= b) != (ra >= rb)) return "comparison of " + w;
   for (int op = 0; op < 5; ++op) {
      std::string what = S(ra) + " " + OPS[op] + " " + S(rb);
      if (!defined(op, rb)) { if (!throws([&] { apiOp(op, a, b); })) return what + " does not throw"; BigInteger c = a; if (!throws([&] { apiOpAssign(op, c, b); })) return what + " (assignment) does not throw"; continue; }
      R r = refOp(op, ra, rb);
      e = noThrow([&] { BigInteger c = apiOp(op, a, b); e = same(c, r, what); }, what); if (!e.empty()) return e;
      std::string e2; e = noThrow([&] { BigInteger c = a; apiOpAssign(op, c, b); e2 = same(c, r, what + " (assignment)"); }, what); if (!e.empty()) return e; if (!e2.empty()) return e2;
      e = noThrow([&] { e2 = same(apiOp(op, a, b), r, what); if (e2.empty()) e2 = same(a, ra, "left operand of " + what); if (e2.empty()) e2 = same(b, rb, "right operand of " + what); }, what); if (!e.empty()) return e; if (!e2.empty()) return e2;
   }
   if (ra != 0 && rb != 0) { R g = gcd(ra, rb), l = lcm(ra, rb); std::string e2; e = noThrow([&] { e2 = same(panda::algorithm::gcd(a, b), g, "gcd of " + w); if (e2.empty()) e2 = same(panda::algorithm::lcm(a, b), abs(l), "lcm of " + w); }, "gcd of " + w); if (!e.empty()) return e; return e2; }
   return "";
}
static std::string bigUnary(const R& r) {
   BigInteger a = makeBig(r); std::string w = S(r), e2;
   std::string e = noThrow([&] {
      e2 = same(a, r, w); if (!e2.empty()) return;
      e2 = same(-a, -r, "-(" + w + ")"); if (!e2.empty()) return;
      e2 = same(abs(a), abs(r), "abs(" + w + ")"); if (!e2.empty()) return;
      for (int op = 0; op < 5; ++op) if (defined(op, r)) { BigInteger c = a; apiOpAssign(op, c, c); e2 = same(c, refOp(op, r, r), w + " " + OPS[op] + "= itself"); if (!e2.empty()) return; }
      for (int v : {INT32_MIN, INT32_MIN + 1, -65536, -2, -1, 0, 1, 2, 65536, INT32_MAX - 1, INT32_MAX}) { R q = v; if ((a == v) != (r == q) || (a != v) != (r != q) || (a < v) != (r < q) || (a > v) != (r > q) || (a <= v) != (r <= q) || (a >= v) != (r >= q)) { e2 = "comparison of " + w + " with int " + std::to_string(v); return; } }
      if (r <= INT16_MAX && r >= INT16_MIN) e2 = same(BigInteger(static_cast<int16_t>(r)), r, w + " from int16_t"); if (!e2.empty()) return;
      if (r <= INT32_MAX && r >= INT32_MIN) e2 = same(BigInteger(static_cast<int32_t>(r)), r, w + " from int32_t"); if (!e2.empty()) return;
      if (r <= INT64_MAX && r >= INT64_MIN) e2 = same(BigInteger(static_cast<int64_t>(r)), r, w + " from int64_t"); if (!e2.empty()) return;
      if (r >= 0 && r <= UINT16_MAX) e2 = same(BigInteger(static_cast<uint16_t>(r)), r, w + " from uint16_t"); if (!e2.empty()) return;
      if (r >= 0 && r <= UINT32_MAX) e2 = same(BigInteger(static_cast<uint32_t>(r)), r, w + " from uint32_t"); if (!e2.empty()) return;
      if (r >= 0 && r <= R(UINT64_MAX)) e2 = same(BigInteger(static_cast<uint64_t>(r)), r, w + " from uint64_t");
   }, w);
   return e.empty() ? e2 : e;
}
// every operation sequence of the given length on one accumulator
static std::string bigSeq(const R& r, const BigInteger& b, const std::vector<R>& v, const std::vector<BigInteger>& bv, int depth, const std::string& trace) {
   for (size_t i = 0; i < v.size(); ++i) for (int op = 0; op < 5; ++op) {
      if (!defined(op, v[i])) continue;
      R q = refOp(op, r, v[i]); if (abs(q) >= pow2(1000)) continue;
      std::string t = "(" + trace + " " + OPS[op] + " " + S(v[i]) + ")", e2; BigInteger c = b;
      std::string e = noThrow([&] { apiOpAssign(op, c, bv[i]); if (depth <= 1) e2 = same(c, q, t); }, t); if (!e.empty()) return e; if (!e2.empty()) return e2;
      if (depth > 1) { e = bigSeq(q, c, v, bv, depth - 1, t); if (!e.empty()) return e; }
   }
   return "";
}
static Property bigProps() {
   Property p; p.id = "big-integer";
   auto B1 = std::make_shared<std::vector<R>>(boundary(256, false));
   p.families.push_back({"unary", "every boundary value (0..12, 2^k + {-1,0,1} for 25 exponents k up to 256; both signs): constructors, conversion to int, negation, abs, comparison with 11 int values, self-assignment operations", false, [B1](Emitter& em) { for (auto& a : *B1) em([&](Ctx& c) { return inChild(30, [&] { return bigUnary(a); }); }); }});
   p.families.push_back({"pairs", "every ordered pair of boundary values x {+,-,*,/,%} in both forms, all comparisons, gcd and lcm", false, [B1](Emitter& em) { for (auto& a : *B1) em([&](Ctx& c) { c.tags["operation pairs"] += (long long)B1->size() * 7; return inChild(60, [&]() -> std::string { for (auto& b : *B1) { auto e = bigPair(a, b); if (!e.empty()) return e; } return ""; }); }); }});
   p.families.push_back({"pairs-dense", "the same with 2^k + {-2..2}, 3*2^k, 2^k +- 2^(k/2), factorials and powers of ten", true, [](Emitter& em) { auto B2 = boundary(256, true); for (auto& a : B2) em([&](Ctx& c) { c.tags["operation pairs"] += (long long)B2.size() * 7; return inChild(300, [&]() -> std::string { for (auto& b : B2) { auto e = bigPair(a, b); if (!e.empty()) return e; } return ""; }); }); }});
   p.families.push_back({"small", "every ordered pair of values in -70..70 and around +-2^31, +-2^32, +-2^64", false, [](Emitter& em) {
      std::vector<R> v; for (int i = -70; i <= 70; ++i) v.push_back(i); for (unsigned k : {31u, 32u, 64u}) for (int e = -4; e <= 4; ++e) { v.push_back(pow2(k) + e); v.push_back(-pow2(k) + e); }
      for (auto& a : v) em([&](Ctx& c) { c.tags["operation pairs"] += (long long)v.size() * 7; return inChild(60, [&]() -> std::string { for (auto& b : v) { auto e = bigPair(a, b); if (!e.empty()) return e; } return ""; }); }); }});
   auto seq = [](std::vector<R> start, std::vector<R> v, int depth) { return [=](Emitter& em) { std::vector<BigInteger> bv; for (auto& x : v) bv.push_back(makeBig(x)); for (auto& a : start) for (size_t i = 0; i < v.size(); ++i) for (int op = 0; op < 5; ++op) em([&, i, op](Ctx& c) -> std::string { if (!defined(op, v[i])) return ""; c.tags["operation sequences (upper bound)"] += (long long)std::pow(5.0 * double(v.size()), depth - 1); return inChild(600, [&] { BigInteger b = apiOp(op, makeBig(a), makeBig(v[i])); R r = refOp(op, a, v[i]); return bigSeq(r, b, v, bv, depth - 1, "(" + S(a) + " " + OPS[op] + " " + S(v[i]) + ")"); }); }); }; };
   std::vector<R> core = signedSet({0, 1, 2, 3, pow2(31) - 1, pow2(31), pow2(32), pow2(63), pow2(64) - 1, pow2(64), pow2(128) + 1});
   std::vector<R> core3 = signedSet({1, 3, pow2(31), pow2(64) - 1, pow2(64)});
   p.families.push_back({"sequences-2", "every sequence of 2 operations on one accumulator over all start values and operands of a 21-value boundary set", false, seq(core, core, 2)});
   p.families.push_back({"sequences-3", "every sequence of 3 operations over a 10-value boundary set", false, seq(core3, core3, 3)});
   p.families.push_back({"sequences-3-wide", "every sequence of 3 operations over the 21-value boundary set", true, seq(core, core, 3)});
   p.families.push_back({"sequences-4", "every sequence of 4 operations over a 10-value boundary set", true, seq(core3, core3, 4)});
   return p;
}

// ---- SafeInteger
static const R SMAX = R(INT64_MAX), SMIN = R(INT64_MIN);
static bool inRange(const R& r) { return r <= SMAX && r >= SMIN; }
static SafeInteger makeSafe(const R& r) { return SafeInteger(static_cast<int64_t>(r)); }
static std::string sameSafe(const SafeInteger& b, const R& r, const std::string& what) {
   SafeInteger e = makeSafe(r);
   if (!(b == e) || (b != e) || (b < e) || (b > e) || !(b <= e) || !(b >= e)) return what + " should be " + S(r) + " but is not";
   bool fits = r <= R(INT32_MAX) && r >= R(INT32_MIN), conv = true; int iv = 0; try { iv = int(b); } catch (...) { conv = false; }
   if (fits && (!conv || R(iv) != r)) return what + " = " + S(r) + " does not convert to int";
   if (!fits && conv) return what + " = " + S(r) + " converts to int " + std::to_string(iv);
   return "";
}
static std::string safePair(const R& ra, const R& rb) {
   SafeInteger a = makeSafe(ra), b = makeSafe(rb); std::string w = S(ra) + " ? " + S(rb), e2;
   if ((a == b) != (ra == rb) || (a != b) != (ra != rb) || (a < b) != (ra < rb) || (a > b) != (ra > rb) || (a <= b) != (ra <= rb) || (a >= b) != (ra >= rb)) return "comparison of " + w;
   for (int op = 0; op < 5; ++op) {
      std::string what = S(ra) + " " + OPS[op] + " " + S(rb);
      bool ok = defined(op, rb) && inRange(refOp(op, ra, rb));
      for (int form = 0; form < 2; ++form) {
         SafeInteger c = a; bool thrown = false;
         try { if (form) apiOpAssign(op, c, b); else c = apiOp(op, a, b); } catch (...) { thrown = true; }
         if (ok && thrown) return what + " = " + S(refOp(op, ra, rb)) + " is refused";
         if (!ok && !thrown) return what + " overflows or is undefined but is not refused";
         if (ok) { auto e = sameSafe(c, refOp(op, ra, rb), what); if (!e.empty()) return e; }
      }
   }
   return "";
}
static std::string safeUnary(const R& r) {
   SafeInteger a = makeSafe(r); std::string w = S(r), e;
   for (int k = 0; k < 2; ++k) { R q = -r; if (k) q = abs(r); SafeInteger c = a; bool thrown = false; try { c = k ? abs(a) : -a; } catch (...) { thrown = true; } if (thrown == inRange(q)) return std::string(k ? "abs of " : "negation of ") + w; if (!thrown) { e = sameSafe(c, q, w); if (!e.empty()) return e; } }
   for (int op = 0; op < 5; ++op) { SafeInteger c = a; bool thrown = false, ok = defined(op, r) && inRange(refOp(op, r, r)); try { apiOpAssign(op, c, c); } catch (...) { thrown = true; } if (thrown == ok) return w + " " + OPS[op] + "= itself"; if (ok) { e = sameSafe(c, refOp(op, r, r), w + " " + OPS[op] + "= itself"); if (!e.empty()) return e; } }
   for (int v : {INT32_MIN, INT32_MIN + 1, -65536, -1, 0, 1, 65536, INT32_MAX}) { R q = v; if ((a == v) != (r == q) || (a != v) != (r != q) || (a < v) != (r < q) || (a > v) != (r > q) || (a <= v) != (r <= q) || (a >= v) != (r >= q)) return "comparison of " + w + " with int " + std::to_string(v); }
   if (r <= INT16_MAX && r >= INT16_MIN) e = sameSafe(SafeInteger(static_cast<int16_t>(r)), r, w); if (!e.empty()) return e;
   if (r <= INT32_MAX && r >= INT32_MIN) e = sameSafe(SafeInteger(static_cast<int32_t>(r)), r, w); if (!e.empty()) return e;
   if (r >= 0 && r <= UINT16_MAX) e = sameSafe(SafeInteger(static_cast<uint16_t>(r)), r, w); if (!e.empty()) return e;
   if (r >= 0 && r <= UINT32_MAX) e = sameSafe(SafeInteger(static_cast<uint32_t>(r)), r, w); if (!e.empty()) return e;
   if (r >= 0) e = sameSafe(SafeInteger(static_cast<uint64_t>(r)), r, w); if (!e.empty()) return e;
   R u = r + pow2(63); if (u >= 0 && !inRange(u) && u <= R(UINT64_MAX)) if (!throws([&] { SafeInteger x(static_cast<uint64_t>(u)); (void)x; })) return S(u) + " accepted as SafeInteger";
   return "";
}
static std::vector<R> safeSet(bool dense) {
   std::vector<R> v; for (auto& r : boundary(63, true)) if (inRange(r)) v.push_back(r);
   std::set<R> s(v.begin(), v.end());
   for (R m : {SMAX, SMIN}) for (int k : {1, 2, 3, 5, 7, 10}) for (int e = -2; e <= 2; ++e) { R x = m / k + e; if (inRange(x)) { s.insert(x); if (inRange(-x)) s.insert(-x); } }
   R q = sqrt(SMAX); for (int e = -2; e <= 2; ++e) { s.insert(q + e); s.insert(-(q + e)); }
   if (dense) for (int i = -40; i <= 40; ++i) { s.insert(i); R x = SMAX - 40 + i; if (inRange(x)) s.insert(x); x = SMIN + 40 + i; if (inRange(x)) s.insert(x); }
   return std::vector<R>(s.begin(), s.end());
}
static Property safeProps() {
   Property p; p.id = "safe-integer";
   auto V = std::make_shared<std::vector<R>>(safeSet(true));
   p.families.push_back({"unary", "every boundary value of the 64-bit range: constructors, conversions, negation, abs, self-assignment, comparisons with int", false, [V](Emitter& em) { for (auto& a : *V) em([&](Ctx& c) { return inChild(30, [&] { return safeUnary(a); }); }); }});
   p.families.push_back({"pairs", "every ordered pair of boundary values x {+,-,*,/,%} in both forms and all comparisons: exact, or refused exactly when the result does not fit", false, [V](Emitter& em) { for (auto& a : *V) em([&](Ctx& c) { c.tags["operation pairs"] += (long long)V->size() * 5; return inChild(60, [&]() -> std::string { for (auto& b : *V) { auto e = safePair(a, b); if (!e.empty()) return e; } return ""; }); }); }});
   p.families.push_back({"product-edges", "for every boundary value a and every limit L of the range: all b within 3 of L / a (the edge of overflow)", false, [V](Emitter& em) { for (auto& a : *V) em([&](Ctx& c) { return inChild(60, [&]() -> std::string { if (a == 0) return ""; for (R L : {SMAX, SMIN}) for (int d = -3; d <= 3; ++d) { R b = L / a + d; if (!inRange(b)) continue; auto e = safePair(a, b); if (e.empty()) e = safePair(b, a); if (!e.empty()) return e; b = L - a + d; if (inRange(b)) { e = safePair(a, b); if (e.empty()) e = safePair(b, a); if (!e.empty()) return e; } b = a - L + d; if (inRange(b)) { e = safePair(a, b); if (e.empty()) e = safePair(b, a); if (!e.empty()) return e; } } return ""; }); }); }});
   p.families.push_back({"gcd", "gcd and lcm for every pair of values within -200..200 and powers of two, for 16-, 32-, 64-bit and safe integers", false, [](Emitter& em) {
      std::vector<R> v; for (int i = -200; i <= 200; ++i) if (i) v.push_back(i); for (unsigned k : {10u, 14u, 20u, 30u, 40u, 62u}) { v.push_back(pow2(k)); v.push_back(-pow2(k) + 1); v.push_back(3 * pow2(k > 60 ? 60 : k)); }
      for (auto& a : v) em([&](Ctx& c) { return inChild(60, [&]() -> std::string { for (auto& b : v) {
         R g = gcd(a, b), l = abs(lcm(a, b)); std::string w = "gcd or lcm of " + S(a) + " and " + S(b);
         auto fit = [](const R& x, unsigned bits) { return abs(x) < pow2(bits - 1); };
         // zero operands: gcd(x, 0) = |x|
         if (panda::algorithm::gcd(int64_t(a), int64_t(0)) != int64_t(abs(a)) || panda::algorithm::gcd(int64_t(0), int64_t(a)) != int64_t(abs(a))) return "gcd of 0 and " + S(a);
         if (fit(a, 16) && fit(b, 16)) { if (panda::algorithm::gcd(static_cast<int16_t>(a), static_cast<int16_t>(b)) != static_cast<int16_t>(g)) return w + " (16)"; if (fit(l, 16) && panda::algorithm::lcm(static_cast<int16_t>(a), static_cast<int16_t>(b)) != static_cast<int16_t>(l)) return w + " (16)"; }
         if (fit(a, 32) && fit(b, 32)) { if (panda::algorithm::gcd(static_cast<int32_t>(a), static_cast<int32_t>(b)) != static_cast<int32_t>(g)) return w + " (32)"; if (fit(l, 32) && panda::algorithm::lcm(static_cast<int32_t>(a), static_cast<int32_t>(b)) != static_cast<int32_t>(l)) return w + " (32)"; }
         if (panda::algorithm::gcd(static_cast<int64_t>(a), static_cast<int64_t>(b)) != static_cast<int64_t>(g)) return w + " (64)"; if (fit(l, 64) && panda::algorithm::lcm(static_cast<int64_t>(a), static_cast<int64_t>(b)) != static_cast<int64_t>(l)) return w + " (64)";
         { std::string e = sameSafe(panda::algorithm::gcd(makeSafe(a), makeSafe(b)), g, w); if (!e.empty()) return e; if (fit(l, 64)) { e = sameSafe(panda::algorithm::lcm(makeSafe(a), makeSafe(b)), l, w); if (!e.empty()) return e; } }
      } return ""; }); }); }});
   auto seq = [](std::vector<R> v, int depth) { return [=](Emitter& em) {
      std::vector<SafeInteger> sv; for (auto& x : v) sv.push_back(makeSafe(x));
      for (size_t s = 0; s < v.size(); ++s) em([&, s](Ctx& c) { c.tags["operation sequences (upper bound)"] += (long long)std::pow(5.0 * double(v.size()), depth); return inChild(600, [&]() -> std::string {
         std::function<std::string(const R&, const SafeInteger&, int, const std::string&)> go = [&](const R& r, const SafeInteger& b, int left, const std::string& t) -> std::string {
            for (size_t i = 0; i < v.size(); ++i) for (int op = 0; op < 5; ++op) {
               bool ok = defined(op, v[i]) && inRange(refOp(op, r, v[i])), thrown = false; SafeInteger q = b;
               try { apiOpAssign(op, q, sv[i]); } catch (...) { thrown = true; }
               std::string w = "(" + t + " " + OPS[op] + " " + S(v[i]) + ")";
               if (thrown == ok) return w + (ok ? " is refused" : " is not refused");
               if (!ok) continue;
               R n = refOp(op, r, v[i]); auto e = sameSafe(q, n, w); if (!e.empty()) return e;
               if (left > 1) { e = go(n, q, left - 1, w); if (!e.empty()) return e; }
            }
            return "";
         };
         return go(v[s], sv[s], depth, S(v[s])); }); }); }; };
   std::vector<R> core; for (auto& x : signedSet({0, 1, 2, 3, 7, pow2(31) - 1, pow2(31), pow2(32), R(3037000500ull), pow2(62), SMAX / 3, SMAX - 1, SMAX})) core.push_back(x); core.push_back(SMIN);
   p.families.push_back({"sequences-2", "every sequence of 2 operations over a 26-value boundary set, refusals exactly at overflow", false, seq(core, 2)});
   p.families.push_back({"sequences-3", "every sequence of 3 operations over the 26-value boundary set", true, seq(core, 3)});
   return p;
}
} // namespace mc
int main(int argc, char** argv) { std::vector<mc::Property> p{mc::bigProps(), mc::safeProps()}; return mc::engineMain(argc, argv, p); }
