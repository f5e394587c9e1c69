// nanomath: classification / sign / rounding (PART 1), min / max / clamp (PART 2), approximations (PART 3).
#include <cfloat>
#include <cmath>
#include <limits>
#include <vector>
#include "mc.hpp"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanomath.h"
namespace N = nanostl;
typedef uint64_t u64;
typedef uint32_t u32;
static inline float F(u32 u) { float f; memcpy(&f, &u, 4); return f; }
static inline u32 B(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static inline double D(u64 u) { double f; memcpy(&f, &u, 8); return f; }
static inline u64 B(double f) { u64 u; memcpy(&u, &f, 8); return u; }
template <class T> struct Bits;
template <> struct Bits<float> { typedef u32 U; enum { E = 8, M = 23 }; static const char *n() { return "float"; } };
template <> struct Bits<double> { typedef u64 U; enum { E = 11, M = 52 }; static const char *n() { return "double"; } };
// structured mantissas: near 0, near all ones, near every power of two
template <class T> static std::vector<typename Bits<T>::U> mants() {
  typedef typename Bits<T>::U U;
  std::vector<U> v; U all = ((U)1 << Bits<T>::M) - 1;
  for (int i = 0; i < 8; i++) { v.push_back(i); v.push_back(all - i); }
  for (int b = 3; b < Bits<T>::M; b++) for (int d = -2; d <= 2; d++) v.push_back(((U)1 << b) + d);
  for (int b = 3; b < Bits<T>::M; b++) v.push_back(all & ~(((U)1 << b) - 1)), v.push_back((all & ~(((U)1 << b) - 1)) + 1), v.push_back((all & ~(((U)1 << b) - 1)) - 1);
  v.push_back(all / 3); v.push_back(all / 3 * 2);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
#if PART == 1
// The reference works on the bits only: exact IEEE semantics.
template <class T> static void unary(typename Bits<T>::U u) {
  typedef typename Bits<T>::U U;
  const int M = Bits<T>::M, E = Bits<T>::E;
  const U mask = ((U)1 << M) - 1, emax = ((U)1 << E) - 1, top = (U)1 << (M + E);
  T x; memcpy(&x, &u, sizeof x);
  U m = u & mask, e = (u >> M) & emax;
  bool nan = e == emax && m, inf = e == emax && !m;
#define CK(f, want) do { if (f(x) != (want)) mc::fail(#f, "%s(%a, bits %llx) is %d", #f, (double)x, (unsigned long long)u, (int)f(x)); } while (0)
  CK(N::isnan, nan); CK(N::isinf, inf); CK(N::isfinite, e != emax); CK(N::isnormal, e != 0 && e != emax);
  if (nan) {
    T r = N::fabs(x); if (r == r) mc::fail("fabs:nan", "fabs(NaN %llx) = %a", (unsigned long long)u, (double)r);
    r = N::floor(x); if (r == r) mc::fail("floor:nan", "floor(NaN %llx) = %a", (unsigned long long)u, (double)r);
    r = N::ceil(x); if (r == r) mc::fail("ceil:nan", "ceil(NaN %llx) = %a", (unsigned long long)u, (double)r);
    return;
  }
  T a = N::fabs(x);
  if (B(a) != (u & ~top)) mc::fail("fabs", "fabs(%a) = %a", (double)x, (double)a);
  // floor by clearing fraction bits
  U mag = u & ~top; int ex = (int)(mag >> M) - (int)(emax >> 1);
  T fl, ce; bool neg = (u & top) != 0;
  if (ex >= M) fl = ce = x;
  else if (mag == 0) fl = ce = 0;
  else if (ex < 0) { fl = neg ? -1 : 0; ce = neg ? 0 : 1; }
  else {
    U frac = mask >> ex, t = u & ~frac; T tr; memcpy(&tr, &t, sizeof tr);
    fl = ce = tr;
    if (u & frac) { if (neg) fl = tr - 1; else ce = tr + 1; }
  }
  T g = N::floor(x); if (!(g == fl)) mc::fail("floor", "floor(%a) = %a, expected %a", (double)x, (double)g, (double)fl);
  g = N::ceil(x); if (!(g == ce)) mc::fail("ceil", "ceil(%a) = %a, expected %a", (double)x, (double)g, (double)ce);
}
static void funary(u64 blk) {
  u32 lo = blk << 8;
  for (u32 i = 0; i < 256; i++) {
    u32 u = lo + i; float x = F(u);
    unary<float>(u);
    if (N::FloatToUint(x) != u && x == x) mc::fail("FloatToUint", "FloatToUint of bits %x = %x", u, N::FloatToUint(x));
    if (B(N::UintToFloat(u)) != u && x == x) mc::fail("UintToFloat", "UintToFloat(%x)", u);
    if (N::FloatToInt(x) != (int)u && x == x) mc::fail("FloatToInt", "FloatToInt of bits %x = %x", u, N::FloatToInt(x));
    if (B(N::IntToFloat((int)u)) != u && x == x) mc::fail("IntToFloat", "IntToFloat(%x)", u);
    u32 c = B(N::copysign(x, -2.5f)), d = B(N::copysign(x, 0.0f)), e = B(N::copysign(1.5f, x));
    if (x == x && (c != (u | 0x80000000u) || d != (u & 0x7fffffffu))) mc::fail("copysign", "copysign(%a, -2.5/+0) gives bits %x/%x", x, c, d);
    if (e != ((u & 0x80000000u) | 0x3fc00000u)) mc::fail("copysign", "copysign(1.5, bits %x) gives bits %x", u, e);
    if (fabsf(x) < 1e9f) { int r = N::fast_rint(x); double ax = fabs((double)x); if (ax < 4e6) { double q = floor(ax + 0.5); double lo_ = ax < 0.5 ? 0 : q, w = x < 0 ? -lo_ : lo_; if (fabs(r - (double)x) > 0.5000001 + ax * 6e-8 || (ax == floor(ax) && r != (double)x)) mc::fail("rint", "fast_rint(%a) = %d, expected %g", x, r, w); } }
  }
  mc::nontrivial(256);
  mc::say("float bit patterns %08x..%08x", lo, lo + 255);
}
static std::vector<u64> DM;
static void dunary(u64 i) {  // i: sign and exponent
  for (size_t k = 0; k < DM.size(); k++) unary<double>((i << 52) | DM[k]);
  mc::nontrivial(DM.size());
  mc::say("double sign/exponent %03x, %d mantissas", (int)i, (int)DM.size());
}
static void dint(u64 i) {  // around every integer and half below a bound, and around powers of two
  double b = i < 200000 ? i * 0.5 : ldexp(1.0, (int)(i - 200000) / 8) + ((int)(i % 8) - 4) * 0.5;
  double v[] = {b, nextafter(b, 1e300), nextafter(b, -1e300), -b, -nextafter(b, 1e300), -nextafter(b, -1e300)};
  for (int k = 0; k < 6; k++) { unary<double>(B(v[k])); unary<float>(B((float)v[k])); }
  mc::nontrivial(6);
}
static void setup() {
  DM = mants<double>();
  mc::range("float/all", funary, 0, mc::thorough() ? 1ull << 24 : 1ull << 24, "every one of the 2^32 float bit patterns (blocks of 256)", 60);
  mc::range("double/structured", dunary, 0, 4096, "every sign and exponent times the structured mantissas (near 0, all ones, every power of two)", 60);
  mc::range("double/integers", dint, 0, 200000 + 62 * 8, "every half integer below 100000 and around every power of two, with both neighbours, both signs", 60);
}
#elif PART == 2
static std::vector<float> FV; static std::vector<double> DV;
template <class T> static std::vector<T> vals(int step) {
  typedef typename Bits<T>::U U; const int M = Bits<T>::M, E = Bits<T>::E; U emax = ((U)1 << E) - 1;
  std::vector<T> v; std::vector<U> ms; ms.push_back(0); ms.push_back(1); ms.push_back(((U)1 << M) - 1); ms.push_back((U)1 << (M - 1)); ms.push_back(((U)1 << (M - 1)) + 1);
  for (U e = 0; e <= emax; e += (e < 3 || e + step + 2 >= emax ? 1 : step))
    for (size_t i = 0; i < ms.size(); i++) for (U s = 0; s < 2; s++) { U u = (s << (M + E)) | (e << M) | ms[i]; T x; memcpy(&x, &u, sizeof x); v.push_back(x); }
  return v;
}
template <class T> static bool eqv(T a, T b) { return a == b || (a != a && b != b); }
template <class T> static void pair(T x, T y) {
  const char *n = Bits<T>::n();
  bool nx = x != x, ny = y != y;
  T mn = nx ? y : ny ? x : x < y ? x : y, mxv = nx ? y : ny ? x : x > y ? x : y;
  T a = N::fmin(x, y), b = N::fmax(x, y);
  if (!eqv(a, mn)) mc::fail("fmin", "fmin<%s>(%a,%a) = %a", n, (double)x, (double)y, (double)a);
  if (!eqv(b, mxv)) mc::fail("fmax", "fmax<%s>(%a,%a) = %a", n, (double)x, (double)y, (double)b);
  if (nx || ny) return;
  const T &p = N::min(x, y), &q = N::max(x, y);
  if (!(p == mn) || (&p != &x && &p != &y)) mc::fail("min", "min<%s>(%a,%a) = %a", n, (double)x, (double)y, (double)p);
  if (!(q == mxv) || (&q != &x && &q != &y)) mc::fail("max", "max<%s>(%a,%a) = %a", n, (double)x, (double)y, (double)q);
  if (x == y && (&p != &x || &q != &x)) mc::fail("min/max:tie", "min/max of equal values does not return the first argument");
}
static void fp(u64 i) { pair(FV[i / FV.size()], FV[i % FV.size()]); mc::nontrivial(); mc::say("%a, %a", FV[i / FV.size()], FV[i % FV.size()]); }
static void dp(u64 i) { pair(DV[i / DV.size()], DV[i % DV.size()]); mc::nontrivial(); }
static std::vector<float> CV; static std::vector<double> CD;
template <class T> static void clamp3(const std::vector<T> &v, u64 i) {
  T x = v[i % v.size()], lo = v[i / v.size() % v.size()], hi = v[i / v.size() / v.size()];
  if (x != x || lo != lo || hi != hi || hi < lo) return;
  T w = x < lo ? lo : x > hi ? hi : x, g = N::clamp(x, lo, hi);
  if (!(g == w)) mc::fail("clamp", "clamp(%a,%a,%a) = %a", (double)x, (double)lo, (double)hi, (double)g);
  mc::nontrivial();
}
static void fc(u64 i) { clamp3(CV, i); }
static void dc(u64 i) { clamp3(CD, i); }
static void ints(u64 i) {
  static const long long V[] = {(-0x7fffffffffffffffll - 1), -0x7fffffffffffffffll, -4294967297ll, -4294967296ll, -2147483649ll, -2147483648ll, -2, -1, 0, 1, 2, 127, 128, 255, 256, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 0x7fffffffffffffffll};
  long long x = V[i % 20], y = V[i / 20 % 20], z = V[i / 400];
  MC_CHECK(N::min(x, y) == std::min(x, y) && N::max(x, y) == std::max(x, y), "min:ll", "min/max(%lld,%lld)", x, y);
  MC_CHECK(N::min((int)x, (int)y) == std::min((int)x, (int)y) && N::max((int)x, (int)y) == std::max((int)x, (int)y), "min:int", "min/max(%d,%d)", (int)x, (int)y);
  unsigned long long ux = x, uy = y;
  MC_CHECK(N::min(ux, uy) == std::min(ux, uy) && N::max(ux, uy) == std::max(ux, uy), "min:ull", "min/max(%llu,%llu)", ux, uy);
  if (y <= z) { long long w = x < y ? y : x > z ? z : x; MC_CHECK(N::clamp(x, y, z) == w, "clamp:ll", "clamp(%lld,%lld,%lld) = %lld", x, y, z, N::clamp(x, y, z)); mc::nontrivial(); }
}
// every integer type: all triples of its boundary values (8-bit types: all triples of 64 values, thorough all 2^24)
template <class T> static void itrip(T x, T y, T z) {
  const T &p = N::min(x, y), &q = N::max(x, y);
  MC_CHECK(p == (y < x ? y : x) && q == (x < y ? y : x) && (x != y || (&p == &x && &q == &x)), "min:int-types", "min/max of %lld and %lld (%zu bytes)", (long long)x, (long long)y, sizeof(T));
  if (y <= z) { T w = x < y ? y : z < x ? z : x; if (N::clamp(x, y, z) != w) mc::fail("clamp:int-types", "clamp(%lld,%lld,%lld) = %lld (%zu bytes, %s)", (long long)x, (long long)y, (long long)z, (long long)N::clamp(x, y, z), sizeof(T), T(-1) < T(0) ? "signed" : "unsigned"); }
}
template <class T> static std::vector<T> bounds() {
  std::vector<T> v; const int B = sizeof(T) * 8;
  for (int k = 0; k < B; k++) for (int d = -1; d <= 1; d++) { v.push_back((T)(((u64)1 << k) + d)); v.push_back((T)(0 - ((u64)1 << k) + d)); }
  T more[] = {0, 1, 2, 3, 5, 7, 9, 100, (T)-1, (T)-2, (T)-100}; v.insert(v.end(), more, more + 11);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <class T> static void itype(u64 i) {
  static const std::vector<T> v = bounds<T>();
  if (i >= v.size()) return;
  for (size_t j = 0; j < v.size(); j++) for (size_t k = 0; k < v.size(); k++) itrip<T>(v[i], v[j], v[k]);
  mc::nontrivial(v.size() * v.size());
}
static void itypes(u64 i) {
  u64 k = i / 11;
  switch (i % 11) { case 0: itype<char>(k); break; case 1: itype<signed char>(k); break; case 2: itype<unsigned char>(k); break; case 3: itype<short>(k); break; case 4: itype<unsigned short>(k); break; case 5: itype<int>(k); break; case 6: itype<unsigned>(k); break; case 7: itype<long>(k); break; case 8: itype<unsigned long>(k); break; case 9: itype<long long>(k); break; default: itype<unsigned long long>(k); }
}
static void setup() {
  bool t = mc::thorough();
  mc::range("clamp/integer-types", itypes, 0, 11 * 400, "every integer type, every triple of values around 0 and around every power of two");
  FV = vals<float>(1); DV = vals<double>(t ? 3 : 8); CV = vals<float>(t ? 8 : 24); CD = vals<double>(t ? 80 : 240);
  mc::range("fmin/float", fp, 0, (u64)FV.size() * FV.size(), "every pair of floats: all exponents, five mantissas, both signs, infinities, NaNs");
  mc::range("fmin/double", dp, 0, (u64)DV.size() * DV.size(), "every pair of doubles: exponents in steps of 8 (thorough 3), five mantissas, both signs, infinities, NaNs");
  mc::range("clamp/float", fc, 0, (u64)CV.size() * CV.size() * CV.size(), "every ordered triple of structured floats");
  mc::range("clamp/double", dc, 0, (u64)CD.size() * CD.size() * CD.size(), "every ordered triple of structured doubles");
  mc::range("min/integers", ints, 0, 8000, "every triple of 20 boundary integers, three widths");
}
#else
static inline int64_t ord(float f) { int32_t i; memcpy(&i, &f, 4); return i < 0 ? -(int64_t)(i & 0x7fffffff) : i; }
#define NF(f) static float n_##f(float x) { return N::f(x); } static double r_##f(double x) { return std::f(x); }
NF(exp) NF(log) NF(log10) NF(sin) NF(cos) NF(tan) NF(sinh) NF(cosh) NF(tanh) NF(erf) NF(erfc) NF(cbrt) NF(sqrt)
static float n_exp2(float x) { return N::fast_exp2(x); } static double r_exp2(double x) { return std::exp2(x); }
static float n_log2(float x) { return N::fast_log2(x); } static double r_log2(double x) { return std::log2(x); }
enum K { ULP, ABS, REL };
// Documented limits (comments of nanomath.h), errors against the correctly rounded float as there; "own" marks limits
// derived here where the source documents none.
struct Fn { const char *name; float (*f)(float); double (*r)(double); float lo, hi; K k; double lim; };
static const Fn FN[] = {
  {"exp", n_exp, r_exp, -87.33f, 87.33f, ULP, 230},
  {"exp2", n_exp2, r_exp2, -126, 126, ULP, 232},
  {"log2", n_log2, r_log2, FLT_MIN, FLT_MAX, ABS, 7.63e-6},
  {"log", n_log, r_log, FLT_MIN, FLT_MAX, ABS, 7.63e-6},
  {"log10", n_log10, r_log10, FLT_MIN, FLT_MAX, ABS, 3.8148e-6},
  {"sin", n_sin, r_sin, -6.2831855f, 6.2831855f, ABS, 1.1921e-7},
  {"sin-wide", n_sin, r_sin, -8192, 8192, ABS, 2.4e-7},                 // own: one more ulp for the reduction
  {"cos", n_cos, r_cos, -6.2831855f, 6.2831855f, ABS, 4.3313e-7},
  {"cos-wide", n_cos, r_cos, -8192, 8192, ABS, 6e-7},                   // own
  {"tan", n_tan, r_tan, -1.5f, 1.5f, REL, 3e-6},                        // own, plus 1e-7 absolute around 0
  {"sinh>1", n_sinh, r_sinh, 1, 87.33f, ULP, 178},
  {"sinh<1", n_sinh, r_sinh, -1, 1, ABS, 1.1921e-7},
  {"cosh", n_cosh, r_cosh, -87.33f, 87.33f, ULP, 178},
  {"tanh", n_tanh, r_tanh, -FLT_MAX, FLT_MAX, ABS, 3.13e-6},
  {"erf", n_erf, r_erf, 0, 4, ABS, 1.9372e-6},
  {"erf-all", n_erf, r_erf, -FLT_MAX, FLT_MAX, ABS, 1.9372e-6},
  {"erfc", n_erfc, r_erfc, -4, 4, ABS, 1.90736e-6},
  {"cbrt", n_cbrt, r_cbrt, 1e-38f, FLT_MAX, ULP, 12},
  {"cbrt<0", n_cbrt, r_cbrt, -FLT_MAX, -1e-38f, ULP, 12},
  {"cbrt~0", n_cbrt, r_cbrt, -9.99999935e-39f, 9.99999935e-39f, ABS, 8.14688e-14},
  {"sqrt", n_sqrt, r_sqrt, FLT_MIN, FLT_MAX, REL, 0.0017533},            // own: one Newton step from the 0x5f3759df guess
};
enum { NFN = sizeof FN / sizeof FN[0] };
static int g_low;  // how many of the 16 lowest-bit patterns are taken
#ifdef MEASURE
static double g_max[NFN];
#endif
static void approx(u64 i) {
  const Fn &q = FN[i >> 20];
  u32 hi = (u32)(i & 0xfffff) << 12;
  if (F(hi) != F(hi)) return;
  // whole block outside the domain?
  float a = F(hi), b = F(hi + 4095);
  if (std::max(a, b) < q.lo || std::min(a, b) > q.hi) return;
  u64 n = 0;
  for (u32 k = 0; k < 256; k++)
    for (int j = 0; j < g_low; j++) {
      // quick: of every row of 16 the roundest value and three that depend on the block and row number
      u32 u = hi | (k << 4) | (g_low == 16 ? (u32)j : j == 0 ? 0 : (u32)((k * 7 + (i >> 3) * 5 + j * 5) & 15));
      float x = F(u);
      if (!(x >= q.lo && x <= q.hi)) continue;
      float g = q.f(x); double r = q.r(x), e;
      n++;
      if (q.k == ULP) e = (double)llabs(ord(g) - ord((float)r));
      else if (q.k == ABS) e = fabs((double)g - (double)(float)r);
      else e = r == 0 ? fabs((double)g) : std::max(0.0, fabs(g - r) - 1e-7 * (q.f == n_tan)) / fabs(r);
#ifdef MEASURE
      if (e > g_max[i >> 20]) { g_max[i >> 20] = e; fprintf(stderr, "%s %.9g %a\n", q.name, e, x); }
#else
      if (!(e <= q.lim)) mc::fail(q.name, "%s(%.9g = %a) = %.9g, expected %.9g: error %.6g, limit %.6g", q.name, x, x, g, r, e, q.lim);
#endif
    }
  mc::nontrivial(n);
  mc::say("%s on bit patterns %08x..%08x: %d values", q.name, hi, hi + 4095, (int)n);
}
// outside every documented domain the results still stay in the range of the function
static void bounds(u64 i) {
  for (u32 k = 0; k < 256; k++) {
    u32 u = (u32)(i << 8 | k); float x = F(u);
    if (x != x) continue;
    if (fabsf(x) < 1e9f) {
      float s = N::sin(x), c = N::cos(x);
      if (!(s >= -1 && s <= 1)) mc::fail("sin:range", "sin(%a) = %a", x, s);
      if (!(c >= -1 && c <= 1)) mc::fail("cos:range", "cos(%a) = %a", x, c);
    }
    float e = N::erf(x), t = N::tanh(x);
    if (!(e >= -1 && e <= 1) || (x > 0 && e < 0) || (x < 0 && e > 0)) mc::fail("erf:range", "erf(%a) = %a", x, e);
    if (!(t >= -1 && t <= 1) || (x > 0 && t < 0) || (x < 0 && t > 0)) mc::fail("tanh:range", "tanh(%a) = %a", x, t);
    float c = N::cosh(x); if (!(c >= 0.9999f)) mc::fail("cosh:range", "cosh(%a) = %a", x, c);
    float ex = N::exp(x); if (!(ex >= 0) || (x >= 0 && ex < 1) || (x <= 0 && ex > 1)) mc::fail("exp:range", "exp(%a) = %a", x, ex);
    if (x < 0) {
      float a = N::log(x), b = N::log10(x), q = N::sqrt(x);
      if (a == a || b == b) mc::fail("log:negative", "log(%a) = %a, log10 = %a", x, a, b);
      if (q == q) mc::fail("sqrt:negative", "sqrt(%a) = %a", x, q);
    }
  }
  mc::nontrivial(256);
}
static void special(u64) {
  MC_CHECK(N::log(0.0f) == -INFINITY && N::log(-0.0f) == -INFINITY && N::log10(0.0f) == -INFINITY && N::log10(-0.0f) == -INFINITY, "log:0", "log of zero is not -inf");
  MC_CHECK(N::log(1.0f) == 0 && N::log10(1.0f) == 0, "log:1", "log of one is not 0");
  MC_CHECK(N::sqrt(0.0f) == 0 && N::sqrt(-0.0f) == 0 && N::sqrt(1.0f) == 1, "sqrt:exact", "sqrt of 0 or 1 is not exact");
  MC_CHECK(N::sqrt(INFINITY) == INFINITY, "sqrt:inf", "sqrt(inf) = %g", N::sqrt(INFINITY));
  MC_CHECK(N::exp(0.0f) == 1 && N::sin(0.0f) == 0 && N::cos(0.0f) == 1 && N::tan(0.0f) == 0 && N::sinh(0.0f) == 0 && N::cosh(0.0f) == 1 && N::tanh(0.0f) == 0 && N::cbrt(0.0f) == 0 && N::erf(0.0f) == 0 && N::erfc(0.0f) == 1 && N::ierf(0.0f) == 0, "at zero", "a function is not exact at 0");
}
// pow: log2 error 7.63e-6 is multiplied by y, exp2 adds 232 ulp
static std::vector<float> PX, PY;
static void power(u64 i) {
  float x = PX[i % PX.size()], y = PY[i / PX.size()];
  float g = N::pow(x, y);
  bool isint = y == floorf(y);
  if (y == 0) { MC_CHECK(g == 1, "pow:0", "pow(%a,%a) = %a, expected 1", x, y, g); return; }
  if (x == 0) { MC_CHECK(g == 0, "pow:zero base", "pow(%a,%a) = %a, expected 0", x, y, g); return; }
  if (y == 1) { MC_CHECK(g == x, "pow:1", "pow(%a,1) = %a", x, g); return; }
  if (x < 0 && !isint) { MC_CHECK(g == 0, "pow:fraction of negative", "pow(%a,%a) = %a, documented 0", x, y, g); return; }
  double r = std::pow((double)x, (double)y);
  double l = log2(fabs((double)x)) * y;
  if (y == 2) { MC_CHECK(l > 128 ? g >= FLT_MAX : fabs(g - r) <= fabs(r) * 1.2e-7 + FLT_MIN, "pow:2", "pow(%a,2) = %a", x, g); return; }
  MC_CHECK(std::signbit(g) == std::signbit(r), "pow:sign", "pow(%a,%a) = %a, expected %g", x, y, g, r);
  if (fabs(l) > 125.9) return;
  double lim = 232 * 1.2e-7 + (fabs((double)y) * 7.63e-6 + fabs(l) * 1.2e-7) * 0.6931472 * 1.01 + 1e-7;
  MC_CHECK(fabs(g - r) <= fabs(r) * lim, "pow", "pow(%.9g,%.9g) = %.9g, expected %.9g: relative error %.3g, limit %.3g", x, y, g, r, fabs(g / r - 1), lim);
  mc::nontrivial();
  mc::say("pow(%a,%a) = %a", x, y, g);
}
static void inverf(u64 i) {  // ierf: erf(ierf(x)) is x again
  for (u32 k = 0; k < 256; k++) {
    float x = F((u32)(i << 8 | k)); if (!(x >= 0 && x <= 0.99999994f)) continue;
    float g = N::ierf(x), h = N::ierf(-x);
    if (g != -h) mc::fail("ierf:odd", "ierf(%a) = %a, ierf(-x) = %a", x, g, h);
    double e = fabs(std::erf((double)g) - x);
    if (!(e <= 2.5e-5)) mc::fail("ierf", "erf(ierf(%.9g)) - x = %g, limit 2.5e-5", x, e);
  }
  mc::nontrivial(256);
}
static void setup() {
  bool t = mc::thorough();
  g_low = t ? 16 : 4;
  for (int e = 1; e < 255; e += t ? 3 : 9) for (int m = 0; m < (t ? 12 : 6); m++) for (int s = 0; s < 2; s++)
    PX.push_back(F((u32)s << 31 | (u32)e << 23 | (u32)((m * 0x155555u + (m > 2 ? m * 3 : 0)) & 0x7fffff)));
  PX.push_back(0.0f); PX.push_back(-0.0f); PX.push_back(1.0f); PX.push_back(-1.0f);
  for (int k = -64; k <= 64; k++) { PY.push_back((float)k); PY.push_back(k * 0.25f); PY.push_back(k + 0.5f); PY.push_back(k * 0.01f); }
  for (int b = 0; b < 31; b++) for (int s = -1; s <= 1; s += 2) for (int d = -1; d <= 1; d++) { PY.push_back(s * (float)((1ll << b) + d)); PY.push_back(s * ldexpf(1, -b)); }
  mc::range("math/approximations", approx, 0, (u64)NFN << 20, t ? "every float of each documented domain (blocks of 4096)" : "of every aligned 16 floats of each documented domain the roundest and three others, varying", 60);
  mc::range("math/ranges", bounds, 0, t ? 1ull << 24 : 1ull << 24, "every float bit pattern (blocks of 256): results stay in the function's range", 60);
  mc::range("math/special", special, 0, 1, "exact special values");
  mc::range("math/pow", power, 0, (u64)PX.size() * PY.size(), "structured bases (every third exponent) times integer, quarter, centesimal and power-of-two exponents");
  mc::range("math/ierf", inverf, 0, 0x3f800000u >> 8, "every float in [0,1) and its negative", 60);
}
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
