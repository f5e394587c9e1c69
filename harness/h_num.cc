// number <-> text.  PART 1 integers, PART 2 float, PART 3 double, PART 4 stof, PART 5 stod.
// FULL: the complete 32-bit spaces (no sanitizer).
#include <charconv>
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "mc.hpp"
#define NANOSTL_IMPLEMENTATION
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanostring.h"
typedef unsigned long long u64;
typedef uint32_t u32;

template <class V> static void int_same(const nanostl::string &s, V v, const char *ty) {
  char b[32];
  auto r = std::to_chars(b, b + 31, v);
  *r.ptr = 0;
  size_t n = r.ptr - b;
  MC_CHECK(s.size() == n && !memcmp(s.c_str(), b, n + 1), std::string("to_string:") + ty, "to_string(%s %s) is \"%.40s\" (size %llu)", ty, b, s.c_str(), (u64)s.size());
}

static float fbits(u32 b) { float f; memcpy(&f, &b, 4); return f; }
static double dbits(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static u32 bitsf(float f) { u32 b; memcpy(&b, &f, 4); return b; }
static u64 bitsd(double f) { u64 b; memcpy(&b, &f, 8); return b; }

// Expected text: shortest digits that read back to the same value (closest among
// those), as d[.ddd]E[-]x ; NaN / Infinity / 0E0.
template <class F> static int expect(F f, char *out) {
  if (std::isnan(f)) return sprintf(out, "NaN");
  char *o = out;
  if (std::signbit(f)) *o++ = '-';
  if (std::isinf(f)) { strcpy(o, "Infinity"); return (int)(o - out) + 8; }
  F a = std::fabs(f);
  if (a == 0) { strcpy(o, "0E0"); return (int)(o - out) + 3; }
  char b[64];
  auto r = std::to_chars(b, b + 63, a, std::chars_format::scientific);
  *r.ptr = 0;
  char *e = strchr(b, 'e');
  memcpy(o, b, e - b); o += e - b;
  *o++ = 'E';
  e++;
  if (*e == '-') *o++ = '-';
  e++;
  while (*e == '0' && e[1]) e++;
  while (*e) *o++ = *e++;
  *o = 0;
  return (int)(o - out);
}
template <class F> static void float_same(F f) {
  char b[64];
  int n = expect(f, b);
  nanostl::string s = nanostl::to_string(f);
  MC_CHECK(s.size() == (u64)n && !memcmp(s.c_str(), b, n + 1), sizeof(F) == 4 ? "to_string:float" : "to_string:double", "to_string(%a) is \"%.40s\", expected \"%s\"", (double)f, s.c_str(), b);
  if (std::isnan(f) || std::isinf(f)) return;
  F back;  // independent of the digit generator: it must read back to the same value
  auto r = std::from_chars(s.c_str(), s.c_str() + n, back, std::chars_format::scientific);
  MC_CHECK(r.ec == std::errc() && r.ptr == s.c_str() + n && !memcmp(&back, &f, sizeof f), "round-trip", "to_string(%a) = \"%s\" reads back as %a", (double)f, s.c_str(), (double)back);
  mc::say("%a -> %s", (double)f, s.c_str());
}

// ---- structured sets
static std::vector<u64> mant(int bits) {  // mantissa patterns of a given width
  std::vector<u64> v;
  u64 M = (1ull << bits) - 1;
  int lo = bits < 30 ? 1024 : 400;
  for (int i = 0; i < lo; i++) { v.push_back(i); v.push_back(M - i); v.push_back((M >> 1) + i); v.push_back((M >> 1) - i); }
  for (int i = 0; i < bits; i++) for (int j = 0; j <= i; j++) { u64 x = (1ull << i) | (1ull << j); v.push_back(x); v.push_back(M ^ x); v.push_back((1ull << i) - (1ull << j)); }
  u64 s = 88172645463325252ull;
  for (int i = 0; i < (bits < 30 ? 1500 : 600); i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; v.push_back(s & M); }
  for (u64 d = 1, k = 0; k < 20; k++, d *= 10) for (int j = -2; j <= 2; j++) v.push_back((d + j) & M);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static std::vector<u64> M23, M52;
static u32 float_case(u64 x) { u64 n = M23.size(); return (u32)((x / n) << 23 | M23[x % n]); }
static u64 double_case(u64 x) { u64 n = M52.size(); return ((x / n) << 52) | M52[x % n]; }

#if PART == 1
static void i32_case(u64 x) { int v = (int)(u32)x; mc::say("to_string(%d)", v); int_same(nanostl::to_string(v), v, "int"); mc::nontrivial(v != 0); }
static void u32_case(u64 x) { unsigned v = (unsigned)x; int_same(nanostl::to_string(v), v, "unsigned int"); mc::nontrivial(v != 0); }
static std::vector<u64> W;
static void wide(std::vector<u64> &w) {
  for (int i = 0; i < 64; i++) for (int j = -300; j <= 300; j++) w.push_back((1ull << i) + (long long)j);
  u64 d = 1;
  for (int k = 0; k < 20; k++, d *= 10) for (int m = 1; m <= 18; m++) for (int j = -150; j <= 150; j++) w.push_back(d * m + (long long)j);
  for (int i = 0; i < 64; i++) for (int j = 0; j < i; j++) { w.push_back((1ull << i) | (1ull << j)); w.push_back(~((1ull << i) | (1ull << j))); w.push_back((1ull << i) - (1ull << j)); }
  // every length times repeated digit patterns (0s and 9s inside)
  for (int len = 1; len <= 20; len++) for (int p = 0; p < 100; p++) { u64 v = 0; for (int i = 0; i < len; i++) v = v * 10 + ((i & 1) ? p % 10 : p / 10); w.push_back(v); u64 z = 1; for (int i = 1; i < len; i++) z *= 10; w.push_back(z * (p / 10) + p % 10); }
  for (u64 i = 0; i < 70000; i++) w.push_back(i);
  size_t n = w.size();
  for (size_t i = 0; i < n; i++) w.push_back(0ull - w[i]);
  std::sort(w.begin(), w.end());
  w.erase(std::unique(w.begin(), w.end()), w.end());
}
static void wide_case(u64 i) {
  u64 v = W[i];
  mc::say("value 0x%llx", v);
  int_same(nanostl::to_string((nanostl::int64_t)v), (long long)v, "int64");
  int_same(nanostl::to_string((nanostl::uint64_t)v), v, "uint64");
  int_same(nanostl::to_string((int)v), (int)v, "int");
  int_same(nanostl::to_string((unsigned int)v), (unsigned)v, "unsigned int");
  mc::nontrivial(v != 0);
}
static void setup() {
#ifdef FULL
  bool t = mc::thorough();
  mc::range("to_string/int-all", i32_case, 0, t ? 1ull << 32 : 1ull << 31, "every 32-bit int (quick: every one that is not negative)", 600);
  if (t) mc::range("to_string/unsigned-all", u32_case, 0, 1ull << 32, "every 32-bit unsigned int", 600);
#else
  wide(W);
  mc::range("to_string/int64", wide_case, 0, W.size(), "structured 64-bit set (powers of 2 and 10 and multiples +-150, 2-bit patterns, every length) as int64, uint64, int and unsigned");
  mc::range("to_string/int-small", i32_case, (1ull << 32) - 0, (1ull << 32) + 300000, "every int in 0..300000");
  mc::range("to_string/int-neg", i32_case, (1ull << 32) - 300000, 1ull << 32, "every int in -300000..-1");
  mc::range("to_string/int-min", i32_case, 0x80000000ull - 100000, 0x80000000ull + 100000, "the ends of the int range");
#endif
}
#elif PART == 2
static void fc(u64 x) { float_same(fbits(float_case(x))); mc::nontrivial(); }
static void fall(u64 x) { float_same(fbits((u32)x)); mc::nontrivial(); }
static void f8(u64 x) { float_same(fbits((u32)(x * 128 + 85))); mc::nontrivial(); }
// floats nearest to short decimals and their neighbours
static void fdec(u64 x) {
  int k = (int)(x % 90) - 50; int m = (int)(x / 90);
  char b[40]; sprintf(b, "%de%d", m, k);
  u32 c = bitsf(strtof(b, 0));
  for (int d = -1; d <= 1; d++) { u32 y = c + d; if (y < 0x7f800000u) float_same(fbits(y)); }
  mc::nontrivial();
}
static void setup() {
#ifdef FULL
  mc::range("to_string/float-all", fall, 0, mc::thorough() ? 1ull << 32 : 1ull << 31, "every float bit pattern (quick: every one with a positive sign)", 600);
#else
  M23 = mant(23);
  mc::range("to_string/float", fc, 0, 512 * M23.size(), "every sign and exponent times structured mantissas");
  mc::range("to_string/float-decimal", fdec, 0, 90 * 2000, "m*10^k, m < 2000, all k, and both neighbours");
  mc::range("to_string/float-stride", f8, 0, (1ull << 24), "every 128th positive float under AddressSanitizer", 120);
#endif
}
#elif PART == 3
static void dc(u64 x) { float_same(dbits(double_case(x))); mc::nontrivial(); }
static void ddec(u64 x) {
  int k = (int)(x % 660) - 345; int m = (int)(x / 660);
  char b[40]; sprintf(b, "%de%d", m, k);
  u64 c = bitsd(strtod(b, 0));
  for (int d = -1; d <= 1; d++) { u64 y = c + d; if (y < 0x7ff0000000000000ull) float_same(dbits(y)); }
  mc::nontrivial();
}
static void dint(u64 x) { float_same((double)x); float_same(-(double)x / 8); float_same((double)x / 1024); float_same((double)x * 1e15); mc::nontrivial(); }
static void setup() {
  M52 = mant(52);
  bool t = mc::thorough();
  mc::range("to_string/double", dc, 0, 4096 * (u64)M52.size(), "every sign and exponent times structured mantissas", 120);
  mc::range("to_string/double-decimal", ddec, 0, 660ull * (t ? 100000 : 3000), "m*10^k, m < 3000 (thorough 100000), all k, and both neighbours", 120);
  mc::range("to_string/double-int", dint, 0, t ? 20000000 : 500000, "integers, eighths, 1/1024ths", 120);
}
#else
#if PART == 4
typedef float F;
static const int MAXD = 9;
static F parse(const char *s) { return nanostl::stof(nanostl::string(s)); }
static F ref(const char *s) { return strtof(s, 0); }
static const char *FN = "stof";
#else
typedef double F;
static const int MAXD = 17;
static F parse(const char *s) { return nanostl::stod(nanostl::string(s)); }
static F ref(const char *s) { return strtod(s, 0); }
static const char *FN = "stod";
#endif
// 0: malformed, 1: literal, 2: literal after a plus sign or blank, which may be taken or rejected
static int classify(const char *s, int *sig, int *esig) {
  const char *p = s;
  *sig = *esig = 0;
  int k = 1;
  if (*p == '+' || *p == ' ' || (*p >= 9 && *p <= 13)) { k = 2; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; if (*p == '+') p++; else if (*p == '-') p++; }
  else if (*p == '-') p++;
  bool dot = false; int nd = 0;
  for (; (*p >= '0' && *p <= '9') || *p == '.'; p++) {
    if (*p == '.') { if (dot) return 0; dot = true; continue; }
    nd++;
    if (*sig || *p != '0') ++*sig;
  }
  if (!nd) return 0;
  if (*p == 'e' || *p == 'E') {
    p++;
    if (*p == '-' || *p == '+') p++;
    int ne = 0;
    for (; *p >= '0' && *p <= '9'; p++) { ne++; if (*esig || *p != '0') ++*esig; }
    if (!ne) return 0;
  }
  if (*p) return 0;
  return k;
}
static bool same(F a, F b) { return !memcmp(&a, &b, sizeof a); }
static void one(const char *s) {
  int sig, esig;
  int k = classify(s, &sig, &esig);
  F v = parse(s);
  if (k == 0) { MC_CHECK(v != v, std::string(FN) + ":malformed", "%s(\"%s\") is %a, expected NaN", FN, s, (double)v); return; }
  F e = ref(s);
  bool ok = same(v, e);
  if (!ok && k == 2 && v != v) ok = true;
  if (!ok && (sig > MAXD || esig > 4) && v != v) ok = true;  // documented: longer input is rejected with NaN
  MC_CHECK(ok, std::string(FN) + (sig > MAXD || esig > 4 ? ":long" : ":value"), "%s(\"%s\") is %a, nearest value is %a", FN, s, (double)v, (double)e);
  mc::nontrivial();
  mc::say("\"%s\" -> %a", s, (double)v);
}
// every byte (NUL among them) in every place of a literal, replacing a character or inserted
static void bytes(u64 x) {
  static const char *T[] = {"1", "0", "-0", "1.5", "-1.25e3", ".5", "7.", "12345678", "3E-04", "0.0001e+10", "123456789012345", "9e99999", "123456789012345678901234567890"};
  int ch = (int)(x % 256); x /= 256;
  std::string t(T[x]);
  for (size_t i = 0; i <= t.size(); i++) for (int ins = 0; ins < 2; ins++) {
    if (!ins && i == t.size()) continue;
    std::string u(t);
    if (ins) u.insert(i, 1, (char)ch); else u[i] = (char)ch;
    if (ch) { one(u.c_str()); continue; }
    nanostl::string n(u.data(), u.size());
#if PART == 4
    F v = nanostl::stof(n);
#else
    F v = nanostl::stod(n);
#endif
    MC_CHECK(v != v, std::string(FN) + ":malformed", "%s of \"%s\" with a NUL character at %zu is %a, expected NaN", FN, t.c_str(), i, (double)v);
  }
}
static const char AL[] = "0159.-eE+x";
static int g_len;
static void shorts(u64 x) {  // all strings over AL of length <= g_len, base-11 with 10 = end
  char b[16]; int n = 0;
  for (int i = 0; i < g_len; i++) { int d = (int)(x % 11); x /= 11; if (d == 10) { if (x || i + 1 < g_len) { for (int j = i + 1; j < g_len; j++) { if (x % 11 != 10) return; x /= 11; } } break; } b[n++] = AL[d]; }
  b[n] = 0;
  one(b);
}
// m * 10^k in several spellings
static int g_k0, g_k1;
static void spell(u64 x) {
  int nk = g_k1 - g_k0 + 1;
  int k = (int)(x % nk) + g_k0; u64 m = x / nk;
  char d[32], b[512];
  sprintf(d, "%llu", m);
  int n = (int)strlen(d);
  sprintf(b, "%llue%d", m, k); one(b);
  sprintf(b, "-%lluE%+d", m, k); one(b);
  for (int p = 0; p <= n; p += (n > 4 ? 3 : 1)) { std::string t = std::string(d, p) + "." + (d + p); sprintf(b, "%se%d", t.c_str(), k + n - p); one(b); }
  sprintf(b, "000%llue%s%04d", m, k < 0 ? "-" : "", abs(k)); one(b);
  if (k >= -40 && k < 0) { std::string t = "0."; int z = -k - n; if (z >= 0) { t += std::string(z, '0') + d; one(t.c_str()); one(("-" + t).c_str()); one((t + "000").c_str()); } else { t = std::string(d, n + k) + "." + (d + n + k); one(t.c_str()); } }
  if (k >= 0 && k < 20) { std::string t = std::string(d) + std::string(k, '0'); one(t.c_str()); one((t + ".").c_str()); one((t + ".0").c_str()); }
}
// decimal neighbourhood of binary values: MAXD digits, exact value and midpoint +- 1 in the last place
static void near(F f, F g) {
  char b[64], c[64];
  F v[1] = {f};
  if (!(f == f) || std::isinf(f)) return;
  sprintf(b, "%.*e", MAXD - 1, (double)v[0]);
  one(b);
  MC_CHECK(same(parse(b), f), std::string(FN) + ":round-trip", "%s(\"%s\") is not %a", FN, b, (double)f);
  if (!(g == g) || std::isinf(g)) return;
  long double mid = ((long double)f + (long double)g) / 2;
  for (int dg = MAXD - 3; dg <= MAXD - 1; dg++) {
    sprintf(b, "%.*Le", dg, mid);
    one(b);
    // last digit +- 1
    char *e = strchr(b, 'e');
    for (int q = -1; q <= 1; q += 2) { strcpy(c, b); char *z = c + (e - b) - 1; if (*z != '.' && *z + q >= '0' && *z + q <= '9') { *z += q; one(c); } }
  }
}
static void bin(u64 x) {
#if PART == 4
  u32 b = float_case(x); near(fbits(b), fbits(b + 1));
#else
  u64 K = mc::thorough() ? 1 : 4;  // quick: every exponent, every 4th mantissa pattern
  u64 n = (M52.size() + K - 1) / K, b = ((x / n) << 52) | M52[(x % n) * K];
  near(dbits(b), dbits(b + 1));
#endif
}
#if PART == 4
static void fullrt(u64 x) {
  float f = fbits((u32)x);
  char b[40];
  auto r = std::to_chars(b, b + 39, f, std::chars_format::scientific, 8);
  *r.ptr = 0;
  float v = parse(b);
  MC_CHECK(same(v, f), "stof:round-trip", "stof(\"%s\") is %a, expected %a", b, v, f);
  mc::nontrivial();
}
#endif
// runs of zeros in every place: before the point, after it, and in the exponent, compensated by the exponent or not
static void zeros(u64 x) {
  static const char *D[] = {"1", "9", "15", "123", "4503599", "16777217", "999999999", "11754943508222875", "99999999999999999", "22250738585072014"};
  static const int Q[] = {0, 1, -1, 5, -5, 20, -20, 37, -38, -44, -45, 38, 300, -300, 308, -308, -323, -324, 309};
  static const int B[] = {0, 1, 2, 9, 17, 40, 400};
  static const int X[] = {0, 1, 3, 4, 9};
  int z = (int)(x % 420); x /= 420;
  const char *d = D[x % 10]; x /= 10;
  int n = (int)strlen(d);
  if (n > MAXD) return;
  for (int b : B) for (int q : Q) for (int xz : X) {
    int e = z + q;  // the value is 0.d * 10^q
    char t[1000];
    snprintf(t, sizeof t, "%s.%s%se%s%s%d", std::string(b, '0').c_str(), std::string(z, '0').c_str(), d, e < 0 ? "-" : xz & 1 ? "+" : "", std::string(xz, '0').c_str(), abs(e));
    one(t);
  }
  for (int b : B) { std::string t = std::string(b, '0') + "." + std::string(z, '0') + d; one(t.c_str()); t = "-" + std::string(z, '0') + d; one(t.c_str()); t += ".0e0"; one(t.c_str()); t = std::string(z, '0') + d + "e" + std::string(b, '0'); one(t.c_str()); t = std::string(z, '0') + "." + std::string(b, '0') + "e" + std::to_string(z); one(t.c_str()); }
}
// output of to_string parses back
static void rt(u64 x) {
#if PART == 4
  F f = fbits(float_case(x));
#else
  F f = dbits(double_case(x));
#endif
  if (!(f == f) || std::isinf(f)) return;
  nanostl::string s = nanostl::to_string(f);
  MC_CHECK(same(parse(s.c_str()), f), std::string(FN) + ":inverse", "%s(to_string(%a)) with text \"%s\" gives %a", FN, (double)f, s.c_str(), (double)parse(s.c_str()));
  mc::nontrivial();
}
static void setup() {
  bool t = mc::thorough();
#ifdef FULL
#if PART == 4
  mc::range("stof/round-trip-all", fullrt, 0, 0x7f800000ull, "every positive finite float printed with 9 digits", 600);
#endif
#else
  M23 = mant(23); M52 = mant(52);
  g_len = t ? 7 : 6;
  u64 n = 1; for (int i = 0; i < g_len; i++) n *= 11;
  std::string f(FN);
  mc::range(f + "/short", shorts, 0, n, "every text of length <= 6 (thorough 7) over the characters 0159.-eE+x", 120);
#if PART == 4
  g_k0 = -62; g_k1 = 48;
  mc::range(f + "/binary", bin, 0, 255 * M23.size(), "9-digit texts around every structured float and around the midpoint to its neighbour", 120);
  mc::range(f + "/inverse", rt, 0, 512 * M23.size(), "stof(to_string(x)) for every structured float", 120);
#else
  g_k0 = -345; g_k1 = 312;
  u64 K = t ? 1 : 4;
  mc::range(f + "/binary", bin, 0, 2047ull * ((M52.size() + K - 1) / K), "17-digit texts around every structured double and around the midpoint to its neighbour", 120);
  mc::range(f + "/inverse", rt, 0, 4096ull * M52.size(), "stod(to_string(x)) for every structured double", 120);
#endif
  mc::range(f + "/bytes", bytes, 0, 13 * 256, "every byte in every place of 13 literals, replacing a character or inserted");
  mc::range(f + "/zeros", zeros, 0, 4200, "runs of up to 419 zeros before and after the point and in the exponent, compensated or not");
  mc::range(f + "/spellings", spell, 0, (u64)(g_k1 - g_k0 + 1) * (t ? 30000 : PART == 4 ? 5000 : 1500), "m*10^k for every m < N and every exponent, about ten spellings each", 120);
#endif
}
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
