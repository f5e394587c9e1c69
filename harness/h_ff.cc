// The bundled decimal parser (include/fast_float).
// PART 1: every short text (grammar, extent of the match, value); exact-size buffers under ASan.
// PART 2: values: exact midpoints between neighbouring floats/doubles and texts just beside them,
//         long digit strings with every position of the point, every decimal exponent.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "mc.hpp"
#include "fast_float/fast_float.h"
typedef unsigned long long u64;
typedef fast_float::chars_format fmt_t;
static const fmt_t FMT[3] = {fast_float::general, fast_float::fixed, fast_float::scientific};
static const char *FN[3] = {"general", "fixed", "scientific"};

template <class T> static T str_to(const char *s);
template <> float str_to<float>(const char *s) { return strtof(s, nullptr); }
template <> double str_to<double>(const char *s) { return strtod(s, nullptr); }
template <class T> static bool same(T a, T b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b) && std::signbit(a) == std::signbit(b);
  return !memcmp(&a, &b, sizeof a);
}
template <class T> static const char *tn() { return sizeof(T) == 4 ? "float" : "double"; }
static std::string vis(const std::string &s) { return s.size() <= 90 ? s : s.substr(0, 40) + "...(" + std::to_string(s.size()) + " characters)..." + s.substr(s.size() - 30); }
static const u64 MARK = 0x7ff4deadbeef0123ull;
template <class T> static T marker() { T v; memcpy(&v, &MARK, sizeof v); return v; }

// one call on an exact-size heap buffer; returns consumed length, or -1 for an error
template <class T> static int call(const std::string &s, fmt_t f, char dot, T &v, bool exact) {
  const char *p = s.data();
  char *q = nullptr;
  if (exact) { q = (char *)malloc(s.size() ? s.size() : 1); memcpy(q, p, s.size()); p = q; }
  v = marker<T>();
  fast_float::from_chars_result r = dot == '.' ? fast_float::from_chars(p, p + s.size(), v, f)
                                               : fast_float::from_chars_advanced(p, p + s.size(), v, fast_float::parse_options(f, dot));
  long n = r.ptr - p;
  free(q);
  MC_CHECK(n >= 0 && n <= (long)s.size(), "extent", "\"%s\": the returned position is outside the text", vis(s).c_str());
  if (r.ec != nanostl::errc()) {
    MC_CHECK(r.ec == nanostl::errc::invalid_argument, "error", "\"%s\": error code %d", vis(s).c_str(), (int)r.ec);
    MC_CHECK(n == 0, "extent", "\"%s\": rejected, but the returned position is %ld", vis(s).c_str(), n);
    T m = marker<T>();
    MC_CHECK(!memcmp(&v, &m, sizeof v), "error", "\"%s\": rejected, but the value was changed", vis(s).c_str());
    return -1;
  }
  return (int)n;
}

// ---- reference grammar ------------------------------------------------------
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool ci(const std::string &s, size_t i, const char *w) {
  for (; *w; w++, i++) if (i >= s.size() || (s[i] | 32) != *w || !((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) return false;
  return true;
}
// consumed length or -1; kind 0 number, 1 nan, 2 inf
static int ref_match(const std::string &s, int f, char dot, int &kind, bool &neg) {
  size_t i = 0, n = s.size();
  kind = 0;
  neg = i < n && s[i] == '-';
  if (neg) i++;
  size_t st = i, nd = 0;
  while (i < n && dig(s[i])) i++, nd++;
  if (i < n && s[i] == dot) {
    i++;
    while (i < n && dig(s[i])) i++, nd++;
  }
  bool ok = nd > 0, exp = false;
  if (ok && f != 1 && i < n && (s[i] == 'e' || s[i] == 'E')) {
    size_t j = i + 1;
    if (j < n && (s[j] == '-' || s[j] == '+')) j++;
    if (j < n && dig(s[j])) {
      while (j < n && dig(s[j])) j++;
      i = j;
      exp = true;
    }
  }
  if (ok && f == 2 && !exp) ok = false;
  if (ok) return (int)i;
  i = st;
  if (ci(s, i, "nan")) {
    kind = 1;
    i += 3;
    if (i < n && s[i] == '(') {
      size_t j = i + 1;
      while (j < n && ((s[j] >= 'a' && s[j] <= 'z') || (s[j] >= 'A' && s[j] <= 'Z') || dig(s[j]) || s[j] == '_')) j++;
      if (j < n && s[j] == ')') i = j + 1;
    }
    return (int)i;
  }
  if (ci(s, i, "infinity")) { kind = 2; return (int)i + 8; }
  if (ci(s, i, "inf")) { kind = 2; return (int)i + 3; }
  return -1;
}
template <class T> static void text_one(const std::string &s, int f, char dot) {
  T v;
  int n = call<T>(s, FMT[f], dot, v, true), kind;
  bool neg;
  int want = ref_match(s, f, dot, kind, neg);
  MC_CHECK(n == want, "extent", "%s from \"%s\" (%s): %d characters are taken as the number, expected %d", tn<T>(), vis(s).c_str(), FN[f], n, want);
  if (n < 0) return;
  T e;
  if (kind == 0) {
    std::string m = s.substr(0, n);
    for (char &c : m) if (c == dot) c = '.';
    e = str_to<T>(m.c_str());
  } else e = kind == 1 ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
  if (kind && neg) e = -e;
  MC_CHECK(same(v, e), "value", "%s from \"%s\" (%s) is %a instead of %a", tn<T>(), vis(s).c_str(), FN[f], (double)v, (double)e);
}
static void text_all(const std::string &s, char dot) {
  for (int f = 0; f < 3; f++) { text_one<double>(s, f, dot); text_one<float>(s, f, dot); }
}
static std::string nth(uint64_t i, const char *al, int a, int maxlen) {  // all texts of length 0..maxlen
  uint64_t c = 1;
  int len = 0;
  while (len < maxlen && i >= c) { i -= c; c *= a; len++; }
  std::string s;
  for (int k = 0; k < len; k++) { s += al[i % a]; i /= a; }
  return s;
}
static uint64_t count(int a, int maxlen) { uint64_t n = 0, c = 1; for (int l = 0; l <= maxlen; l++) { n += c; c *= a; } return n; }

#if PART == 1
static const char NUM[] = "019.eE-+, x";  // the last ones never belong to a number with '.' as the point
static int g_nl;
static void numbers(uint64_t b) {  // blocks of 512 texts
  uint64_t n = count(8, g_nl);
  for (uint64_t i = b * 512; i < (b + 1) * 512 && i < n; i++) { mc::nontrivial(1); text_all(nth(i, "019.eE-+", 8, g_nl), '.'); }
}
static void foreign(uint64_t b) {
  uint64_t n = count(7, 5);
  for (uint64_t i = b * 512; i < (b + 1) * 512 && i < n; i++) {
    std::string s = nth(i, "05.,e- ", 7, 5);
    mc::nontrivial(1);
    text_all(s, '.');
    text_all(s, ',');
  }
}
static void words(uint64_t b) {
  uint64_t n = count(9, 6);
  for (uint64_t i = b * 512; i < (b + 1) * 512 && i < n; i++) {
    std::string s = nth(i, "naf1(-)_I", 9, 6);
    mc::nontrivial(1);
    text_all(s, '.');
    text_all("nan(" + s, '.');
  }
}
static void infinity(uint64_t i) {  // every capitalisation, every prefix, one following or changed character
  std::string w = "infinity";
  for (int k = 0; k < 8; k++) if (i >> k & 1) w[k] -= 32;
  for (int neg = 0; neg < 2; neg++)
    for (size_t l = 0; l <= 8; l++)
      for (int t = 0; t < 5; t++) {
        std::string s = (neg ? "-" : "") + w.substr(0, l);
        if (t) s += "1.x-"[t - 1];
        text_all(s, '.');
      }
  for (int k = 0; k < 8; k++)
    for (int c = 1; c < 256; c++) { std::string s = w; s[k] = (char)c; text_all(s, '.'); }
}
// digits d1 (length a) point d2 (length b) exponent: every pair of lengths, so that every way of taking eight
// digits at a time, and every end of the buffer, is met; zeros in front; exact-size buffers
static void lengths(uint64_t i) {
  int a = i % 45, b = i / 45;
  static const char *P[6] = {"1234567891", "9999999999", "0000000000", "1000000000", "9007199254", "0000000001"};
  for (int p = 0; p < 6; p++)
    for (int q = 0; q < 6; q++)
      for (int z = 0; z < 2; z++) {
        std::string s;
        if (z) s = "00000000000";
        for (int k = 0; k < a; k++) s += P[p][k % 10];
        if (b) { s += '.'; for (int k = 1; k < b; k++) s += P[q][k % 10]; }
        text_all(s, '.');
        text_all(s + "e-7", '.');
        text_all(s + ":", '.');
        text_all(s + "/", '.');
        text_all("-" + s + "E+12", '.');
        if (p == q) {
          std::string t = s;
          for (char &c : t) if (c == '.') c = ',';
          text_all(t, ',');
          text_all("0," + t, ',');
          text_all(s, ',');
        }
      }
  mc::nontrivial(1);
}
// a character that is not a digit at every place of a run of digits
static void intruder(uint64_t i) {
  int len = i % 33 + 1, at = i / 33;
  if (at >= len) return;
  for (int c = 0; c < 256; c++) {
    std::string s(len, '7');
    s[at] = (char)c;
    text_all(s, '.');
    text_all("0." + s, '.');
    text_all("1e" + s, '.');
  }
  mc::nontrivial(1);
}
static void setup() {
  g_nl = mc::thorough() ? 8 : 7;
  mc::range("parse/short", numbers, 0, count(8, g_nl) / 512 + 1, "every text of up to 7 (thorough 8) characters over 019.eE-+, three formats, float and double");
  mc::range("parse/foreign", foreign, 0, count(7, 5) / 512 + 1, "every text of up to 5 characters over 05.,e- and blank, with point and with comma as the decimal point");
  mc::range("parse/words", words, 0, count(9, 6) / 512 + 1, "every text of up to 6 characters over naf1(-)_I, alone and after nan(");
  mc::range("parse/infinity", infinity, 0, 256, "infinity: every capitalisation, prefix, follower, and every replacement of one character");
  mc::range("parse/lengths", lengths, 0, 45 * 45, "every pair of digit counts up to 44 before and after the point, 6x6 digit patterns, leading zeros, followers");
  mc::range("parse/intruder", intruder, 0, 33 * 33, "every byte at every place of digit runs up to 33");
}

#else
// ---- exact midpoints ----------------------------------------------------------
template <class T> struct FP;
template <> struct FP<float> { typedef uint32_t U; enum { M = 23, E = 255, DEG = 118 }; };
template <> struct FP<double> { typedef uint64_t U; enum { M = 52, E = 2047, DEG = 790 }; };
template <class T> static T from_bits(typename FP<T>::U b) { T f; memcpy(&f, &b, sizeof f); return f; }
template <class T> static void expect(const std::string &s, T want, const char *sig, bool exact = false) {
  T v;
  int n = call<T>(s, fast_float::general, '.', v, exact);
  MC_CHECK(n == (int)s.size(), "extent", "\"%s\": %d of %d characters are taken", vis(s).c_str(), n, (int)s.size());
  MC_CHECK(same(v, want), sig, "%s from \"%s\" is %a instead of %a", tn<T>(), vis(s).c_str(), (double)v, (double)want);
}
// the decimal digits of an exact value: d1 d2 d3 ... x 10^e (value = 0.d1d2d3... * 10^e)
struct Dec { std::string d; int e; };
static Dec exact_dec(long double x) {
  char b[1200];
  snprintf(b, sizeof b, "%.1100Le", x);  // glibc prints the exact value; a midpoint of doubles has at most 768 digits
  Dec r;
  char *ex = strchr(b, 'e');
  r.e = atoi(ex + 1) + 1;
  r.d = b[0];
  r.d.append(b + 2, ex - b - 2);
  while (r.d.size() > 1 && r.d.back() == '0') r.d.pop_back();
  return r;
}
// spelling k of a decimal: where the point stands and what the exponent makes up for
static std::string spell(const Dec &x, int k) {
  char b[32];
  switch (k) {
    case 0: snprintf(b, 32, "e%d", x.e - 1); return x.d.substr(0, 1) + (x.d.size() > 1 ? "." + x.d.substr(1) : "") + b;
    case 1: snprintf(b, 32, "e%d", x.e - (int)x.d.size()); return x.d + b;                          // an integer
    case 2: snprintf(b, 32, "E%+d", x.e); return "0." + x.d + b;
    case 3: {                                                                                     // without exponent
      if (x.e <= 0) return "0." + std::string(-x.e, '0') + x.d;
      if (x.e >= (int)x.d.size()) return x.d + std::string(x.e - x.d.size(), '0');
      return x.d.substr(0, x.e) + "." + x.d.substr(x.e);
    }
    case 4: snprintf(b, 32, "e%d", x.e + 25); return "0." + std::string(25, '0') + x.d + b;
    default: {
      size_t h = x.d.size() / 2;
      snprintf(b, 32, "e%d", x.e - (int)h);
      return "000" + x.d.substr(0, h) + "." + x.d.substr(h) + "00000" + b;
    }
  }
}
static Dec dec_inc(Dec x) {  // one more in the last place
  int i = (int)x.d.size() - 1;
  while (i >= 0 && x.d[i] == '9') x.d[i--] = '0';
  if (i >= 0) x.d[i]++;
  else { x.d = "1" + x.d; x.e++; }
  return x;
}
static Dec dec_dec(Dec x) {
  int i = (int)x.d.size() - 1;
  while (x.d[i] == '0') x.d[i--] = '9';
  x.d[i]--;
  if (i == 0 && x.d[0] == '0') { x.d.erase(0, 1); x.e--; if (x.d.empty()) x.d = "0"; }
  return x;
}
template <class T> static void around(typename FP<T>::U b, int spellings) {
  T lo = from_bits<T>(b), hi = from_bits<T>(b + 1);
  bool top = ((b + 1) >> FP<T>::M) == FP<T>::E;  // the neighbour above is infinity: midpoint with the next power of two
  long double m = top ? (long double)lo + ((long double)lo - (long double)from_bits<T>(b - 1)) / 2 : ((long double)lo + (long double)hi) / 2;
  T even = b & 1 ? hi : lo;
  Dec x = exact_dec(m);
  Dec pad = x;  // short midpoints need more digits before one unit in the last place is a small step
  if (pad.d.size() < 25) pad.d.resize(25, '0');
  Dec up = pad, dn = dec_dec(pad), far = pad, fdn;
  up.d += "1";
  far.d += std::string(30, '0') + "1";
  // far beyond every digit limit
  Dec vfar = x; vfar.d += std::string(FP<T>::DEG > x.d.size() ? FP<T>::DEG - x.d.size() : 3, '0') + "1";
  fdn = dn; fdn.d += std::string(60, '9');
  for (int k = 0; k < spellings; k++) {
    expect<T>(spell(x, k), even, "midpoint");
    expect<T>(spell(up, k), hi, "above-midpoint");
    expect<T>(spell(far, k), hi, "above-midpoint");
    expect<T>(spell(vfar, k), hi, "above-midpoint");
    expect<T>(spell(dn, k), lo, "below-midpoint");
    expect<T>(spell(fdn, k), lo, "below-midpoint");
  }
  // an integer part longer than every digit limit, the deciding digit after the point
  {
    char e[32];
    Dec z = x;
    size_t w = FP<T>::DEG + 5 > x.d.size() ? FP<T>::DEG + 5 : x.d.size();
    z.d.resize(w, '0');
    snprintf(e, 32, "e%d", x.e - (int)w);
    expect<T>(z.d + ".0" + e, even, "midpoint");
    expect<T>(z.d + ".0000000000001" + e, hi, "above-midpoint");
    Dec y = dec_dec(z);
    snprintf(e, 32, "e%d", y.e - (int)y.d.size());
    expect<T>(y.d + ".99999" + e, lo, "below-midpoint");
  }
  // cut after k digits: below the midpoint (or it, when nothing but zeros is cut); the next decimal is above it
  static const int CUT[] = {1, 2, 5, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 24, 27, 30, 38, 57, 100, 112, 113, 114, 115, 300, 766, 767, 768, 769, 770};
  for (int c : CUT)
    if (c < (int)x.d.size()) {
      Dec y = x;
      y.d.resize(c);
      Dec z = dec_inc(y);
      int sp = c % spellings;
      std::string ys = spell(y, sp), zs = spell(z, sp);
      if (c <= 25) {  // the cut leaves the neighbourhood: ask the C library
        expect<T>(ys, str_to<T>(ys.c_str()), "value");
        expect<T>("-" + zs, -str_to<T>(zs.c_str()), "value");
      } else {
        expect<T>(ys, lo, "below-midpoint");
        expect<T>("-" + zs, -hi, "above-midpoint");
      }
    }
  // the values themselves, exactly and at a few lengths
  char t[64];
  for (int p : {7, 8, 9, 15, 16, 17, 20, 25}) {
    snprintf(t, 64, "%.*e", p - 1, (double)lo);
    expect<T>(t, str_to<T>(t), "value");
  }
}
static std::vector<uint64_t> mantissas(int bits, bool many) {
  std::vector<uint64_t> v;
  uint64_t full = (1ull << bits) - 1;
  for (uint64_t i = 0; i < (many ? 12u : 3u); i++) { v.push_back(i); v.push_back(full - i); }
  for (int k = 0; k < bits; k += many ? 1 : 5) { v.push_back(1ull << k); v.push_back((full >> k) & full); v.push_back(full ^ (1ull << k)); }
  v.push_back(0x5555555555555555ull & full);
  v.push_back(0xAAAAAAAAAAAAAAAAull & full);
  uint64_t r = 0x9E3779B97F4A7C15ull;
  for (int k = 0; k < (mc::thorough() ? 2000 : many ? 40 : 6); k++) { r = r * 6364136223846793005ull + 1442695040888963407ull; v.push_back((r >> 7) & full); }
  return v;
}
template <class T> static void midpoints(uint64_t e) {
  typedef typename FP<T>::U U;
  bool many = true;
  for (uint64_t m : mantissas(FP<T>::M, many)) {
    U b = ((U)e << FP<T>::M) | (U)m;
    around<T>(b, 6);
    mc::nontrivial(1);
  }
}
static void mid_d(uint64_t e) { midpoints<double>(e); }
static void mid_f(uint64_t e) { midpoints<float>(e); }
// every subnormal neighbourhood of float in blocks (thorough); of the smallest ones in the quick tier
static void subnormal_f(uint64_t b) { for (uint32_t i = 0; i < 64; i++) around<float>((uint32_t)b * 64 + i, 1); mc::nontrivial(64); }
// every decimal exponent with digit strings of every length
template <class T> static void exponents(long q) {
  static const char *D = "98765432109876543210987654321";
  static const char *D2 = "10000000000000000000000000001";
  static const char *D3 = "99999999999999999999999999999";
  static const char *D4 = "17976931348623157081452742373";
  static const char *D5 = "22250738585072013830902327173";
  static const char *D6 = "18014398509481985000000000001";
  char e[32];
  for (const char *d : {D, D2, D3, D4, D5, D6})
    for (int n = 1; n <= 28; n++) {
      snprintf(e, 32, "e%ld", q);
      std::string s = std::string(d, n) + e;
      expect<T>(s, str_to<T>(s.c_str()), "value");
      s = std::string(d, 1) + "." + std::string(d + 1, n - 1) + e;
      expect<T>(s, str_to<T>(s.c_str()), "value");
      s = "-0." + std::string(n, '0') + std::string(d, n) + e;
      expect<T>(s, str_to<T>(s.c_str()), "value");
    }
}
static void exps(uint64_t i) { long q = (long)i - 420; exponents<double>(q); exponents<float>(q); mc::nontrivial(1); }
// exact ties: odd multiples of powers of two that both scale exactly: w*10^q with w < 2^64 around ties
static void ties(uint64_t i) {
  // integers (2m+1)*2^k between 2^54 and 2^64, and their decimal fractions w*5^-j scaled
  int k = i % 11, j = i / 11;  // j: extra factor of ten
  for (uint64_t m : mantissas(52, true)) {
    uint64_t w = (((1ull << 53) + 2 * (m & ((1ull << 51) - 1)) + 1) << k);
    for (int d = -1; d <= 1; d++) {
      std::string s = std::to_string(w + d);
      for (int z = 0; z < 3; z++) {
        std::string t = z == 0 ? s : z == 1 ? s + std::string(j, '0') + "e-" + std::to_string(j) : s.substr(0, s.size() - j % 15) + "." + s.substr(s.size() - j % 15) + "e" + std::to_string(j % 15);
        expect<double>(t, str_to<double>(t.c_str()), "tie");
        expect<float>(t, str_to<float>(t.c_str()), "tie");
      }
      for (int q = -30; q <= 30; q += 1) {
        std::string t = s + "e" + std::to_string(q);
        expect<double>(t, str_to<double>(t.c_str()), "tie");
        expect<float>(t, str_to<float>(t.c_str()), "tie");
      }
    }
    uint32_t w2 = ((1u << 24) + 2 * (uint32_t)(m & ((1u << 22) - 1)) + 1);
    for (int d = -1; d <= 1; d++)
      for (int q = -25; q <= 20; q++) {
        std::string t = std::to_string(((uint64_t)w2 << k) + d) + "e" + std::to_string(q);
        expect<float>(t, str_to<float>(t.c_str()), "tie");
        expect<double>(t, str_to<double>(t.c_str()), "tie");
      }
  }
  mc::nontrivial(1);
}
// halves of w*10^q that are exact: m*5^j is a tie for a negative exponent
static void small_ties(uint64_t j) {
  unsigned __int128 p5 = 1;
  for (uint64_t i = 0; i < j; i++) p5 *= 5;
  // (odd number of 25/54 bits) * 2^-j written with j decimals: odd * 5^j * 10^-j
  for (uint64_t m : mantissas(52, true))
    for (int bits : {25, 54}) {
      uint64_t odd = (1ull << (bits - 1)) | (m & ((1ull << (bits - 1)) - 1)) | 1;
      unsigned __int128 w = p5 * odd;
      if (j > 27) continue;
      for (int d = -1; d <= 1; d++) {
        unsigned __int128 x = w + d;
        std::string s;
        while (x) { s.insert(s.begin(), char('0' + (int)(x % 10))); x /= 10; }
        std::string t = s + "e-" + std::to_string(j);
        expect<double>(t, str_to<double>(t.c_str()), "tie");
        expect<float>(t, str_to<float>(t.c_str()), "tie");
        t = s + "0000000000e-" + std::to_string(j + 10);
        expect<double>(t, str_to<double>(t.c_str()), "tie");
        expect<float>(t, str_to<float>(t.c_str()), "tie");
      }
    }
  mc::nontrivial(1);
}
// exponents too large for any type, zeros with every exponent, very long digit strings
static void extremes(uint64_t i) {
  static const char *E[] = {"400", "5000", "99999", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "0000000000000000000000000000000000001"};
  for (const char *e : E)
    for (int sg = 0; sg < 3; sg++)
      for (const char *m : {"0", "0.0", "-0", "1", "-1", "9.999", "0.00000000000000000000000001", "123456789012345678901234567890", "00000000000000000000000000000", "0.000000000000000000000000000000"}) {
        std::string s = std::string(m) + "e" + (sg == 0 ? "" : sg == 1 ? "+" : "-") + e;
        bool zero = strtod(m, nullptr) == 0, neg = m[0] == '-';
        bool one = !strcmp(e, "0000000000000000000000000000000000001");
        double d = one ? strtod(s.c_str(), nullptr) : zero || sg == 2 ? 0.0 : INFINITY;
        float f = one ? strtof(s.c_str(), nullptr) : zero || sg == 2 ? 0.0f : INFINITY;
        if (neg && !one) d = -d, f = -f;
        expect<double>(s, d, "extreme", true);
        expect<float>(s, f, "extreme", true);
      }
  // n zeros and a digit with the exponent that undoes them; n digits
  int n = (int)i;
  for (int z : {n, 10 * n, n < 6 ? (n + 1) * 30000 : n + 100}) {
    std::string a = "0." + std::string(z, '0') + "123456789012345678901234567890e" + std::to_string(z), b = "12345678901234567890123" + std::string(z, '0') + "e-" + std::to_string(z);
    expect<double>(a, strtod("0.123456789012345678901234567890", nullptr), "extreme", true);
    expect<float>(a, strtof("0.123456789012345678901234567890", nullptr), "extreme", true);
    expect<double>(b, strtod("12345678901234567890123", nullptr), "extreme", true);
    expect<float>(b, strtof("12345678901234567890123", nullptr), "extreme", true);
    std::string c(z, '0');
    expect<double>(c + "1." + c, 1.0, "extreme", true);
    std::string l(z + 1, '9');
    expect<double>("0." + l, str_to<double>(("0." + l).c_str()), "extreme", true);
    expect<double>(l, str_to<double>(l.c_str()), "extreme", true);
    expect<float>(l + "e-" + std::to_string(z), str_to<float>((l + "e-" + std::to_string(z)).c_str()), "extreme", true);
  }
  mc::nontrivial(1);
}
// every float (thorough): nine digits read back
static void all9(uint64_t b) {
  char t[40];
  for (uint32_t i = 0; i < 65536; i++) {
    float f;
    uint32_t u = (uint32_t)b * 65536 + i;
    memcpy(&f, &u, 4);
    if (!std::isfinite(f)) continue;
    int n = snprintf(t, 40, "%.8e", (double)f);
    float v = 1;
    fast_float::from_chars_result r = fast_float::from_chars(t, t + n, v);
    MC_CHECK(r.ec == nanostl::errc() && same(v, f), "value", "float from \"%s\" is %a instead of %a", t, (double)v, (double)f);
  }
  mc::nontrivial(65536);
}
static void all9_q(uint64_t b) {
  char t[40];
  for (uint32_t i = 0; i < 4096; i++) {
    uint32_t u = (uint32_t)(b * 4096 + i) * 509u;
    float f;
    memcpy(&f, &u, 4);
    if (!std::isfinite(f)) continue;
    int n = snprintf(t, 40, "%.8e", (double)f);
    float v = 1;
    fast_float::from_chars_result r = fast_float::from_chars(t, t + n, v);
    MC_CHECK(r.ec == nanostl::errc() && same(v, f), "value", "float from \"%s\" is %a instead of %a", t, (double)v, (double)f);
  }
  mc::nontrivial(4096);
}
static void setup() {
  mc::range("value/midpoints-float", mid_f, 0, 255, "every exponent of float x 135 (thorough 2095) mantissas: exact midpoint, its neighbours beyond every digit limit, 6 spellings, cuts at 30 lengths");
  mc::range("value/midpoints-double", mid_d, 0, 2047, "every exponent of double x 224 (thorough 2184) mantissas, likewise");
  mc::range("value/exponents", exps, 0, 841, "every decimal exponent -420..420 x 6 digit strings x 1..28 digits x 3 spellings");
  mc::range("value/ties", ties, 0, 11 * 20, "integers exactly half way between doubles or floats and their neighbours, with powers of ten");
  mc::range("value/small-ties", small_ties, 0, 28, "decimal fractions exactly half way, for every power of five below 2^64");
  mc::range("value/extremes", extremes, 0, 120, "exponents beyond every integer type, up to 1190 zeros or nines");
  mc::range("value/subnormal-float", subnormal_f, 0, mc::thorough() ? 131072 : 256, "midpoints of the 16384 smallest (thorough: all) subnormal floats");
  if (mc::thorough()) mc::range("value/float-all", all9, 0, 65536, "all finite floats at nine digits");
  else mc::range("value/float-stride", all9_q, 0, 2060, "every 509th finite float at nine digits");
}
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
