// PART 1 hash, 2 siphash, 3 algorithms / pair / memcpy / iterators, 4 numeric_limits, 5 ratio
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cstring>
#include <limits>
#include <ratio>
#include <utility>
#include <vector>
#include "mc.hpp"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanoalgorithm.h"
#include "nanoiterator.h"
#include "nanocstring.h"
#include "nanovector.h"
#include "nanolimits.h"
#include "nanoratio.h"
namespace N = nanostl;
typedef uint64_t u64;
typedef uint32_t u32;
static inline float F(u32 u) { float f; memcpy(&f, &u, 4); return f; }
static inline u32 B(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static inline double D(u64 u) { double f; memcpy(&f, &u, 8); return f; }
static inline u64 B(double f) { u64 u; memcpy(&u, &f, 8); return u; }
#if PART == 1
__attribute__((noinline)) static void dirty(int v) { volatile char b[512]; memset((void *)b, v, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
template <class T> __attribute__((noinline)) static size_t H(T x) { return N::hash<T>()(x); }
// same value, dirty stack, value at another address: same hash
template <class T> static size_t hs(T x) {
  dirty(0); size_t a = H(x); dirty(0xff); size_t b = H(x);
  if (a != b) mc::fail("unstable", "hash of the same value differs between calls: %zx %zx", a, b);
  return a;
}
// no two different values collide
template <class T> static void distinct(const std::vector<T> &v, const char *n) {
  std::vector<std::pair<size_t, T> > hv(v.size());
  for (size_t i = 0; i < v.size(); i++) hv[i] = std::make_pair(hs(v[i]), v[i]);
  std::sort(hv.begin(), hv.end());
  for (size_t i = 1; i < hv.size(); i++)
    if (hv[i].first == hv[i - 1].first && !(hv[i].second == hv[i - 1].second))
      mc::fail(std::string("collision:") + n, "hash<%s>: two different values share the hash %zx", n, hv[i].first);
  mc::nontrivial(v.size());
}
template <class T> static std::vector<T> ints() {  // every value with up to three bits set or cleared, and small ones
  typedef typename std::make_unsigned<T>::type U; const int W = sizeof(T) * 8;
  std::vector<T> v;
  if (W <= 16) { for (u32 u = 0; u < (1u << W); u++) v.push_back((T)(U)u); return v; }
  int st = W == 64 ? 2 : 1;
  for (int a = 0; a < W; a++) for (int b = a; b < W; b += st) for (int c = b; c < W; c += st) {
    U u = ((U)1 << a) | ((U)1 << b) | ((U)1 << c); v.push_back((T)u); v.push_back((T)~u);
  }
  for (int i = -4096; i <= 4096; i++) v.push_back((T)i);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static void hint(u64 k) {
  switch (k) {
    case 0: { std::vector<int> z; size_t t = hs(true), f = hs(false); MC_CHECK(t != f, "collision:bool", "hash<bool>"); mc::nontrivial(); } break;
    case 1: distinct(ints<signed char>(), "signed char"); break;
    case 2: distinct(ints<unsigned char>(), "unsigned char"); break;
    case 3: distinct(ints<short>(), "short"); break;
    case 4: distinct(ints<unsigned short>(), "unsigned short"); break;
    case 5: distinct(ints<int>(), "int"); break;
    case 6: distinct(ints<unsigned>(), "unsigned"); break;
    case 7: distinct(ints<long>(), "long"); break;
    case 8: distinct(ints<unsigned long>(), "unsigned long"); break;
    case 9: distinct(ints<long long>(), "long long"); break;
    case 10: distinct(ints<unsigned long long>(), "unsigned long long"); break;
    case 11: { size_t a = N::hash<std::nullptr_t>()(nullptr), b = N::hash<std::nullptr_t>()(nullptr); MC_CHECK(a == b, "unstable", "hash<nullptr_t>"); } break;
  }
  mc::say("integer type number %d", (int)k);
}
static void hfloat(u64 blk) {
  std::vector<std::pair<size_t, u32> > v(4096);
  for (u32 i = 0; i < 4096; i++) { u32 u = (u32)(blk << 12) + i; float x = F(u); v[i] = std::make_pair(H(x), x != x ? 0 : u); if ((i & 63) == 0) hs(x); }
  std::sort(v.begin(), v.end());
  for (size_t i = 1; i < v.size(); i++) if (v[i].first == v[i - 1].first && F(v[i].second) != F(v[i - 1].second)) mc::fail("collision:float", "hash<float>(%a) == hash<float>(%a)", F(v[i].second), F(v[i - 1].second));
  mc::nontrivial(4096);
}
static void equal(u64) {
  MC_CHECK(hs(0.0f) == hs(-0.0f), "zero:float", "hash<float> of the two zeros differs");
  MC_CHECK(hs(0.0) == hs(-0.0), "zero:double", "hash<double> of the two zeros differs");
  std::vector<float> f; std::vector<double> d;
  for (u32 e = 0; e < 255; e++) for (int m = 0; m < 24; m++) for (int s = 0; s < 2; s++) f.push_back(F((u32)s << 31 | e << 23 | (m ? 1u << (m - 1) : 0)));
  for (u64 e = 0; e < 2047; e++) for (int m = 0; m < 53; m++) for (int s = 0; s < 2; s++) d.push_back(D((u64)s << 63 | e << 52 | (m ? 1ull << (m - 1) : 0)));
  distinct(f, "float"); distinct(d, "double");
}
static void setup() {
  mc::range("hash/integers", hint, 0, 12, "every 8 and 16 bit value; 32 and 64 bit values with up to three bits set or cleared and all small ones; pairwise distinct and stable");
  mc::range("hash/float", hfloat, 0, 1 << 20, "every float: stable, distinct from its 4095 neighbours", 60);
  mc::range("hash/equal", equal, 0, 1, "both zeros; every exponent with each single mantissa bit pairwise distinct");
}
#elif PART == 2
// SipHash-2-4 written from the paper: state as an array, message padded up front
struct Sip {
  u64 v[4];
  static u64 rl(u64 x, int n) { return x << n | x >> (64 - n); }
  void round() {
    v[0] += v[1]; v[2] += v[3]; v[1] = rl(v[1], 13) ^ v[0]; v[3] = rl(v[3], 16) ^ v[2]; v[0] = rl(v[0], 32);
    v[2] += v[1]; v[0] += v[3]; v[1] = rl(v[1], 17) ^ v[2]; v[3] = rl(v[3], 21) ^ v[0]; v[2] = rl(v[2], 32);
  }
  static u64 le(const uint8_t *p) { u64 r = 0; for (int i = 7; i >= 0; i--) r = r << 8 | p[i]; return r; }
  static void go(const uint8_t *in, size_t n, const uint8_t *k, uint8_t *out, int ol) {
    std::vector<uint8_t> m(in, in + n);
    while (m.size() % 8 != 7) m.push_back(0);
    m.push_back((uint8_t)n);
    Sip s; u64 a = le(k), b = le(k + 8);
    static const char C[] = "somepseudorandomlygeneratedbytes";
    for (int i = 0; i < 4; i++) { u64 c = 0; for (int j = 0; j < 8; j++) c = c << 8 | (uint8_t)C[i * 8 + j]; s.v[i] = c ^ (i % 2 ? b : a); }
    if (ol == 16) s.v[1] ^= 0xee;
    for (size_t i = 0; i < m.size(); i += 8) { u64 w = le(&m[i]); s.v[3] ^= w; s.round(); s.round(); s.v[0] ^= w; }
    s.v[2] ^= ol == 16 ? 0xee : 0xff;
    for (int h = 0; h < ol; h += 8) {
      if (h) s.v[1] ^= 0xdd;
      for (int i = 0; i < 4; i++) s.round();
      u64 r = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
      for (int j = 0; j < 8; j++) out[h + j] = (uint8_t)(r >> (8 * j));
    }
  }
};
static void one(const uint8_t *msg, size_t n, const uint8_t *key, int ol) {
  // exact-size heap blocks: any access outside is an AddressSanitizer error
  uint8_t *in = (uint8_t *)malloc(n ? n : 1), *k = (uint8_t *)malloc(16), *out = (uint8_t *)malloc(ol);
  memcpy(in, msg, n); memcpy(k, key, 16); memset(out, 0xa5, ol);
  uint8_t w[16];
  Sip::go(msg, n, key, w, ol);
  int rc = N::siphash(in, n, k, out, ol);
  if (rc != 0) mc::fail("rc", "siphash returned %d", rc);
  if (memcmp(out, w, ol)) mc::fail("digest", "siphash of %d bytes, %d byte output: wrong digest, first bytes %02x%02x expected %02x%02x", (int)n, ol, out[0], out[1], w[0], w[1]);
  if (memcmp(in, msg, n) || memcmp(k, key, 16)) mc::fail("input changed", "siphash changed its input");
  free(in); free(k); free(out);
}
static void lens(u64 i) {  // length x output length x key/message pattern
  int ol = i % 2 ? 16 : 8, pat = i / 2 % 8; size_t n = i / 16;
  std::vector<uint8_t> m(n); uint8_t k[16];
  for (size_t j = 0; j < n; j++) m[j] = pat == 0 ? j : pat == 1 ? 0 : pat == 2 ? 0xff : pat == 3 ? 0x80 : (uint8_t)(j * 37 + pat * 11 + (j >> 8));
  for (int j = 0; j < 16; j++) k[j] = pat < 4 ? j : pat == 4 ? 0 : pat == 5 ? 0xff : (uint8_t)(0x9d * j + pat);
  m.reserve(n + 1);
  one(m.data(), n, k, ol);
  mc::nontrivial(); mc::say("length %d, output %d, pattern %d", (int)n, ol, pat);
}
static void bits(u64 i) {  // every single bit of message and key
  size_t n = 1 + i % 40; int ol = i / 40 % 2 ? 16 : 8;
  std::vector<uint8_t> m(n, 0); uint8_t k[16] = {0};
  for (size_t b = 0; b < n * 8; b++) { m[b / 8] ^= 1 << b % 8; one(m.data(), n, k, ol); m[b / 8] ^= 1 << b % 8; }
  for (int b = 0; b < 128; b++) { k[b / 8] ^= 1 << b % 8; one(m.data(), n, k, ol); k[b / 8] ^= 1 << b % 8; }
  mc::nontrivial(n * 8 + 128);
}
static void biglens(u64 i) {
  static const int L[] = {2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 65543, 100000, 131071, 131072, 131073, 262144, 1048576, 1048583};
  lens((u64)L[i / 16] * 16 + i % 16);
}
static void official(u64) {  // published vectors: key 00..0f, message 00..
  uint8_t k[16], m[16], o[16];
  for (int i = 0; i < 16; i++) k[i] = m[i] = i;
  Sip::go(m, 15, k, o, 8); static const uint8_t v15[8] = {0xe5, 0x45, 0xbe, 0x49, 0x61, 0xca, 0x29, 0xa1};
  Sip::go(m, 0, k, o + 8, 8); static const uint8_t v0[8] = {0x31, 0x0e, 0x0e, 0xdd, 0x47, 0xdb, 0x6f, 0x72};
  uint8_t w[16]; Sip::go(m, 0, k, w, 16); static const uint8_t w0[16] = {0xa3, 0x81, 0x7f, 0x04, 0xba, 0x25, 0xa8, 0xe6, 0x6d, 0xf6, 0x72, 0x14, 0xc7, 0x55, 0x02, 0x93};
  if (memcmp(o, v15, 8) || memcmp(o + 8, v0, 8) || memcmp(w, w0, 16)) { fprintf(stderr, "reference SipHash is wrong\n"); exit(3); }
  uint8_t g[16]; N::siphash(m, 15, k, g, 8); MC_CHECK(!memcmp(g, v15, 8), "vector", "published 64 bit vector");
  N::siphash(m, 0, k, g, 16); MC_CHECK(!memcmp(g, w0, 16), "vector", "published 128 bit vector");
}
static void setup() {
  bool t = mc::thorough();
  mc::range("siphash/official", official, 0, 1, "published test vectors (also validates the reference)");
  mc::range("siphash/lengths", lens, 0, 16ull * (t ? 4200 : 1100), t ? "every message length below 4200, both digest sizes, eight message/key patterns" : "every message length below 1100, both digest sizes, eight message/key patterns");
  mc::range("siphash/large", biglens, 0, 24 * 16, "24 message lengths up to 1048583, both digest sizes, eight message/key patterns");
  mc::range("siphash/bits", bits, 0, 80, "every single bit of message (lengths 1..40) and key, both digest sizes");
}
#elif PART == 3
#include "tracked.hpp"
struct Lt { int k, id; bool operator<(const Lt &o) const { return k < o.k; } bool operator>(const Lt &o) const { return k > o.k; } };
// every sequence of length n over {0..3}
static void maxel(u64 i) {
  int n = i % 8; u64 c = i / 8; int a[8]; N::vector<int> v; Lt l[8];
  for (int j = 0; j < n; j++, c /= 4) a[j] = c % 4;
  if (c) return;
  for (int j = 0; j < n; j++) { v.push_back(a[j]); l[j].k = a[j]; l[j].id = j; }
  for (int b = 0; b <= n; b++) for (int e = b; e <= n; e++) {
    int w = std::max_element(a + b, a + e) - a;
    MC_CHECK(N::max_element(a + b, a + e) - a == w, "max_element", "max_element of %d elements at %d..%d", n, b, e);
    MC_CHECK(N::max_element(v.begin() + b, v.begin() + e) - v.begin() == w, "max_element:vector", "max_element on vector");
    MC_CHECK(N::max_element(l + b, l + e) - l == w, "max_element:tie", "max_element does not return the first of equal maxima");
    MC_CHECK(N::distance(a + b, a + e) == e - b && N::distance(a + e, a + b) == b - e && N::distance((const int *)a + b, (const int *)a + e) == e - b, "distance", "distance of pointers");
    MC_CHECK(N::distance(v.begin() + b, v.begin() + e) == e - b, "distance:vector", "distance of vector iterators");
  }
  mc::nontrivial(); mc::say("n=%d values %d %d %d ...", n, n > 0 ? a[0] : -1, n > 1 ? a[1] : -1, n > 2 ? a[2] : -1);
}
static void fills(u64 i) {
  int n = i % 12, b = i / 12 % 12, e = i / 144 % 12; if (b > e || e > n) return;
  int *a = (int *)malloc(n * 4 + 1); N::vector<int> v; N::vector<trk::Tracked> tv;
  trk::reset();
  {
    N::vector<trk::Tracked> t;
    for (int j = 0; j < n; j++) { a[j] = 100 + j; v.push_back(100 + j); t.push_back(trk::Tracked(100 + j)); }
    N::fill(a + b, a + e, 7); N::fill(v.begin() + b, v.begin() + e, 7); trk::Tracked s(7); N::fill(t.begin() + b, t.begin() + e, s);
    for (int j = 0; j < n; j++) { int w = j >= b && j < e ? 7 : 100 + j; MC_CHECK(a[j] == w && v[j] == w && t[j].v == w, "fill", "fill(%d..%d of %d): element %d is %d", b, e, n, j, a[j]); }
    if (n && b < e) { N::fill(a + b, a + e, a[n - 1]); }
  }
  trk::check_end();
  free(a); mc::nontrivial();
}
static void copies(u64 i) {
  int n = i % 70, so = i / 70 % 9, d = i / 630 % 9;
  unsigned char *s = (unsigned char *)malloc(n + so + 1), *t = (unsigned char *)malloc(n + d + 1), *s2;
  unsigned char *se = (unsigned char *)malloc(n ? n : 1);
  for (int j = 0; j < n + so + 1; j++) s[j] = (unsigned char)(j * 7 + 3 + n);
  memset(t, 0xee, n + d + 1);
  void *r = N::memcpy(t + d, s + so, n);
  MC_CHECK(r == t + d, "memcpy:return", "memcpy does not return the destination");
  for (int j = 0; j < n + d + 1; j++) { int w = j >= d && j < n + d ? s[j - d + so] : 0xee; MC_CHECK(t[j] == w, "memcpy", "memcpy of %d bytes: byte %d wrong", n, j - d); }
  for (int j = 0; j < n + so + 1; j++) MC_CHECK(s[j] == (unsigned char)(j * 7 + 3 + n), "memcpy:source", "source changed");
  N::memcpy(se, s + so, n); MC_CHECK(!memcmp(se, s + so, n), "memcpy:exact", "exact-size copy");
  (void)s2; free(s); free(t); free(se); mc::nontrivial();
}
static const int BL[] = {12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 131073};
// large ranges: the maximum at every position (sizes <= 1025) or at 64 positions, twice; fill and copy of the same sizes
static void large(u64 i) {
  int n = BL[i % 33], what = i / 33;
  std::vector<int> a(n); std::vector<short> h(n); N::vector<int> v;
  for (int j = 0; j < n; j++) a[j] = (int)((j * 2654435761u) >> 8) & 0xffff;
  if (what == 0) {
    v.assign(a.data(), a.data() + n);
    int st = n <= 1025 ? 1 : n / 64;
    for (int p = 0; p < n; p += st) {
      int o = a[p], q = p + (n - p) / 2, o2 = a[q]; a[p] = 70000; a[q] = 70000; v[p] = v[q] = 70000;
      if (N::max_element(a.data(), a.data() + n) != a.data() + p) mc::fail("max_element:large", "max_element of %d elements: largest at %d and %d", n, p, q);
      if (N::max_element(v.begin(), v.end()) != v.begin() + p) mc::fail("max_element:large", "max_element of a vector of %d elements: largest at %d and %d", n, p, q);
      a[q] = o2; a[p] = o; v[q] = o2; v[p] = o;
    }
    MC_CHECK(N::distance(a.data(), a.data() + n) == n && N::distance(v.begin(), v.end()) == n, "distance:large", "distance of %d elements", n);
  } else if (what == 1) {
    std::vector<int> b(a); int lo = n / 5, hi = n - n / 7;
    v.assign(a.data(), a.data() + n);
    N::fill(a.data() + lo, a.data() + hi, -1); N::fill(v.begin() + lo, v.begin() + hi, -1); N::fill(h.data() + lo, h.data() + hi, (short)-1);
    for (int j = 0; j < n; j++) { int w = j >= lo && j < hi ? -1 : b[j]; if (a[j] != w || v[j] != w || h[j] != (j >= lo && j < hi ? -1 : 0)) mc::fail("fill:large", "fill(%d..%d of %d): element %d is wrong", lo, hi, n, j); }
  } else {
    int so = what % 3, d = what / 2 % 3;
    unsigned char *s = (unsigned char *)malloc(n + so), *t = (unsigned char *)malloc(n + d);
    for (int j = 0; j < n + so; j++) s[j] = (unsigned char)(j * 7 + 3 + (j >> 8));
    memset(t, 0xee, n + d);
    N::memcpy(t + d, s + so, n);
    for (int j = 0; j < n + d; j++) { int w = j >= d ? s[j - d + so] : 0xee; if (t[j] != w) mc::fail("memcpy:large", "memcpy of %d bytes: byte %d wrong", n, j - d); }
    free(s); free(t);
  }
  mc::nontrivial(); mc::say("%d elements, function %d", n, what);
}
// iterators with nothing but the operations the function needs
template <class T> struct Fwd { T *p; Fwd &operator++() { ++p; return *this; } Fwd operator++(int) { Fwd t = *this; ++p; return t; } T &operator*() const { return *p; }
  bool operator!=(const Fwd &o) const { return p != o.p; } bool operator==(const Fwd &o) const { return p == o.p; } };
template <class T, size_t K> static void valuesOf(const T (&V)[K], const char *type) {
  for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) {
    MC_CHECK(&N::min(V[i], V[j]) == &std::min(V[i], V[j]) && &N::max(V[i], V[j]) == &std::max(V[i], V[j]), "min:values", "min or max of values %d and %d of type %s", (int)i, (int)j, type);
    MC_CHECK(N::less<T>()(V[i], V[j]) == (V[i] < V[j]), "less:values", "less of values %d and %d of type %s", (int)i, (int)j, type);
    for (size_t k = 0; k < K; k++) for (size_t n = 0; n <= 3; n++) {
      T a[5] = {V[j], V[i], V[j], V[k], V[i]};
      MC_CHECK(N::max_element(a + 1, a + 1 + n) == std::max_element(a + 1, a + 1 + n), "max_element:values", "max_element of %d values %d %d %d of type %s", (int)n, (int)i, (int)j, (int)k, type);
      Fwd<T> f = {a + 1}, e = {a + 1 + n};
      MC_CHECK(N::max_element(f, e).p == std::max_element(a + 1, a + 1 + n), "max_element:forward", "max_element of %d values through a forward iterator", (int)n);
      T b[5], c[5], d[5], w[5];
      memcpy(b, a, sizeof a); memcpy(c, a, sizeof a); memcpy(d, a, sizeof a); memcpy(w, a, sizeof a);
      for (size_t q = 0; q < n; q++) w[1 + q] = V[k];
      N::fill(b + 1, b + 1 + n, V[k]);
      Fwd<T> g = {c + 1}, h = {c + 1 + n}; N::fill(g, h, V[k]);
      N::fill(d + 1, d + 1 + n, d[3]);  // the value lies in or just behind the range
      MC_CHECK(!memcmp(b, w, sizeof b) && !memcmp(c, w, sizeof b) && !memcmp(d, w, sizeof b), "fill:values", "fill of %d elements of type %s with value %d", (int)n, type, (int)k);
    }
    N::pair<T, int> p(V[i], 1), q(V[j], 1), r(V[j], 2); N::pair<int, T> u(1, V[i]), v(1, V[j]), x(2, V[j]);
    std::pair<T, int> sp(V[i], 1), sq(V[j], 1), sr(V[j], 2); std::pair<int, T> su(1, V[i]), sv(1, V[j]), sx(2, V[j]);
    MC_CHECK((p == q) == (sp == sq) && (p == r) == (sp == sr) && (u == v) == (su == sv) && (u == x) == (su == sx), "pair==:values", "equality of pairs with values %d and %d of type %s", (int)i, (int)j, type);
    MC_CHECK((p < q) == (sp < sq) && (p < r) == (sp < sr) && (r < p) == (sr < sp) && (u < v) == (su < sv) && (u < x) == (su < sx) && (x < u) == (sx < su), "pair<:values", "order of pairs with values %d and %d of type %s", (int)i, (int)j, type);
  }
}
struct Eq { int v; bool operator==(const Eq &o) const { return v == o.v; } };                                            // no order
struct Ci { int v; bool operator==(const Ci &o) const { return v == o.v; } bool operator<(const Ci &o) const { return v / 2 < o.v / 2; } };  // equivalent values that differ
static void values(u64 i) {
  static const double D[] = {0.0 / 0.0, 0.0, -0.0, 1.0, -1e308, 1e308, 5e-324}; static const float F[] = {0.0f / 0.0f, 0.0f, -0.0f, 1.0f, -1e38f, 1e38f, 1e-45f};
  static const int I[] = {-2147483647 - 1, -1, 0, 1, 2147483647}; static const unsigned U[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  static const long long L[] = {-0x7fffffffffffffffll - 1, -1, 0, 0x100000000ll, 0x7fffffffffffffffll}; static const unsigned long long UL[] = {0, 1, 0xffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
  static const signed char SC[] = {-128, -1, 0, 1, 127}; static const unsigned char UC[] = {0, 1, 127, 128, 255}; static const short S[] = {-32768, -1, 0, 255, 32767}; static const char C[] = {'\x80', '\xff', 0, 'a', 127};
  static int A[4]; static int *const PT[] = {A, A + 1, A + 3}; static const bool B[] = {false, true};
  switch (i) {
    case 0: valuesOf(D, "double"); break; case 1: valuesOf(F, "float"); break; case 2: valuesOf(I, "int"); break; case 3: valuesOf(U, "unsigned"); break;
    case 4: valuesOf(L, "long long"); break; case 5: valuesOf(UL, "unsigned long long"); break; case 6: valuesOf(SC, "signed char"); break; case 7: valuesOf(UC, "unsigned char"); break;
    case 8: valuesOf(S, "short"); break; case 9: valuesOf(C, "char"); break; case 10: valuesOf(PT, "pointer"); break; case 11: valuesOf(B, "bool"); break;
    case 12: for (int a = 0; a < 81; a++) { Eq e = {a % 3}, f = {a / 3 % 3}; int b = a / 9 % 3, d = a / 27; N::pair<Eq, int> p(e, b), q(f, d); N::pair<int, Eq> u(b, e), v(d, f);
        MC_CHECK((p == q) == (e == f && b == d) && (u == v) == (e == f && b == d), "pair==:only==", "equality of pairs of a type without order"); } break;
    case 13: for (int a = 0; a < 256; a++) { Ci e = {a % 4}, f = {a / 4 % 4}; int b = a / 16 % 4, d = a / 64; N::pair<Ci, int> p(e, b), q(f, d); N::pair<int, Ci> u(b, e), v(d, f);
        MC_CHECK((p == q) == (e == f && b == d) && (u == v) == (e == f && b == d), "pair==:equivalent", "equality of pairs of values that are equivalent but differ");
        MC_CHECK((p < q) == (e < f || (!(f < e) && b < d)) && (u < v) == (b < d || (b == d && e < f)), "pair<:equivalent", "order of pairs of values that are equivalent but differ"); } break;
    case 14: { unsigned char c[4] = {9, 9, 9, 9}; double d[3] = {1, 1, 1}; float f[3] = {1, 1, 1}; N::fill(c + 1, c + 3, 257); N::fill(d, d + 2, 3); N::fill(f + 1, f + 3, 2.5);
        MC_CHECK(c[0] == 9 && c[1] == 1 && c[2] == 1 && c[3] == 9 && d[0] == 3 && d[1] == 3 && d[2] == 1 && f[0] == 1 && f[1] == 2.5f && f[2] == 2.5f, "fill:convert", "fill with a value of another type"); break; }
  }
  mc::nontrivial();
}
static void pairs(u64 i) {
  int a = i % 4, b = i / 4 % 4, c = i / 16 % 4, d = i / 64;
  N::pair<int, int> p(a, b), q = N::make_pair(c, d); std::pair<int, int> x(a, b), y(c, d);
  MC_CHECK(p.first == a && p.second == b && q.first == c && q.second == d, "pair", "pair members");
  MC_CHECK((p == q) == (x == y), "pair==", "(%d,%d)==(%d,%d)", a, b, c, d);
  MC_CHECK((p < q) == (x < y), "pair<", "(%d,%d)<(%d,%d)", a, b, c, d);
  N::pair<int, int> r(p); r = q; MC_CHECK(r == q, "pair=", "assignment"); N::swap(p, r); MC_CHECK(p == q && r.first == a && r.second == b, "pair:swap", "swap of pairs");
  Lt l = {a, 0}, m = {c, 0}; N::pair<Lt, int> lp(l, b), lq(m, d); MC_CHECK((lp < lq) == (x < y), "pair<:only<", "pair of a type with only <");
  MC_CHECK(N::less<int>()(a, c) == (a < c), "less", "less"); MC_CHECK(N::less<Lt>()(l, m) == (a < c), "less:user", "less");
  MC_CHECK(N::min(l, m).k == std::min(a, c) && N::max(l, m).k == std::max(a, c) && &N::min(l, m) == (c < a ? &m : &l) && &N::max(l, m) == (c > a ? &m : &l), "min:user", "min/max on a user type");
  mc::nontrivial(); mc::say("(%d,%d) (%d,%d)", a, b, c, d);
}
static void setup() {
  mc::range("algo/max_element+distance", maxel, 0, 8ull * (mc::thorough() ? 16384 : 4096), "every sequence over four values up to length 7 (quick 6), every subrange, three iterator/element kinds");
  mc::range("algo/fill", fills, 0, 1728, "every subrange of every length up to 11");
  mc::range("algo/memcpy", copies, 0, 5670, "every size up to 69, every source and destination misalignment up to 8");
  mc::range("algo/large", large, 0, 33 * 8, "33 sizes up to 131073: every (or one of 64) position of the maximum, fill of an inner range, copies at several alignments");
  mc::range("algo/values", values, 0, 15, "twelve element types, every triple of values at the ends of the range (NaN and both zeros among them); pairs of types without order or with equivalent values that differ; forward iterators");
  mc::range("algo/pair", pairs, 0, 256, "every pair of pairs over four values; less, min, max on a user type");
}
#elif PART == 4
struct Row { const char *t, *m; bool ok; };
static std::vector<Row> R;
template <class T> static void integers(const char *t) {
  typedef N::numeric_limits<T> A; typedef std::numeric_limits<T> B_;
  R.push_back(Row{t, "min", A::min() == B_::min()}); R.push_back(Row{t, "max", A::max() == B_::max()}); R.push_back(Row{t, "epsilon", A::epsilon() == B_::epsilon()});
  R.push_back(Row{t, "digits10", (int)A::digits10 == B_::digits10});
  R.push_back(Row{t, "type", std::is_same<decltype(A::min()), T>::value && std::is_same<decltype(A::max()), T>::value});
}
template <class T> static bool same(T a, T b) { return B(a) == B(b); }
template <class T> static void floats(const char *t) {
  integers<T>(t); typedef N::numeric_limits<T> A; typedef std::numeric_limits<T> S;
  R.push_back(Row{t, "min bits", same(A::min(), S::min())}); R.push_back(Row{t, "max bits", same(A::max(), S::max())}); R.push_back(Row{t, "epsilon bits", same(A::epsilon(), S::epsilon())});
  R.push_back(Row{t, "denorm_min", same(A::denorm_min(), S::denorm_min())}); R.push_back(Row{t, "infinity", same(A::infinity(), S::infinity())});
  T q = A::quiet_NaN(), s = A::signaling_NaN();
  const int M = sizeof(T) == 4 ? 23 : 52; unsigned long long qb = B(q), sb = B(s);
  R.push_back(Row{t, "quiet_NaN is NaN", q != q}); R.push_back(Row{t, "quiet_NaN is quiet", (qb >> (M - 1) & 1) == 1});
  R.push_back(Row{t, "signaling_NaN is NaN", s != s}); R.push_back(Row{t, "signaling_NaN is signaling", (sb >> (M - 1) & 1) == 0});
  // by their defining property
  volatile T one = 1, e = A::epsilon(), h = A::epsilon() / 2, mx = A::max(), mn = A::min(), dm = A::denorm_min();
  volatile T r = one + e, r2 = one + h, r3 = mx * 2, r4 = dm / 2;
  R.push_back(Row{t, "1+epsilon > 1", r > one}); R.push_back(Row{t, "1+epsilon/2 == 1", r2 == one}); R.push_back(Row{t, "2*max is infinity", r3 == A::infinity()}); R.push_back(Row{t, "denorm_min/2 is 0", r4 == 0});
  R.push_back(Row{t, "infinity > max", A::infinity() > mx}); R.push_back(Row{t, "0 < denorm_min < min", dm > 0 && dm < mn});
}
static void row(u64 i) { const Row &r = R[i]; mc::say("numeric_limits<%s>: %s", r.t, r.m); mc::nontrivial(); MC_CHECK(r.ok, std::string(r.t) + ":" + r.m, "numeric_limits<%s>::%s is wrong", r.t, r.m); }
// digits10: every decimal with that many digits survives a round trip through the type
static void d10(u64 i) {
  long long s = (long long)i - 1000;
  { char t[64]; snprintf(t, sizeof t, "%.*e", (int)N::numeric_limits<float>::digits10 - 1, (double)s * 1.2345678e5); float f = strtof(t, 0); char u[64]; snprintf(u, sizeof u, "%.*e", (int)N::numeric_limits<float>::digits10 - 1, f); MC_CHECK(!strcmp(t, u), "digits10:float", "%s becomes %s", t, u); }
  mc::nontrivial();
}
static void setup() {
#define I(T) integers<T>(#T);
  I(bool) I(char) I(unsigned char) I(short) I(unsigned short) I(int) I(unsigned int) I(long long) I(unsigned long long)
  floats<float>("float"); floats<double>("double");
  mc::range("limits/members", row, 0, R.size(), "every member of every specialisation, against the language's limits and by its defining property");
  mc::range("limits/digits10", d10, 0, 2000, "decimal round trip at digits10 digits");
}
#else
struct Row { long long n, d, gn, gd, wn, wd; bool t; };
static std::vector<Row> R;
template <long long A, long long B_> static void one() {
  typedef N::ratio<A, B_> G; typedef std::ratio<A, B_> W;
  R.push_back(Row{A, B_, (long long)G::num, (long long)G::den, (long long)W::num, (long long)W::den, std::is_same<typename G::type, N::ratio<W::num, W::den> >::value});
}
template <int I> struct Grid { static void go() { Grid<I - 1>::go(); one<(I - 1) % 41 - 20, ((I - 1) / 41) % 41 - 20 == 0 ? 21 : ((I - 1) / 41) % 41 - 20>(); } };
template <> struct Grid<0> { static void go() {} };
template <class G, class W> static void prefix() { R.push_back(Row{0, 0, (long long)G::num, (long long)G::den, (long long)W::num, (long long)W::den, true}); }
static void row(u64 i) {
  const Row &r = R[i]; mc::say("ratio<%lld,%lld> = %lld/%lld", r.n, r.d, r.gn, r.gd); mc::nontrivial();
  MC_CHECK(r.gn == r.wn && r.gd == r.wd, "reduced", "ratio<%lld,%lld> is %lld/%lld, expected %lld/%lld", r.n, r.d, r.gn, r.gd, r.wn, r.wd);
  MC_CHECK(r.t, "type", "ratio<%lld,%lld>::type is not the reduced ratio", r.n, r.d);
}
static void setup() {
  Grid<41 * 41 / 3>::go();
#define BIG(a) one<a, 1>(); one<1, a>(); one<a, a>(); one<-(a), 6>(); one<6, -(a)>(); one<a, 1000000007>(); one<(a) - 1, a>(); one<0, a>(); one<(a) / 2, 2>(); one<(a) / 3 * 2, (a) / 3>();
  BIG(9223372036854775807) BIG(9223372036854775806) BIG(4611686018427387904) BIG(1000000000000000000) BIG(999999999999999989) BIG(4294967296) BIG(4294967297) BIG(2147483647) BIG(6074001000) BIG(7540113804746346429) BIG(4660046610375530309)
#define P(x) prefix<N::x, std::x>();
  P(atto) P(femto) P(pico) P(nano) P(micro) P(milli) P(centi) P(deci) P(deca) P(hecto) P(kilo) P(mega) P(giga) P(tera) P(peta) P(exa)
  mc::range("ratio/all", row, 0, R.size(), "numerators and denominators in -20..20 (a third of the grid), extreme and Fibonacci-sized values, every prefix");
}
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
