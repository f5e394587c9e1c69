// hashes of variants: every pair of (alternative, value) reached along two different histories
#include <cassert>
#include <cstdlib>
#include <new>
#include <string.h>
#include "mc.hpp"
#include <limits>
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanovariant.h"
typedef nonstd::variant<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, bool, nonstd::monostate> V;
static const int kAlts = 14, kVals = 9;
template <class T> static V mkv(int v) {
  typedef std::numeric_limits<T> L;
  const T vals[kVals] = {T(0), T(1), T(2), T(7), T(64), T(100), L::max(), L::lowest(), T(-1)};
  return V(vals[v]);
}
template <> V mkv<bool>(int v) { return V(bool(v & 1)); }
template <> V mkv<float>(int v) { const float f[kVals] = {0.f, -0.f, 1.f, 1.5f, -1.f, 1e30f, 1e-40f, 3.f, 16777216.f}; return V(f[v]); }
template <> V mkv<double>(int v) { const double f[kVals] = {0., -0., 1., 1.5, -1., 1e300, 4.9e-324, 3., 9007199254740992.}; return V(f[v]); }
static V mk(int alt, int v) {
  switch (alt) {
    case 0: return mkv<signed char>(v); case 1: return mkv<unsigned char>(v); case 2: return mkv<short>(v); case 3: return mkv<unsigned short>(v);
    case 4: return mkv<int>(v); case 5: return mkv<unsigned>(v); case 6: return mkv<long>(v); case 7: return mkv<unsigned long>(v);
    case 8: return mkv<long long>(v); case 9: return mkv<unsigned long long>(v); case 10: return mkv<float>(v); case 11: return mkv<double>(v); case 12: return mkv<bool>(v);
  }
  return V(nonstd::monostate());
}
static void put(void *mem, int junk, int alt, int v, int before) {
  memset(mem, junk, sizeof(V));
  if (before < 0) { new (mem) V(mk(alt, v)); return; }
  V *p = new (mem) V(mk(before, 7)); *p = mk(alt, v);
}
static void pairs(mc::Chooser &c) {
  int a = c.choose(kAlts), x = c.choose(a == 13 ? 1 : kVals), h = c.choose(kAlts + 1) - 1;
  alignas(16) unsigned char ma[sizeof(V)], mb[sizeof(V)];
  put(ma, 0x00, a, x, -1);
  const V &A = *(V *)ma;
  nanostl::hash<V> H;
  size_t ha = H(A);
  MC_CHECK(ha == H(A), "unstable", "hashing alternative %d twice gives different results", a);
  c.log("alternative %d value %d, held %d before", a, x, h);
  for (int b = 0; b < kAlts; b++)
    for (int y = 0; y < (b == 13 ? 1 : kVals); y++) {
      put(mb, 0xFF, b, y, h);
      const V &B = *(V *)mb;
      MC_CHECK((A.index() == B.index()) == (a == b), "index", "the alternatives are mixed up");
      size_t hb = H(B);
      if (a == b && (x == y || a == 13)) MC_CHECK(ha == hb, "history", "alternative %d value %d hashes to %llx, and to %llx when the variant held alternative %d before", a, x, (unsigned long long)ha, (unsigned long long)hb, h);
      if (a != b || a == 13) continue;
      bool eq = A == B;
      MC_CHECK(eq == (ha == hb), eq ? "equal" : "collision", "alternative %d, values %d and %d are %s but their hashes are %llx and %llx", a, x, y, eq ? "equal" : "different", (unsigned long long)ha, (unsigned long long)hb);
      c.step();
    }
  c.state(mc::mix(a * 16 + x, h + 1)); c.outcome(ha); mc::nontrivial(1);
}
static void setup() { mc::tree("hash/variant", pairs, "all pairs of 14 alternatives x 9 values, each reached directly and through every other alternative"); }
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
