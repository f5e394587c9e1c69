// PART 1: memcpy, fill, max_element, distance on more than 2^32 bytes; PART 2: siphash of such messages.
// The memory is one file mapped again and again, so that it costs a few megabytes only.
#include <algorithm>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include "mc.hpp"
#include "nanoalgorithm.h"
#include "nanocstring.h"
#include "nanoiterator.h"
#include "__hashfunc.h"
namespace N = nanostl;
typedef uint64_t u64;
static const u64 W = 1u << 20;
static const u64 LEN[] = {(1ull << 31) - 1, (1ull << 31) + 5, (1ull << 32) - 3, (1ull << 32) + 17};
struct Map {  // n bytes: whole windows share one file, the rest has its own
  unsigned char *p; u64 n, total; unsigned char *tail;
  Map(u64 n_, int seed) : n(n_) {
    total = (n / W + 2) * W;
    p = (unsigned char *)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int f = memfd_create("w", 0), g = memfd_create("t", 0);
    if (p == MAP_FAILED || f < 0 || g < 0 || ftruncate(f, W) || ftruncate(g, 2 * W)) { perror("map"); _exit(99); }
    for (u64 i = 0; i < n / W; i++) if (mmap(p + i * W, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, f, 0) == MAP_FAILED) { perror("map"); _exit(99); }
    tail = p + n / W * W;
    if (mmap(tail, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, g, 0) == MAP_FAILED) { perror("map"); _exit(99); }
    close(f); close(g);
    for (u64 i = 0; i < W; i++) { p[i] = (unsigned char)(i * 2654435761u >> 13) % 250 + seed; tail[i] = (unsigned char)(i * 40503u >> 7) % 250 + seed; }
  }
  ~Map() { munmap(p, total); }
};
#if PART == 1
static void copy(u64 x) {
  u64 n = LEN[x];
  Map s(n, 0), d(n, 1);
  unsigned char guard = d.tail[n % W];
  mc::say("memcpy of %llu bytes", (unsigned long long)n);
  MC_CHECK(N::memcpy(d.p, s.p, n) == d.p, "huge:return", "memcpy does not return the destination");
  MC_CHECK(!memcmp(d.p, s.p, W) && !memcmp(d.tail, s.tail, n % W), "huge:memcpy", "memcpy of %llu bytes does not copy all of them", (unsigned long long)n);
  MC_CHECK(d.tail[n % W] == guard, "huge:beyond", "memcpy of %llu bytes writes beyond them", (unsigned long long)n);
  mc::nontrivial();
}
static void range(u64 x) {
  u64 n = LEN[x];
  Map d(n, 1);
  mc::say("%llu bytes", (unsigned long long)n);
  MC_CHECK(N::distance(d.p, d.p + n) == (long long)n && N::distance(d.p + n, d.p) == -(long long)n, "huge:distance", "distance over %llu bytes is %lld", (unsigned long long)n, (long long)N::distance(d.p, d.p + n));
  d.tail[n % W - 1] = 255;
  MC_CHECK(N::max_element(d.p, d.p + n) == d.p + n - 1, "huge:max_element", "max_element of %llu bytes misses the last one", (unsigned long long)n);
  unsigned char guard = d.tail[n % W];
  N::fill(d.p, d.p + n, (unsigned char)7);
  for (u64 i = 0; i < W; i++) MC_CHECK(d.p[i] == 7, "huge:fill", "byte %d is not filled", (int)i);
  for (u64 i = 0; i < n % W; i++) MC_CHECK(d.tail[i] == 7, "huge:fill", "byte %d of the last megabyte is not filled", (int)i);
  MC_CHECK(d.tail[n % W] == guard, "huge:beyond", "fill of %llu bytes writes beyond them", (unsigned long long)n);
  mc::nontrivial();
}
static void setup() {
  mc::range("algo/huge-memcpy", copy, 0, 4, "four sizes around 2^31 and 2^32", 150);
  mc::range("algo/huge-ranges", range, 0, 4, "distance, max_element and fill over four sizes around 2^31 and 2^32", 150);
}
#else
static u64 rl(u64 x, int n) { return x << n | x >> (64 - n); }
struct Sip {
  u64 a, b, c, d;
  void round() { a += b; c += d; b = rl(b, 13) ^ a; d = rl(d, 16) ^ c; a = rl(a, 32); c += b; a += d; b = rl(b, 17) ^ c; d = rl(d, 21) ^ a; c = rl(c, 32); }
};
static u64 le(const unsigned char *p) { u64 r = 0; for (int i = 7; i >= 0; i--) r = r << 8 | p[i]; return r; }
static void huge(u64 x) {
  u64 n = LEN[x / 2]; int ol = x % 2 ? 16 : 8;
  Map s(n, 0);
  unsigned char k[16], out[17], want[16]; for (int i = 0; i < 16; i++) k[i] = i * 11 + 3;
  out[ol] = 0x5a;
  mc::say("message of %llu bytes, %d byte digest", (unsigned long long)n, ol);
  u64 k0 = le(k), k1 = le(k + 8);
  Sip z = {k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
  if (ol == 16) z.b ^= 0xee;
  for (u64 i = 0; i + 8 <= n; i += 8) { u64 w = le(s.p + i); z.d ^= w; z.round(); z.round(); z.a ^= w; }
  u64 last = n << 56;
  for (u64 i = 0; i < n % 8; i++) last |= (u64)s.p[n - n % 8 + i] << (8 * i);
  z.d ^= last; z.round(); z.round(); z.a ^= last;
  z.c ^= ol == 16 ? 0xee : 0xff;
  for (int h = 0; h < ol; h += 8) { if (h) z.b ^= 0xdd; for (int i = 0; i < 4; i++) z.round(); u64 r = z.a ^ z.b ^ z.c ^ z.d; for (int j = 0; j < 8; j++) want[h + j] = (unsigned char)(r >> (8 * j)); }
  int rc = N::siphash(s.p, n, k, out, ol);
  MC_CHECK(rc == 0 && !memcmp(out, want, ol) && out[ol] == 0x5a, "huge:digest", "siphash of %llu bytes, %d byte output: wrong digest", (unsigned long long)n, ol);
  mc::nontrivial();
}
static void setup() { mc::range("siphash/huge", huge, 0, 8, "four message lengths around 2^31 and 2^32, both digest sizes", 150); }
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
