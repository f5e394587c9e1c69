// Sequences of more than 2^31 and 2^32 one-byte elements. PART 1: vector; 2: valarray; 3: string contents; 4: string order.
// Large allocations are windows of one small file mapped again and again, so a sequence costs a few megabytes only; the
// window length does not divide 2^32, so that an index cut to 32 bits lands elsewhere in the window.
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <new>
#include <string>
#include "mc.hpp"
#include "nanoalgorithm.h"
#if PART == 1
#include "nanovector.h"
#elif PART == 2
#include "nanovalarray.h"
#else
#include "nanostring.h"
#endif
namespace N = nanostl;
typedef uint64_t u64;
static const u64 W = 3u << 18;
static struct Big { void *p; u64 n; } g_big[16];
static void *big(u64 n) {
  u64 total = (n / W + 1) * W;
  char *p = (char *)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int f = memfd_create("w", 0);
  if (p == MAP_FAILED || f < 0 || ftruncate(f, W)) { perror("map"); _exit(99); }
  for (u64 i = 0; i < total; i += W) if (mmap(p + i, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, f, 0) == MAP_FAILED) { perror("map"); _exit(99); }
  close(f);
  for (auto &b : g_big) if (!b.p) { b.p = p; b.n = total; return p; }
  _exit(99);
}
static bool unbig(void *q) {
  for (auto &b : g_big) if (q && b.p == q) { munmap(q, b.n); b.p = 0; return true; }
  return false;
}
void *operator new(size_t n) { if (n >= (64u << 20)) return big(n); void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (!unbig(p)) free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
static const u64 LEN[] = {(1ull << 31) + 5, (1ull << 32) + 17};
typedef unsigned long long ull;
#define SIZE(v, n, w) MC_CHECK((ull)(v).size() == (ull)(n), "huge:size", "%s: size is %llu, expected %llu", w, (ull)(v).size(), (ull)(n))
#if PART <= 2
#if PART == 1
typedef N::vector<unsigned char> V;
#define NAME "vector"
#else
typedef N::valarray<unsigned char> V;
#define NAME "valarray"
#endif
static void mark(V &v, u64 n) { for (int i = 1; i <= 9; i++) v[n - i] = 40 + i; }
static void marked(const V &v, u64 n, const char *w) {
  for (int i = 1; i <= 9; i++) MC_CHECK(v[n - i] == 40 + i, "huge:element", "%s: element %llu is %d, expected %d", w, (ull)(n - i), (int)v[n - i], 40 + i);
}
static void run(u64 x) {
  u64 n = LEN[x % 2];
  int op = x / 2;
  mc::say("%llu elements, operation %d", (ull)n, op);
#if PART == 2
  if (op == 1) { V c(n); SIZE(c, n, "sized construction"); MC_CHECK(c[n - 1] == 0, "huge:element", "last element of a sized valarray is not zero"); mc::nontrivial(); return; }
#endif
  V v;
  v.resize(n);
  SIZE(v, n, "resize");
  MC_CHECK(v.capacity() >= n, "huge:capacity", "capacity %llu < size", (ull)v.capacity());
  mark(v, n);
  marked(v, n, "resize");
  if (op == 0) {  // growing by one moves every element
    v.resize(n + 1);
    SIZE(v, n + 1, "resize by one"); marked(v, n, "resize by one");
    MC_CHECK(v[n] == 0, "huge:element", "resize: the new element is not zero");
    MC_CHECK(v.capacity() >= n + 1, "huge:capacity", "capacity %llu < size", (ull)v.capacity());
    v.resize(n - 3);
    SIZE(v, n - 3, "shrinking");
    MC_CHECK(v[n - 4] == 44, "huge:element", "shrinking changes an element");
  }
#if PART == 1
  if (op == 1) {
    v.push_back(7);
    SIZE(v, n + 1, "push_back"); marked(v, n, "push_back");
    MC_CHECK(v[n] == 7 && v.at(n) == 7 && v.data()[n] == 7 && *(v.end() - 1) == 7, "huge:element", "push_back: the new element is wrong");
    MC_CHECK((u64)(v.end() - v.begin()) == n + 1, "huge:range", "begin to end is not the size");
    V::iterator it = v.erase(v.begin() + (n - 5));  // drops the element marked 45
    SIZE(v, n, "erase");
    MC_CHECK(it == v.begin() + (n - 5) && *it == 44 && v[n - 1] == 7 && v[n - 2] == 41 && v[n - 6] == 46, "huge:element", "erase near the end: wrong elements");
    v.pop_back();
    SIZE(v, n - 1, "pop_back");
    MC_CHECK(v[n - 2] == 41, "huge:element", "pop_back: wrong last element");
    V o; o.push_back(3);
    v.swap(o);
    SIZE(o, n - 1, "swap"); SIZE(v, 1, "swap");
    MC_CHECK(o[n - 2] == 41 && v[0] == 3 && o.capacity() >= n, "huge:element", "swap: wrong elements");
  }
  if (op == 2) { V c(v); SIZE(c, n, "copy"); marked(c, n, "copy"); SIZE(v, n, "copied from"); }
  if (op == 3) { V c; c.push_back(1); c = v; SIZE(c, n, "assignment"); marked(c, n, "assignment"); }
  if (op == 4) { V c; c.assign(v.begin(), v.end()); SIZE(c, n, "assign"); marked(c, n, "assign"); c.clear(); SIZE(c, 0, "clear"); }
#endif
  mc::nontrivial();
}
#if PART == 1
static void setup() { mc::range("vector/huge", run, 0, 10, "sizes beyond 2^31 and 2^32 x growing, inserting, erasing, copying, assigning, swapping", 170); }
#else
static void setup() { mc::range("valarray/huge", run, 0, 4, "sizes beyond 2^31 and 2^32 x resizing, sized construction", 170); }
#endif
#else
typedef N::string S;
struct Text {  // a large text without NUL; the aliased window holds a fixed pattern
  char *p; u64 n;
  Text(u64 n_) : p((char *)big(n_ + W)), n(n_) { for (u64 i = 0; i < W; i++) p[i] = 'a' + i * 2654435761u % 23; }
  ~Text() { unbig(p); }
};
static void same(const S &s, const Text &t, u64 n, const char *w) {
  SIZE(s, n, w);
  MC_CHECK((u64)s.length() == n, "huge:size", "%s: wrong length()", w);
  for (u64 i = n > 5000 ? n - 5000 : 0; i < n; i++) MC_CHECK(s[i] == t.p[i], "huge:element", "%s: character %llu is '%c', expected '%c'", w, (ull)i, s[i], t.p[i]);
}
static void end(const S &s, u64 n, const char *w) { MC_CHECK(s.c_str()[n] == 0, "huge:terminator", "%s: no terminator at the end", w); }
#if PART == 3
static void run(u64 x) {
  u64 n = LEN[x % 2];
  int op = x / 2;
  mc::say("%llu characters, operation %d", (ull)n, op);
  Text t(n);
  if (op == 0) { S s(t.p, n); same(s, t, n, "from a pointer and a length"); end(s, n, "from a pointer and a length"); s.clear(); SIZE(s, 0, "clear"); }
  if (op == 1) { S s(t.p, t.p + n); same(s, t, n, "from a range"); S c("x"); c += s; SIZE(c, n + 1, "+="); for (u64 i = n - 3000; i < n; i++) MC_CHECK(c[i + 1] == t.p[i], "huge:element", "+=: wrong character"); end(c, n + 1, "+="); }
  if (op == 2) { S s(t.p, t.p + n); S c(s); same(c, t, n, "copy"); end(c, n, "copy"); c = S("ab"); SIZE(c, 2, "assignment"); }
  if (op == 3) {  // a C text: the terminator is in a window of its own
    char *p = t.p + n / W * W;
    char *q = (char *)mmap(p, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (q != p) _exit(99);
    for (u64 i = 0; i < W; i++) p[i] = 'a' + i * 2654435761u % 23;
    p[n % W] = 0;
    S s(t.p); same(s, t, n, "from C text"); end(s, n, "from C text");
  }
  mc::nontrivial();
}
static void setup() { mc::range("string/huge", run, 0, 8, "lengths beyond 2^31 and 2^32 x construction, copying, appending", 170); }
#else
static void run(u64 x) {
  u64 n = LEN[x % 2], m = n + (x / 2 % 3 == 0 ? 0 : x / 2 % 3 == 1 ? 1 : (u64)1 << 32);  // the second is equal, one longer, or longer by 2^32
  if (m > LEN[1] + 1) n = 5, m = ((u64)1 << 32) + 5;
  mc::say("lengths %llu and %llu", (ull)n, (ull)m);
  Text t(m);
  t.p[n % W] = t.p[m % W] = 0;  // where the terminators show up in every window
  S a(t.p, n), b(t.p, m);
  int want = n < m ? -1 : 0, ab = a.compare(b), ba = b.compare(a);
  MC_CHECK((ab > 0) - (ab < 0) == want && (ba > 0) - (ba < 0) == -want, "huge:compare", "compare gives %d and %d", ab, ba);
  mc::nontrivial();
}
static void setup() { mc::range("string/huge-order", run, 0, 6, "common prefixes beyond 2^31 and 2^32; lengths equal, one and 2^32 apart", 170); }
#endif
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
