// vector and valarray: every operation sequence up to a depth, in lockstep
// with std::vector<int> as the reference model.
#include <vector>
#include <string>
#include "mc.hpp"
#include "tracked.hpp"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanomath.h"
#include "nanoutility.h"
#include "nanovector.h"
#include "nanovalarray.h"

typedef std::vector<int> M;

#ifndef SEQ_VALARRAY
#define SEQ nanostl::vector
static const char *KIND = "vector";
#else
#define SEQ nanostl::valarray
static const char *KIND = "valarray";
#endif

template <class E> struct Pair { SEQ<E> c[2]; M m[2]; int fresh; Pair() : fresh(1) {} };

template <class E> static void same(const SEQ<E> &c, const M &m, const char *op, bool deep = true) {
  std::string o(op);
  MC_CHECK(c.size() == m.size(), o + ":size", "%s: after %s size() is %llu, expected %zu", KIND, op, (unsigned long long)c.size(), m.size());
  MC_CHECK(c.empty() == m.empty(), o + ":empty", "%s: after %s empty() is %d, expected %d", KIND, op, c.empty(), m.empty());
  MC_CHECK(c.capacity() >= c.size(), o + ":capacity", "%s: after %s capacity %llu < size", KIND, op, (unsigned long long)c.capacity());
  MC_CHECK((unsigned long long)(c.end() - c.begin()) == m.size(), o + ":range", "%s: after %s end()-begin() differs from size()", KIND, op);
  if (!deep) return;
  size_t i = 0;
  for (typename SEQ<E>::iterator it = c.begin(); it != c.end(); ++it, ++i)
    MC_CHECK(trk::val(*it) == m[i], o + ":value", "%s: after %s element %zu is %d, expected %d (by iterator)", KIND, op, i, trk::val(*it), m[i]);
  SEQ<E> &nc = const_cast<SEQ<E> &>(c);
  for (i = 0; i < m.size(); i++) {
    MC_CHECK(trk::val(c[i]) == m[i] && trk::val(nc[i]) == m[i], o + ":index", "%s: after %s [%zu] is %d, expected %d", KIND, op, i, trk::val(c[i]), m[i]);
    MC_CHECK(&nc[i] == nc.data() + i, o + ":contiguous", "%s: after %s element %zu is not at data()+%zu", KIND, op, i, i);
#ifndef SEQ_VALARRAY
    MC_CHECK(&nc.at(i) == &nc[i] && &c.at(i) == &c[i], o + ":at", "%s: after %s at(%zu) is not [%zu]", KIND, op, i, i);
#endif
  }
}

static uint64_t mhash(const M &m) { return mc::hash_bytes(m.data(), m.size() * sizeof(int)); }
// canonical form: values renamed in order of first occurrence (they are opaque tokens)
template <class E> static uint64_t canon(const Pair<E> &p) {
  int nm[512]; int k = 1;
  memset(nm, 0, sizeof nm);
  uint64_t h = 7;
  for (int s = 0; s < 2; s++) {
    h = mc::mix(h, p.m[s].size() * 1000003ull + p.c[s].capacity());
    for (size_t i = 0; i < p.m[s].size(); i++) {
      int v = p.m[s][i];
      if (v) { int &r = nm[v & 511]; if (!r) r = k++; v = r; }
      h = mc::mix(h, v);
    }
  }
  return h;
}

#ifndef SEQ_VALARRAY
template <class E> static void append(SEQ<E> &c, const E &e) { c.push_back(e); }
#else
// valarray has no push_back: grow by one and store.
template <class E> static void append(SEQ<E> &c, const E &e) { E t(e); c.resize(c.size() + 1); c[c.size() - 1] = t; }
#endif

// one operation on p; returns false when it is not applicable (skipped)
enum { NOPS = 24 };
template <class E> static const char *apply1(Pair<E> &p, int op, mc::Chooser &c) {
  typedef typename SEQ<E>::iterator It;
  int s = 0;  // most operations act on container 0; 'swap' exchanges the roles
  SEQ<E> &a = p.c[s]; M &m = p.m[s];
  SEQ<E> &b = p.c[1]; M &n = p.m[1];
  switch (op) {
    case 0: { E e(p.fresh); append(a, e); m.push_back(p.fresh++); return "push_back"; }
#ifndef SEQ_VALARRAY
    case 1: if (m.empty()) return 0; m.pop_back(); a.pop_back(); return "pop_back";
    case 2: if (m.empty()) return 0; a.push_back(a[0]); m.push_back(m[0]); return "push_back(own front)";
    case 3: if (m.size() < 2) return 0; a.push_back(a[m.size() - 1]); m.push_back(m[m.size() - 1]); return "push_back(own back)";
    case 4: if (m.empty()) return 0; { E e(p.fresh); a.at(m.size() - 1) = e; m[m.size() - 1] = p.fresh++; } return "at(last)=";
#else
    case 1: if (m.empty()) return 0; a.resize(m.size() - 1); m.resize(m.size() - 1); return "resize(size-1)";
    case 2: { SEQ<E> t(m.size() + 1); M u(m.size() + 1); a = t; m = u; return "assign valarray(n)"; }
    case 3: { SEQ<E> t(0); a = t; m.clear(); return "assign valarray(0)"; }
    case 4: return 0;
#endif
    case 5: a.clear(); m.clear(); return "clear";
    case 6: a.resize(0); m.resize(0); return "resize(0)";
    case 7: a.resize(m.size() + 1); m.resize(m.size() + 1); return "resize(size+1)";
    case 8: a.resize(m.size() + 2); m.resize(m.size() + 2); return "resize(size+2)";
    case 9: { size_t k = a.capacity() + 1; if (k > 200) return 0; a.resize(k); m.resize(k); return "resize(capacity+1)"; }
    case 10: if (m.size() < 2) return 0; { size_t k = m.size() / 2; a.resize(k); m.resize(k); return "resize(size/2)"; }
    case 11: if (m.empty()) return 0; { It r = a.erase(a.begin()); m.erase(m.begin());
        MC_CHECK(r - a.begin() == 0, "erase:position", "%s: erase(begin()) returned position %ld, expected 0", KIND, (long)(r - a.begin())); return "erase(first)"; }
    case 12: if (m.size() < 2) return 0; { It r = a.erase(a.end() - 1); m.pop_back();
        MC_CHECK(r == a.end(), "erase:position", "%s: erase(end()-1) returned position %ld, expected end()", KIND, (long)(r - a.begin())); return "erase(last)"; }
    case 13: if (m.size() < 3) return 0; { size_t k = m.size() / 2; It r = a.erase(a.begin() + k); m.erase(m.begin() + k);
        MC_CHECK((size_t)(r - a.begin()) == k, "erase:position", "%s: erase(begin()+%zu) returned position %ld", KIND, k, (long)(r - a.begin())); return "erase(middle)"; }
    case 14: a = b; m = n; return "a=b";
    case 15: b = a; n = m; return "b=a";
    case 16: { SEQ<E> &r = (a = *&a); MC_CHECK(&r == &a, "assign:ref", "assignment does not return *this"); return "a=a"; }
    case 17: a.swap(b); m.swap(n); return "swap";
    case 18: a.assign(b.begin(), b.end()); m = n; return "assign(range of b)";
    case 19: if (m.empty()) return 0; { int arr[3] = {p.fresh, p.fresh + 1, p.fresh + 2}; p.fresh += 3; b.assign(arr, arr + 3); n.assign(arr, arr + 3); return "b.assign(array)"; }
    case 20: { SEQ<E> t(a); same(t, m, "copy constructor"); SEQ<E> u; u = t; t.clear(); { E e(900); append(t, e); } same(u, m, "copy of copy"); same(a, m, "copy independence");
        if (!m.empty()) { E e(901); u[0] = e; same(a, m, "copy independence (write)"); } return "copy construct"; }
    case 21: if (m.empty()) return 0; { E e(p.fresh); a[0] = e; m[0] = p.fresh++; return "[0]="; }
    case 22: a.swap(a); return "self swap";
    case 23: { const SEQ<E> &ca = a; SEQ<E> t; t.assign(ca.begin(), ca.end()); b.swap(t); n = m; return "b=copy through const iterators"; }
  }
  return 0;
}

// the operations on one container alone leave its elements in place while the capacity suffices
template <class E> static const char *apply(Pair<E> &p, int op, mc::Chooser &c) {
#ifndef SEQ_VALARRAY
  bool alone = op <= 13 || op == 16 || op == 21 || op == 22;
#else
  bool alone = false;  // not promised of valarray
#endif
  const E *at = p.c[0].data(); uint64_t cap = p.c[0].capacity(), had = p.c[0].size();
  const char *name = apply1(p, op, c);
  if (name && alone && had && p.m[0].size() <= cap) MC_CHECK(p.c[0].data() == at, std::string(name) + ":moved", "%s: %s within the capacity moved the elements", KIND, name);
  return name;
}
template <class E> static void finish(Pair<E> &p) { (void)p; }

static int g_depth = 5;
template <class E, bool BLIND> static void body_seq(mc::Chooser &c) {  // BLIND: nothing is looked at before the end, except by the operations themselves
  trk::reset();
  {
    Pair<E> p;
    int depth = BLIND ? 2 + c.choose(g_depth - 1) : g_depth;
    for (int d = 0; d < depth; d++) {
      int op = c.choose(NOPS);
      const char *name = BLIND ? apply1(p, op, c) : apply(p, op, c);
      if (!name) throw mc::Prune();
      c.log("%s -> a.size=%zu b.size=%zu", name, p.m[0].size(), p.m[1].size());
      c.step();
      if (!BLIND || d == depth - 1) {
        same(p.c[0], p.m[0], name);
        same(p.c[1], p.m[1], name);
      }
      trk::check(name);
      c.state(canon(p));
    }
    c.outcome(canon(p));
  }
  trk::check_end();
}

// Stateful search: deeper histories, prune states already explored.
static int g_bfs_depth = 9;
static size_t g_maxsize = 12;
template <class E> static void body_dedup(mc::Chooser &c) {
  trk::reset();
  {
    Pair<E> p;
    for (int d = 0; d < g_bfs_depth; d++) {
      c.state_or_prune(canon(p), g_bfs_depth - d);
      int op = c.choose(NOPS);
      const char *name = apply(p, op, c);
      if (!name || p.m[0].size() > g_maxsize) throw mc::Prune();
      c.log("%s -> a.size=%zu b.size=%zu", name, p.m[0].size(), p.m[1].size());
      c.step();
      same(p.c[0], p.m[0], name);
      same(p.c[1], p.m[1], name);
      trk::check(name);
    }
  }
  trk::check_end();
}

// From every size n (built one element at a time, or by one resize): every pair of operations.
static int g_ladder = 70;
template <class E> static void body_ladder(mc::Chooser &c) {
  trk::reset();
  {
    Pair<E> p;
    int n = c.choose(g_ladder + 1);
    int how = c.choose(3);
    if (how == 0) { for (int i = 0; i < n; i++) apply(p, 0, c); }
    else if (how == 1) { p.c[0].resize(n); p.m[0].resize(n); for (int i = 0; i < n; i++) { p.c[0][i] = E(p.fresh); p.m[0][i] = p.fresh++; } }
    else { for (int i = 0; i < n + 3; i++) apply(p, 0, c); for (int i = 0; i < 3; i++) { p.c[0].erase(p.c[0].begin()); p.m[0].erase(p.m[0].begin()); } }
    p.fresh %= 400;
    same(p.c[0], p.m[0], "build");
    for (int d = 0; d < 2; d++) {
      int op = c.choose(NOPS);
      const char *name = apply(p, op, c);
      if (!name) throw mc::Prune();
      c.log("n=%d how=%d: %s -> a.size=%zu b.size=%zu", n, how, name, p.m[0].size(), p.m[1].size());
      c.step();
      same(p.c[0], p.m[0], name);
      same(p.c[1], p.m[1], name);
      trk::check(name);
      c.state(canon(p));
    }
  }
  trk::check_end();
}

// Growth: n insertions, contents checked at every step for n up to a bound; every erase position.
static void grow_one(uint64_t n) {
  trk::reset();
  {
    SEQ<int> a; M m;
    for (uint64_t i = 0; i < n; i++) { int v = (int)(i * 2654435761u); append(a, v); m.push_back(v); same(a, m, "push_back (growth)", false); }
    same(a, m, "push_back (growth)");
    if (n) {
      SEQ<int> b(a); same(b, m, "copy of grown");
      for (int q = 0; q < 5; q++) {
        size_t k = (n - 1) * q / 4;
        SEQ<int> e(a); M me(m);
        int *r = e.erase(e.begin() + k); me.erase(me.begin() + k);
        MC_CHECK((size_t)(r - e.begin()) == k, "erase:position", "erase at %zu of %zu returned %ld", k, (size_t)n, (long)(r - e.begin()));
        same(e, me, "erase (grown)");
      }
    }
  }
  mc::nontrivial(n >= 2);
}
static void erase_every(uint64_t x) {
  uint64_t n = x / 64, k = x % 64;
  if (k >= n) return;
  mc::nontrivial();
  trk::reset();
  {
    SEQ<trk::CTracked> a; M m;
    for (uint64_t i = 0; i < n; i++) { append(a, trk::CTracked((int)i + 5)); m.push_back((int)i + 5); }
    trk::CTracked *r = a.erase(a.begin() + k);
    m.erase(m.begin() + k);
    mc::say("size %d, erase position %d", (int)n, (int)k);
    MC_CHECK((size_t)(r - a.begin()) == k, "erase:position", "erase at %zu of %zu returned %ld", (size_t)k, (size_t)n, (long)(r - a.begin()));
    same(a, m, "erase");
    trk::check("erase");
  }
  trk::check_end();
}
// resize from every (size, capacity history) to every size, for trivially typed elements
static void resize_pairs(uint64_t x) {
  uint64_t from = x % 40, mid = (x / 40) % 40, to = x / 1600;
  SEQ<int> a; M m;
  for (uint64_t i = 0; i < from; i++) { append(a, (int)i + 1); m.push_back((int)i + 1); }
  a.resize(mid); m.resize(mid); same(a, m, "resize");
  a.resize(to); m.resize(to); same(a, m, "resize");
  for (uint64_t i = 0; i < 3; i++) { append(a, 77); m.push_back(77); }
  same(a, m, "resize");
  mc::nontrivial(from != mid || mid != to);
  mc::say("%d elements, resize(%d), resize(%d), 3 appended", (int)from, (int)mid, (int)to);
}

// Large containers: sizes around every power of two (and some others) up to a bound, three element sizes, each
// reached by single insertions or by one resize, then each of ten follow-up operations; contents compared completely.
static std::vector<uint64_t> big_sizes(uint64_t max) {
  std::vector<uint64_t> v; uint64_t more[] = {300, 1000, 1001, 3000, 5000, 10000, 50000, 100000};
  for (uint64_t k = 64; k <= max; k *= 2) { v.push_back(k - 1); v.push_back(k); v.push_back(k + 1); }
  for (uint64_t m : more) if (m <= max) v.push_back(m);
  return v;
}
static std::vector<uint64_t> BS;
struct Wide { int v; int pad[11]; Wide() : v(0) {} Wide(int x) : v(x) { for (int i = 0; i < 11; i++) pad[i] = x + i; } };
static int bval(char c) { return c; } static int bval(long long c) { return (int)c; }
static int bval(const Wide &w) { for (int i = 0; i < 11; i++) if (w.v && w.pad[i] != w.v + i) return -1; return w.v; }
template <class E> static int tok(uint64_t i) { return sizeof(E) == 1 ? (int)(i % 101) + 1 : (int)((i * 2654435761u) & 0xffffff) + 1; }
template <class E> static void bsame(const SEQ<E> &c, const std::vector<int> &m, const char *op) {
  MC_CHECK(c.size() == m.size() && c.empty() == m.empty() && c.capacity() >= c.size() && (uint64_t)(c.end() - c.begin()) == m.size(), std::string(op) + ":size", "%s of %zu-byte elements: after %s size() is %llu, capacity() %llu, expected size %zu", KIND, sizeof(E), op, (unsigned long long)c.size(), (unsigned long long)c.capacity(), m.size());
  const E *p = c.begin();
  for (size_t i = 0; i < m.size(); i++) if (bval(p[i]) != m[i]) mc::fail(std::string(op) + ":value", "%s of %zu-byte elements: after %s element %zu of %zu is %d, expected %d", KIND, sizeof(E), op, i, m.size(), bval(p[i]), m[i]);
}
template <class E> static void big1(uint64_t n, int how, int op) {
  SEQ<E> a; std::vector<int> m; uint64_t k = 0;
  if (how == 0) for (uint64_t i = 0; i < n; i++) { E e((char)0); e = E(tok<E>(k)); append(a, e); m.push_back(tok<E>(k++)); }
  else { a.resize(n); m.resize(n); for (uint64_t i = 0; i < n; i++) { a[i] = E(tok<E>(k)); m[i] = tok<E>(k++); } }
  bsame(a, m, how ? "large resize" : "large growth");
  switch (op) {
    case 0: { SEQ<E> b(a); bsame(b, m, "large copy"); b[n - 1] = E(7); bsame(a, m, "large copy independence"); break; }
    case 1: { SEQ<E> b; b.resize(3); b = a; bsame(b, m, "large assignment"); a = a; break; }
    case 2: { SEQ<E> b; append(b, E(5)); b.swap(a); bsame(b, m, "large swap"); for (int i = 0; i < 3; i++) { append(b, E(9)); m.push_back(9); } bsame(b, m, "large append after swap"); b.swap(a); break; }
    case 3: { E *r = a.erase(a.begin()); m.erase(m.begin()); MC_CHECK(r == a.begin(), "large erase:position", "erase(begin()) of a large container does not return begin()"); break; }
    case 4: { E *r = a.erase(a.begin() + n / 2); m.erase(m.begin() + n / 2); MC_CHECK(r == a.begin() + n / 2, "large erase:position", "erase(middle) of a large container returns the wrong position"); break; }
    case 5: { E *r = a.erase(a.end() - 1); m.pop_back(); MC_CHECK(r == a.end(), "large erase:position", "erase(last) of a large container does not return end()"); break; }
    case 6: { uint64_t c = a.capacity(), o = a.size(); a.resize(c); m.resize(c); bsame(a, m, "large resize to capacity"); for (uint64_t i = o; i < c; i++) { a[i] = E(tok<E>(i)); m[i] = tok<E>(i); } break; }
    case 7: { uint64_t c = a.capacity(); a.resize(c + 1); m.resize(c + 1); bsame(a, m, "large resize beyond capacity"); break; }
    case 8: { a.resize(n / 2); m.resize(n / 2); bsame(a, m, "large shrink"); a.resize(n); m.resize(n); break; }
    case 9: { std::vector<E> src; std::vector<int> t; for (uint64_t i = 0; i < n + 5; i++) { src.push_back(E(tok<E>(i + 77))); t.push_back(tok<E>(i + 77)); } a.assign(src.data(), src.data() + src.size()); m = t; break; }
    case 10: { a.clear(); m.clear(); bsame(a, m, "large clear"); for (int i = 0; i < 3; i++) { append(a, E(3)); m.push_back(3); } break; }
  }
  bsame(a, m, "large operation");
}
static void big(uint64_t x) {
  uint64_t n = BS[x / 66]; int how = x / 33 % 2, op = x / 3 % 11;
  mc::say("%d elements, built by %s, operation %d", (int)n, how ? "resize" : "insertion", op);
  switch (x % 3) { case 0: big1<char>(n, how, op); break; case 1: big1<long long>(n, how, op); break; default: big1<Wide>(n, how, op); }
  mc::nontrivial();
}

#ifdef SEQ_VALARRAY
// the sized constructor: n value-initialised elements, and the result grows and shrinks as any other
template <class T> static void va_sized1(uint64_t n, const T &zero, const T &one) {
  SEQ<T> a((nanostl::size_type)n);
  MC_CHECK(a.size() == n && a.capacity() >= n && a.empty() == (n == 0), "sized:size", "valarray(%d) has size %d", (int)n, (int)a.size());
  for (uint64_t i = 0; i < n; i++) MC_CHECK(a[i] == zero, "sized:value", "element %d of valarray(%d) is not value-initialised", (int)i, (int)n);
  a.resize(n + 1); a[n] = one;
  MC_CHECK(a.size() == n + 1 && a[n] == one, "sized:grow", "growing valarray(%d)", (int)n);
  a.resize(n / 2);
  for (uint64_t i = 0; i < n / 2; i++) MC_CHECK(a[i] == zero, "sized:shrink", "element %d after shrinking valarray(%d)", (int)i, (int)n);
}
static void va_sized(uint64_t x) {
  uint64_t n = x < 300 ? x : BS[x - 300];
  mc::say("valarray(%d)", (int)n);
  va_sized1<int>(n, 0, 7); va_sized1<double>(n, 0.0, 1.5); va_sized1<signed char>(n, 0, 3);
  if (n < 300) { trk::reset(); { SEQ<trk::CTracked> a((nanostl::size_type)n); for (uint64_t i = 0; i < n; i++) MC_CHECK(a[i].get() == trk::CTracked().get(), "sized:tracked", "element %d", (int)i); } trk::check_end(); }
  mc::nontrivial(n > 1);
}
static void va_sin_double(uint64_t x) {
  uint64_t n = x < 300 ? x : BS[x - 300];
  SEQ<double> a; a.resize(n);
  for (uint64_t i = 0; i < n; i++) a[i] = -6.0 + 0.37 * (double)(i % 31);
  SEQ<double> r = nanostl::sin(a);
  MC_CHECK(r.size() == n, "sin:size", "sin(valarray of %d) has %d elements", (int)n, (int)r.size());
  for (uint64_t i = 0; i < n; i++) {
    double e = nanostl::sin(a[i]);
    MC_CHECK(!memcmp(&e, &r[i], 8) && a[i] == -6.0 + 0.37 * (double)(i % 31), "sin:value", "sin(valarray)[%d] is %g, sin of the element is %g", (int)i, r[i], e);
  }
  mc::say("sin of %d doubles", (int)n); mc::nontrivial(n > 1);
}
// valarray sin: element-wise, for every length up to a bound
static void va_sin(uint64_t n) {
  SEQ<float> a; a.resize(n);
  for (uint64_t i = 0; i < n; i++) a[i] = -6.0f + 0.37f * (float)(i % 31);
  SEQ<float> r = nanostl::sin(a);
  MC_CHECK(r.size() == n, "sin:size", "sin(valarray of %d) has %d elements", (int)n, (int)r.size());
  for (uint64_t i = 0; i < n; i++) {
    MC_CHECK(a[i] == -6.0f + 0.37f * (float)(i % 31), "sin:argument", "sin modified its argument");
    float e = nanostl::sin(a[i]);
    MC_CHECK(!memcmp(&e, &r[i], 4), "sin:value", "sin(valarray)[%d] is %g, sin of the element is %g", (int)i, r[i], e);
  }
  mc::nontrivial(n > 1);
}
#endif

// writing and reading by index at large positions
static void far_index(uint64_t x) {
  static const uint64_t P[] = {0, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 69999};
  uint64_t i = P[x / 13], j = P[x % 13];
  SEQ<int> a; a.resize(70000);
  for (uint64_t k = 0; k < 70000; k++) a.data()[k] = (int)k + 5;
  const SEQ<int> &ca = a;
  MC_CHECK(a[i] == (int)i + 5 && ca[j] == (int)j + 5 && &a[i] == a.data() + i && &ca[j] == a.data() + j, "far:index", "element %d or %d of 70000 is wrong", (int)i, (int)j);
#ifndef SEQ_VALARRAY
  MC_CHECK(&a.at(i) == a.data() + i && &ca.at(j) == a.data() + j, "far:at", "at(%d) or at(%d) of 70000 is wrong", (int)i, (int)j);
#endif
  mc::say("%d of 70000", (int)i); mc::nontrivial();
}
static void setup() {
  bool t = mc::thorough();
  g_depth = t ? 6 : 5;
  g_bfs_depth = t ? 9 : 7;
  g_maxsize = t ? 20 : 10;
  g_ladder = t ? 300 : 70;
  std::string k(KIND);
  mc::tree(k + "/sequences<Tracked>", body_seq<trk::CTracked, false>, "every sequence of operations of length <= depth, two containers, tracked elements");
  mc::tree(k + "/sequences<int>", body_seq<int, false>, "same, trivially typed elements");
  mc::tree(k + "/unobserved", body_seq<trk::CTracked, true>, "every sequence of 2 to depth operations, looked at only by the operations and at the end");
  mc::tree(k + "/states<int>", body_dedup<int>, "state-deduplicated search to a larger depth");
  mc::tree(k + "/states<Tracked>", body_dedup<trk::Tracked>, "state-deduplicated search, tracked movable elements");
  mc::tree(k + "/ladder<Tracked>", body_ladder<trk::CTracked>, "every size 0..N built three ways, then every pair of operations");
  mc::tree(k + "/ladder<int>", body_ladder<int>, "every size 0..N built three ways, then every pair of operations");
  mc::range(k + "/growth", grow_one, 0, t ? 3000 : 600, "n insertions for every n, then erasures and copies");
  mc::range(k + "/erase", erase_every, 0, 64 * 64, "every position of every size < 64");
  mc::range(k + "/resize", resize_pairs, 0, 40 * 40 * 40, "resize from every size to every size to every size < 40");
  BS = big_sizes(t ? 1 << 20 : 1 << 17);
  mc::range(k + "/large", big, 0, BS.size() * 66, t ? "sizes around every power of two up to 2^20, three element sizes, two ways to build, eleven operations" : "sizes around every power of two up to 2^17, three element sizes, two ways to build, eleven operations", 120);
  mc::range(k + "/far", far_index, 0, 169, "pairs of thirteen positions of 70000 elements");
#ifdef SEQ_VALARRAY
  mc::range(k + "/sin", va_sin, 0, t ? 1200 : 300, "element-wise sin for every length below 300 (thorough 1200)");
  mc::range(k + "/sin<double>", va_sin_double, 0, 300 + BS.size(), "every length below 300 and sizes around powers of two");
  mc::range(k + "/sized", va_sized, 0, 300 + BS.size(), "the sized constructor for every size below 300 and sizes around powers of two, four element types");
#endif
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
