// map against std::map.  PART 1: dictionary, PART 2: ordered traversal, PART 3: logarithmic search path.
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include "mc.hpp"
#include "tracked.hpp"
#if PART != 3
// The explorer chooses the node priorities, hence every tree shape.
static unsigned g_pri_next = 1u << 31;
static unsigned verif_priority() { return g_pri_next; }
#define NANOSTL_VERIF_HOOKS 1
#define NANOSTL_VERIF_MAP_PRIORITY() ::verif_priority()
#endif
#include "nanoutility.h"
#include "nanovector.h"
#include "nanomap.h"
#include "nanostring.h"

#if PART != 3
typedef trk::CTracked T;
typedef nanostl::map<T, T> NM;
typedef std::map<int, int> RM;
typedef NM::iterator It;

// keys used are 10,20,30,...; absent probes are in between
static void dict(NM &m, const RM &r, int maxkey, const char *op) {
  std::string o(op);
  MC_CHECK(m.empty() == r.empty(), o + ":empty", "after %s empty() is %d, expected %d", op, m.empty(), r.empty());
  const NM &cm = m;
  for (int k = 5; k <= maxkey + 5; k += 5) {
    T key(k);
    RM::const_iterator e = r.find(k);
    It f = m.find(key);
    if (e == r.end()) {
      MC_CHECK(f == m.end() && !(f != m.end()), o + ":find-absent", "after %s find(%d) found something", op, k);
      MC_CHECK(cm.find(key) == cm.end(), o + ":find-absent", "after %s const find(%d) found something", op, k);
    } else {
      MC_CHECK(f != m.end() && !(f == m.end()), o + ":find-present", "after %s find(%d) found nothing", op, k);
      MC_CHECK((*f).first.get() == k && f->second.get() == e->second, o + ":find-value", "after %s find(%d) is (%d,%d), expected value %d", op, k, f->first.get(), f->second.get(), e->second);
      It cf = cm.find(key);
      MC_CHECK(cf == f && &*cf == &*f, o + ":find-const", "after %s const find(%d) differs", op, k);
    }
  }
}
static void walk(NM &m, const RM &r, int maxkey, const char *op) {
  std::string o(op);
  It it = m.begin();
  RM::const_iterator e = r.begin();
  size_t n = 0;
  for (; it != m.end(); ++it, ++e, ++n) {
    MC_CHECK(e != r.end(), o + ":walk-extra", "after %s iteration yields more than %zu elements", op, r.size());
    MC_CHECK((*it).first.get() == e->first && it->second.get() == e->second, o + ":walk-order", "after %s element %zu of the iteration is (%d,%d), expected (%d,%d)", op, n, it->first.get(), it->second.get(), e->first, e->second);
    MC_CHECK(it == it && !(it != it) && !(it == m.end()), o + ":iterator-eq", "after %s iterator comparison wrong", op);
    It nx = it; ++nx;
    MC_CHECK(nx != it, o + ":iterator-eq", "after %s successive iterators compare equal", op);
  }
  MC_CHECK(e == r.end(), o + ":walk-missing", "after %s iteration yields %zu of %zu elements", op, n, r.size());
  const NM &cm = m;
  for (int k = 5; k <= maxkey + 5; k += 5) {
    T key(k);
    RM::const_iterator ub = r.upper_bound(k);
    It u = m.upper_bound(key);
    if (ub == r.end()) MC_CHECK(u == m.end(), o + ":upper_bound", "after %s upper_bound(%d) should be end()", op, k);
    else MC_CHECK(u != m.end() && (*u).first.get() == ub->first, o + ":upper_bound", "after %s upper_bound(%d) wrong", op, k);
    MC_CHECK(cm.upper_bound(key) == u, o + ":upper_bound", "after %s const upper_bound(%d) differs", op, k);
    It f = m.find(key);
    if (f != m.end()) {  // walk from the middle
      RM::const_iterator g = r.find(k);
      for (; f != m.end(); ++f, ++g) MC_CHECK(g != r.end() && f->first.get() == g->first, o + ":walk-from", "after %s walking from find(%d) goes wrong", op, k);
      MC_CHECK(g == r.end(), o + ":walk-from", "after %s walking from find(%d) stops early", op, k);
    }
  }
}
static void check(NM &m, const RM &r, int maxkey, const char *op) {
#if PART == 1
  dict(m, r, maxkey, op);
#else
  walk(m, r, maxkey, op);
#endif
  trk::check(op);
}

static int g_n;
struct PriChooser {  // priorities chosen by relative rank: every weak order of priorities
  std::vector<unsigned> v;  // sorted distinct
  unsigned pick(mc::Chooser &c, bool ties) {
    int n = (int)v.size();
    int k = c.choose(ties ? 2 * n + 1 : n + 1);
    if (!ties) k = 2 * k;
    if (k & 1) return v[k / 2];
    unsigned long long lo = k == 0 ? 0 : v[k / 2 - 1], hi = k / 2 == n ? 0xffffffffull : v[k / 2];
    unsigned x = (unsigned)((lo + hi) / 2);
    v.insert(v.begin() + k / 2, x);
    return x;
  }
};
static uint64_t canon(const RM &r) { uint64_t h = 1; for (RM::const_iterator i = r.begin(); i != r.end(); ++i) h = mc::mix(mc::mix(h, i->first), i->second != 0); return h; }

// every insertion order x every weak order of priorities
template <bool TIES> static void shapes(mc::Chooser &c) {
  trk::reset();
  {
    NM m; RM r;
    std::vector<int> left;
    int n = 1 + c.choose(g_n - (TIES ? 1 : 0));
    for (int i = 0; i < n; i++) left.push_back(10 * (i + 1));
    PriChooser pc;
    uint64_t sh = n;
    std::vector<std::pair<const T *, T *> > addr;
    while (!left.empty()) {
      int i = c.choose((int)left.size());
      int k = left[i];
      left.erase(left.begin() + i);
      g_pri_next = pc.pick(c, TIES);
      sh = mc::mix(mc::mix(sh, k), g_pri_next);
      c.log("insert key %d, priority %u", k, g_pri_next);
      c.step();
      if (k % 20) {
        nanostl::pair<It, bool> p = m.insert(NM::value_type(T(k), T(k + 1)));
        r[k] = k + 1;
#if PART == 1
        MC_CHECK(p.second, "insert:flag", "insert of the new key %d reports false", k);
        MC_CHECK(p.first->first.get() == k && p.first->second.get() == k + 1, "insert:iterator", "insert of key %d returns an iterator to something else", k);
#endif
        addr.push_back(std::make_pair(&p.first->first, &p.first->second));
      } else {
        T &v = m[T(k)];
#if PART == 1
        MC_CHECK(v.get() == 0, "[]:default", "operator[] on a new key yields %d, not a value-initialized element", v.get());
#endif
        v = T(k + 1); r[k] = k + 1;
        addr.push_back(std::make_pair((const T *)0, &v));
      }
      trk::check("insert");
    }
    check(m, r, 10 * n, "insertions");
    c.state(sh);
    // duplicates change nothing
    g_pri_next = c.choose(2) ? 0u : 0xfffffffeu;
    for (RM::iterator i = r.begin(); i != r.end(); ++i) {
      nanostl::pair<It, bool> p = m.insert(NM::value_type(T(i->first), T(999)));
#if PART == 1
      MC_CHECK(!p.second, "insert-dup:flag", "insert of the existing key %d reports true", i->first);
      MC_CHECK(p.first->first.get() == i->first && p.first->second.get() == i->second, "insert-dup:value", "insert of the existing key %d changed its value", i->first);
      MC_CHECK(m[T(i->first)].get() == i->second, "[]:existing", "operator[] on an existing key is not its value");
#endif
    }
    check(m, r, 10 * n, "duplicate insertions");
#if PART == 1
    for (size_t i = 0; i < addr.size(); i++) MC_CHECK(addr[i].second->magic == trk::kAlive && addr[i].second->self == addr[i].second, "reference-stability", "a reference to an element was invalidated by later insertions");
#endif
    {
      NM cp(m); RM rc(r);
      check(cp, rc, 10 * n, "copy construction");
      NM as; as[T(5)] = T(1); as = m; check(as, r, 10 * n, "assignment");
      cp[T(10)] = T(77); rc[10] = 77; T nk(15); cp.insert(NM::value_type(nk, T(3))); rc[15] = 3;
      check(cp, rc, 10 * n, "change of the copy");
      check(m, r, 10 * n, "change of the copy (original)");
      as = as; check(as, r, 10 * n, "self assignment");
      NM e; as = e; check(as, RM(), 10 * n, "assignment of an empty map");
    }
    check(m, r, 10 * n, "destruction of copies");
  }
  trk::check_end();
}

// operation sequences over two maps
static int g_depth;
static void seq(mc::Chooser &c) {
  trk::reset();
  {
    NM m[2]; RM r[2];
    for (int d = 0; d < g_depth; d++) {
      int op = c.choose(18);
      const char *nm = "?";
      int k = 10 * (1 + op % 4);
      if (op < 12) { static const unsigned P[3] = {100, 0x80000000u, 0xffffff00u}; g_pri_next = P[c.choose(3)] + 7 * (d % 3); }
      if (op < 4) { nanostl::pair<It, bool> p = m[0].insert(NM::value_type(T(k), T(100 + d))); bool e = r[0].insert(std::make_pair(k, 100 + d)).second; MC_CHECK(p.second == e, "insert:flag", "insert(%d) reports %d", k, p.second); nm = "insert"; }
      else if (op < 8) { m[0][T(k)] = T(200 + d); r[0][k] = 200 + d; nm = "[]="; }
      else if (op < 12) { int v = m[0][T(k)].get(); MC_CHECK(v == r[0][k], "[]:read", "[%d] is %d, expected %d", k, v, r[0][k]); nm = "[] read"; }
      else if (op == 12) { m[1] = m[0]; r[1] = r[0]; nm = "b=a"; }
      else if (op == 13) { m[0] = m[1]; r[0] = r[1]; nm = "a=b"; }
      else if (op == 14) { It f = m[0].find(T(20)); if (f != m[0].end()) { f->second = T(300 + d); r[0][20] = 300 + d; } nm = "write through find"; }
      else if (op == 15) { It f = m[0].begin(); if (f != m[0].end()) { (*f).second = T(400 + d); r[0].begin()->second = 400 + d; } else if (!r[0].empty()) mc::fail("begin:end", "begin() is end() on a non-empty map"); nm = "write through begin"; }
      else if (op == 16) { NM t(m[0]); NM u(t); m[1] = u; r[1] = r[0]; nm = "b=copy of copy"; }
      else { m[0] = NM(); r[0].clear(); nm = "a=empty"; }
      c.log("%s (%d) pri %u", nm, k, g_pri_next);
      c.step();
      check(m[0], r[0], 40, nm);
      check(m[1], r[1], 40, nm);
      c.state(mc::mix(canon(r[0]), canon(r[1])));
    }
    c.outcome(mc::mix(canon(r[0]), canon(r[1])));
  }
  trk::check_end();
}
// the same, with lookups as operations and nothing else looked at before the end: a map that remembers
// anything from one operation to the next has to keep it up to date
static int g_ldepth;
static void lazy(mc::Chooser &c) {
  trk::reset();
  {
    NM m[2]; RM r[2]; 
    g_pri_next = c.choose(2) ? 0x80000000u : 100;
    int step = c.choose(2) ? 7 : -7, depth = 2 + c.choose(g_ldepth - 1);
    for (int d = 0; d < depth; d++, g_pri_next += step) {
      int op = c.choose(16), k = 10 * (1 + op % 2);
      const char *nm = "?";
      if (op < 2) { nanostl::pair<It, bool> p = m[0].insert(NM::value_type(T(k), T(100 + d))); bool e = r[0].insert(std::make_pair(k, 100 + d)).second; MC_CHECK(p.second == e && p.first->first.get() == k && p.first->second.get() == r[0][k], "insert:flag", "insert(%d) reports %d", k, p.second); nm = "insert"; }
      else if (op < 4) { m[0][T(k)] = T(200 + d); r[0][k] = 200 + d; nm = "[]="; }
      else if (op < 6) { It f = m[0].find(T(k)); bool e = r[0].count(k); MC_CHECK((f != m[0].end()) == e && (!e || (f->first.get() == k && f->second.get() == r[0][k])), "find", "find(%d) is wrong", k); nm = "find"; }
      else if (op < 8) { int v = m[1][T(k)].get(); MC_CHECK(v == r[1][k], "[]:read", "b[%d] is %d, expected %d", k, v, r[1][k]); nm = "b[]"; }
      else if (op == 8) { m[1] = m[0]; r[1] = r[0]; nm = "b=a"; }
      else if (op == 9) { m[0] = m[1]; r[0] = r[1]; nm = "a=b"; }
      else if (op == 10) { m[0] = NM(); r[0].clear(); nm = "a=empty"; }
      else if (op == 11) { It f = m[1].find(T(10)); bool e = r[1].count(10); MC_CHECK((f != m[1].end()) == e && (!e || f->second.get() == r[1][10]), "find", "b.find(10) is wrong"); if (e) { f->second = T(300 + d); r[1][10] = 300 + d; } nm = "write through b.find"; }
      else if (op == 12) { NM t(m[0]); t[T(10)] = T(d); It f = t.find(T(10)); MC_CHECK(f != t.end() && f->second.get() == d, "copy", "a copy lost key 10"); f = t.find(T(20)); MC_CHECK((f != t.end()) == (bool)r[0].count(20), "copy", "find(20) in a copy is wrong"); nm = "write and look up in a copy"; }
      else if (op == 13) { It f = m[0].upper_bound(T(10)); RM::iterator e = r[0].upper_bound(10); MC_CHECK((f != m[0].end()) == (e != r[0].end()) && (e == r[0].end() || f->first.get() == e->first), "upper_bound", "upper_bound(10) is wrong"); nm = "upper_bound"; }
      else if (op == 14) { It f = m[0].begin(); RM::iterator e = r[0].begin(); MC_CHECK((f != m[0].end()) == (e != r[0].end()) && (e == r[0].end() || f->first.get() == e->first), "begin", "begin() is wrong"); nm = "begin"; }
      else { m[0][T(15)] = T(500 + d); r[0][15] = 500 + d; nm = "[15]="; }
      c.log("%s (%d) pri %u", nm, k, g_pri_next);
      c.step();
      trk::check(nm);
      c.state(mc::mix(canon(r[0]), canon(r[1])));
    }
    check(m[0], r[0], 20, "the sequence");
    check(m[1], r[1], 20, "the sequence");
    c.outcome(mc::mix(canon(r[0]), canon(r[1])));
  }
  trk::check_end();
}
// string keys: the natural user program
static void strmap(mc::Chooser &c) {
  static const char *K[] = {"", "a", "ab", "b", "\xff", "abcdefghijklmnopqrstuvwxyz"};
  nanostl::map<nanostl::string, nanostl::string> m; std::map<std::string, std::string> r;
  PriChooser pc;
  for (int i = 0; i < 4; i++) {
    const char *k = K[c.choose(6)];
    g_pri_next = pc.pick(c, false);
    m[k] += "x"; r[k] += "x"; c.step();
    nanostl::map<nanostl::string, nanostl::string>::iterator it = m.begin();
    std::map<std::string, std::string>::iterator e = r.begin();
    for (; e != r.end(); ++e) {
#if PART == 1
      MC_CHECK(m.find(e->first.c_str()) != m.end() && m[e->first.c_str()] == e->second.c_str(), "string-key", "string key \"%s\" lost", e->first.c_str());
#else
      MC_CHECK(it != m.end() && (*it).first == e->first.c_str() && (*it).second == e->second.c_str(), "string-key", "string keys out of order at \"%s\"", e->first.c_str());
      ++it;
#endif
    }
#if PART == 2
    MC_CHECK(it == m.end(), "string-key", "too many keys");
#endif
  }
  uint64_t h = r.size(); for (std::map<std::string, std::string>::iterator e = r.begin(); e != r.end(); ++e) h = mc::mix(h, mc::hash_bytes(e->first.data(), e->first.size()) + e->second.size());
  c.state(h); c.outcome(h);
}
// keys of every built-in type at the ends of their range: every insertion order of up to five out of seven keys
template <class K, class V> static void keys_of(mc::Chooser &c, const K (&all)[7], const char *type) {
  nanostl::map<K, V> m; std::map<K, V> r;
  static const unsigned P[3][5] = {{5, 4, 3, 2, 1}, {1, 2, 3, 4, 5}, {3, 5, 1, 4, 2}};
  const unsigned *pr = P[c.choose(3)];
  int left[7] = {0, 1, 2, 3, 4, 5, 6}, n = 7, len = 5;
  uint64_t h = 0;
  for (int d = 0; d < len; d++) {
    int i = c.choose(n), q = left[i]; left[i] = left[--n];
    g_pri_next = pr[d] * 1000;
    K k = all[q]; V v = V(d + 1);
    if (d & 1) m[k] = v; else { auto x = m.insert(typename nanostl::map<K, V>::value_type(k, v)); MC_CHECK((x.second && x.first->first == k && x.first->second == v), "key-types:insert", "%s keys: insertion of key %d reports the wrong thing", type, q); }
    r[k] = v; h = mc::mix(h, q); c.step();
    c.log("insert key number %d of type %s", q, type);
  }
#if PART == 1
  for (int q = 0; q < 7; q++) {
    auto f = m.find(all[q]); auto e = r.find(all[q]);
    MC_CHECK(((f != m.end()) == (e != r.end()) && (e == r.end() || (f->first == e->first && f->second == e->second))), "key-types:find", "%s keys: lookup of key %d is wrong", type, q);
    auto x = m.insert(typename nanostl::map<K, V>::value_type(all[q], V(99)));
    MC_CHECK((x.second == (e == r.end()) && (x.second || x.first->second == e->second)), "key-types:insert", "%s keys: second insertion of key %d", type, q);
  }
#else
  auto it = m.begin();
  for (auto e = r.begin(); e != r.end(); ++e, ++it) MC_CHECK((it != m.end() && it->first == e->first && it->second == e->second), "key-types:walk", "%s keys: out of order", type);
  MC_CHECK((it == m.end()), "key-types:walk", "%s keys: too many elements", type);
  for (int q = 0; q < 7; q++) {
    auto u = m.upper_bound(all[q]); auto e = r.upper_bound(all[q]);
    MC_CHECK(((u != m.end()) == (e != r.end()) && (e == r.end() || u->first == e->first)), "key-types:upper_bound", "%s keys: upper bound of key %d is wrong", type, q);
  }
#endif
  c.outcome(h);
}
enum Color { RED = -5, GREEN = 0, BLUE = 1 << 30 };
static void keytypes(mc::Chooser &c) {
  static int A[7];
  static const int I[7] = {-2147483647 - 1, -2147483647, -1, 0, 1, 2147483646, 2147483647};
  static const unsigned U[7] = {0, 1, 2, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  static const long L[7] = {-0x7fffffffffffffffl - 1, -0x100000000l, -1, 0, 0x100000000l, 0x100000001l, 0x7fffffffffffffffl};
  static const long long LL[7] = {-0x7fffffffffffffffll - 1, -0x100000000ll, -1, 0, 0x100000000ll, 0x100000001ll, 0x7fffffffffffffffll};
  static const unsigned long long UL[7] = {0, 1, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
  static const short S[7] = {-32768, -257, -1, 0, 1, 255, 32767};
  static const unsigned short US[7] = {0, 1, 255, 256, 32767, 32768, 65535};
  static const char C[7] = {'\x80', '\xff', 0, 1, 'A', 'a', 127};
  static const signed char SC[7] = {-128, -127, -1, 0, 1, 126, 127};
  static const unsigned char UC[7] = {0, 1, 127, 128, 129, 254, 255};
  static const float F[7] = {-3.4e38f, -1e-40f, 0.25f, 0.5f, 0.75f, 16777216.0f, 3.4e38f};
  static const double D[7] = {-1.7e308, -1.0000000000000002, -1, 5e-324, 1e-323, 0.5, 1.7e308};
  static int *const PT[7] = {0, A, A + 1, A + 2, A + 3, A + 4, A + 5};
  static const Color E[7] = {Color(-7), RED, Color(-1), GREEN, Color(1), Color(77), BLUE};
  switch (c.choose(14)) {
    case 0: keys_of<int, int>(c, I, "int"); break;
    case 1: keys_of<unsigned, char>(c, U, "unsigned"); break;
    case 2: keys_of<long, short>(c, L, "long"); break;
    case 3: keys_of<long long, int>(c, LL, "long long"); break;
    case 4: keys_of<unsigned long long, float>(c, UL, "unsigned long long"); break;
    case 5: keys_of<short, int>(c, S, "short"); break;
    case 6: keys_of<unsigned short, long long>(c, US, "unsigned short"); break;
    case 7: keys_of<char, int>(c, C, "char"); break;
    case 8: keys_of<signed char, int>(c, SC, "signed char"); break;
    case 9: keys_of<unsigned char, double>(c, UC, "unsigned char"); break;
    case 10: keys_of<float, int>(c, F, "float"); break;
    case 11: keys_of<double, int>(c, D, "double"); break;
    case 12: keys_of<int *, int>(c, PT, "pointer"); break;
    case 13: keys_of<Color, int>(c, E, "enumeration"); break;
  }
}
static void setup() {
  bool t = mc::thorough();
  mc::tree("map/key-types", keytypes, "fourteen built-in key types, every insertion order of five out of seven keys at the ends of the range, three priority orders");
  g_n = t ? 6 : 5; g_depth = t ? 5 : 4; g_ldepth = t ? 6 : 5;
  mc::tree("map/unobserved", lazy, "every sequence of 2 to 5 (thorough 6) operations out of 16, lookups among them, looked at only by the operations and at the end");
  mc::tree("map/shapes", shapes<false>, "every insertion order of up to 5 (thorough 6) keys times every order of node priorities");
  mc::tree("map/shapes-ties", shapes<true>, "the same with every weak order (ties) for one key less");
  mc::tree("map/sequences", seq, "every sequence of 4 (thorough 5) operations (18 operations, 3 priorities each) on two maps");
  mc::tree("map/string-keys", strmap, "every sequence of 4 insertions over 6 string keys times every priority order");
}
#endif

// large maps
struct CK { int v; static long cmp; CK(int x = 0) : v(x) {} 
  bool operator==(const CK &o) const { cmp++; return v == o.v; } bool operator!=(const CK &o) const { cmp++; return v != o.v; }
  bool operator<(const CK &o) const { cmp++; return v < o.v; } bool operator>(const CK &o) const { cmp++; return v > o.v; }
  bool operator<=(const CK &o) const { cmp++; return v <= o.v; } bool operator>=(const CK &o) const { cmp++; return v >= o.v; } };
long CK::cmp = 0;
static const int NPAT = 10;
static std::vector<int> pattern(int pat, int n) {
  std::vector<int> v(n);
  for (int i = 0; i < n; i++) v[i] = i;
  unsigned s = 12345 + n;
  switch (pat) {
    case 0: break;
    case 1: std::reverse(v.begin(), v.end()); break;
    case 2: for (int i = 0; i < n; i++) v[i] = (i & 1) ? n - 1 - i / 2 : i / 2; break;          // outside in
    case 3: { std::vector<int> w = pattern(2, n); std::reverse(w.begin(), w.end()); v = w; break; }  // inside out
    case 4: for (int i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; std::swap(v[i], v[i + s % (n - i)]); } break;
    case 5: { std::vector<int> w; for (int st = 0; st < 7; st++) for (int i = st; i < n; i += 7) w.push_back(i); v = w; break; }
    case 6: { std::vector<int> w; for (int i = 0; i < n; i += 2) w.push_back(i); for (int i = 1; i < n; i += 2) w.push_back(i); v = w; break; }
    case 7: { std::vector<int> w; for (int b = 0; b < n; b += 16) for (int i = std::min(n, b + 16) - 1; i >= b; i--) w.push_back(i); v = w; break; }  // descending blocks
    case 8: { std::vector<int> w; for (int b = (n - 1) / 16 * 16; b >= 0 && n; b -= 16) for (int i = b; i < std::min(n, b + 16); i++) w.push_back(i); v = w; break; }  // ascending blocks from the top
    case 9: { std::vector<int> w; int k = 1; while (k < n) k *= 2; for (; k >= 1; k /= 2) for (int i = k - 1; i < n; i += 2 * k) w.push_back(i); v = w; break; }  // perfectly balanced
  }
  return v;
}
#if PART == 1
// Large dictionaries: contents, duplicates, copies and assignment, int and string keys.
static const int DS[] = {16, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4097, 10000, 20000, 65537};
static bool keyeq(const std::string &a, const nanostl::string &b) { return a.size() == b.size() && !memcmp(a.data(), b.c_str(), a.size()); }
static bool keyeq(int a, int b) { return a == b; }
static nanostl::string nkey(int k, nanostl::string *) { char t[40]; snprintf(t, sizeof t, "%s%d", k % 3 ? "key" : "some-rather-long-prefix-", k); return nanostl::string(t); }
static int nkey(int k, int *) { return k * 7 - 50000; }
template <class K> static void verify(nanostl::map<K, int> &m, const std::vector<int> &val, const char *op) {
  K *d = 0;
  for (int k = -1; k <= (int)val.size(); k++) {
    typename nanostl::map<K, int>::iterator f = m.find(nkey(k, d));
    bool in = k >= 0 && k < (int)val.size() && val[k] >= 0;
    if (in != (f != m.end())) mc::fail(std::string("large:") + op, "after %s of a map of %zu keys: key %d %s", op, val.size(), k, in ? "is lost" : "was invented");
    if (in && !((*f).first == nkey(k, d) && f->second == val[k])) mc::fail(std::string("large:") + op, "after %s of a map of %zu keys: value of key %d is %d instead of %d", op, val.size(), k, f->second, val[k]);
  }
  MC_CHECK(m.empty() == val.empty(), "large:empty", "empty() of a large map");
}
template <class K> static void bigdict(int n, int pat) {
  std::vector<int> v = pattern(pat, n), val(v.size(), -1), tie(v.size(), -1);
  K *d = 0;
  nanostl::map<K, int> m;
  unsigned s = 7 + n;
  for (size_t i = 0; i < v.size(); i++) {
    s = s * 1664525u + 1013904223u; g_pri_next = i % 5 == 4 ? g_pri_next : s >> 3;  // every fifth priority is a tie
    if (i & 1) { m[nkey(v[i], d)] = (int)i; val[v[i]] = (int)i; }
    else {
      bool ins = m.insert(nanostl::pair<const K, int>(nkey(v[i], d), (int)i)).second;
      MC_CHECK(ins, "large:insert", "insert of new key number %zu of %d says it was present", i, n);
      val[v[i]] = (int)i;
    }
    if (i % 3 == 2) {  // a duplicate keeps the value
      int q = v[i / 2];
      typename nanostl::map<K, int>::pair_iterator_bool r = m.insert(nanostl::pair<const K, int>(nkey(q, d), -5));
      MC_CHECK(!r.second && r.first->second == val[q], "large:duplicate", "duplicate insert into a map of %zu keys", i + 1);
    }
  }
  verify(m, val, "insertion");
  nanostl::map<K, int> c(m), e;
  e[nkey(3, d)] = 1; e[nkey(n + 9, d)] = 2;
  e = m;
  std::vector<int> val2(val);
  for (size_t k = 0; k < val.size(); k += 2) { m[nkey((int)k, d)] = 1000000 + (int)k; val[k] = 1000000 + (int)k; }
  verify(m, val, "value writes"); verify(c, val2, "copy construction"); verify(e, val2, "assignment");
  e = e; verify(e, val2, "self assignment");
  c = nanostl::map<K, int>(); MC_CHECK(c.empty() && c.find(nkey(1, d)) == c.end(), "large:clear", "assigning an empty map");
}
static void large(uint64_t x) {
  int n = DS[x / (2 * NPAT)], pat = x / 2 % NPAT;
  mc::say("%d keys, pattern %d, %s keys", n, pat, x & 1 ? "string" : "int");
  if (x & 1) { if (n > 5000) return; bigdict<nanostl::string>(n, pat); } else bigdict<int>(n, pat);
  mc::nontrivial();
}
#endif
#if PART == 2
static void bigwalk(uint64_t x) {
  int n = (int)(x / NPAT), pat = (int)(x % NPAT);
  std::vector<int> v = pattern(pat, n);
  nanostl::map<int, int> m;
  unsigned s = 99 + n;
  for (size_t i = 0; i < v.size(); i++) { s = s * 1664525u + 1013904223u; g_pri_next = s >> 3; m[v[i] * 3] = (int)i; }
  int k = 0;
  for (nanostl::map<int, int>::iterator it = m.begin(); it != m.end(); ++it, ++k) {
    MC_CHECK(k < (int)v.size(), "big:extra", "iteration over %zu keys does not stop", v.size());
    MC_CHECK(it->first == 3 * k, "big:order", "pattern %d, n=%d: element %d has key %d", pat, n, k, it->first);
  }
  MC_CHECK(k == (int)v.size(), "big:missing", "pattern %d, n=%d: iteration yields %d elements", pat, n, k);
  for (int q = -1; q < 3 * (int)v.size() + 1; q++) {
    nanostl::map<int, int>::iterator u = m.upper_bound(q);
    int e = q < 0 ? 0 : (q / 3 + 1) * 3;
    if (e >= 3 * (int)v.size()) MC_CHECK(u == m.end(), "big:upper_bound", "upper_bound(%d) should be end()", q);
    else MC_CHECK(u != m.end() && u->first == e, "big:upper_bound", "upper_bound(%d) wrong", q);
  }
  mc::nontrivial(n > 2);
  mc::say("pattern %d, %d keys", pat, n);
}
static void bigwalk2(uint64_t x) { static const int S[] = {255, 256, 257, 511, 513, 1000, 1025, 2049, 4097, 10000, 65537}; bigwalk(S[x / NPAT] * NPAT + x % NPAT); }
static void setup2() { setup(); mc::range("map/larger-walk", bigwalk2, 0, (mc::thorough() ? 11 : 10) * NPAT, "10 insertion patterns, ten (thorough eleven) sizes up to 10000 (65537)", 300); mc::range("map/large-walk", bigwalk, 0, (mc::thorough() ? 1200 : 200) * NPAT, "10 insertion patterns times every size up to N"); }
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup2); }
#elif PART == 1
static void setup1() { setup(); mc::range("map/large", large, 0, (mc::thorough() ? 24 : 22) * 2 * NPAT, "10 insertion patterns, 22 (thorough 24) sizes up to 10000 (65537), int and string keys, with duplicates, value writes, copies", 300); }
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup1); }
#else
// Longest search path, measured in key comparisons, for the real priorities.
static double g_worst;
static long levels(int n) { return (long)(4.0 * std::log2(n + 1.0) + 6); }
static void path(uint64_t x) {
  int n = (int)(x / NPAT), pat = (int)(x % NPAT);
  std::vector<int> v = pattern(pat, n);
  // a fresh process: the priority generator starts from the same state in every run
  int pfd[2];
  if (pipe(pfd)) abort();
  pid_t p = fork();
  if (p == 0) {
    long worst[4] = {0, 0, 0, 0};
    nanostl::map<CK, int> m;
    for (size_t i = 0; i < v.size(); i++) { CK::cmp = 0; m.insert(nanostl::pair<const CK, int>(CK(v[i] * 2), 1)); worst[0] = std::max(worst[0], CK::cmp); }
    for (int rep = 0; rep < 2; rep++) {
      nanostl::map<CK, int> cp(m);
      nanostl::map<CK, int> &q = rep ? cp : m;
      for (int k = -1; k <= 2 * (int)v.size(); k++) {
        CK::cmp = 0; q.find(CK(k)); worst[1 + 2 * rep] = std::max(worst[1 + 2 * rep], CK::cmp);
        if (!rep) { CK::cmp = 0; q.upper_bound(CK(k)); worst[2] = std::max(worst[2], CK::cmp); }
      }
    }
    ssize_t r = write(pfd[1], worst, sizeof worst); (void)r;
    _exit(0);
  }
  close(pfd[1]);
  long w[4] = {-1, -1, -1, -1};
  ssize_t r = read(pfd[0], w, sizeof w); (void)r;
  close(pfd[0]);
  int st; waitpid(p, &st, 0);
  MC_CHECK(w[0] >= 0, "path:crash", "pattern %d, %d keys: crashed", pat, n);
  long lim = 2 * levels((int)v.size());
  static const char *N[] = {"insertion", "find", "upper_bound", "find in a copy"};
  if (getenv("MAPSTAT")) printf("%d %d %ld %ld %ld %ld %ld\n", n, pat, lim, w[0], w[1], w[2], w[3]);
  for (int i = 0; i < 4; i++)
    MC_CHECK(w[i] <= lim, std::string("path:") + N[i], "insertion pattern %d with %zu keys: %s needs %ld key comparisons (limit %ld)", pat, v.size(), N[i], w[i], lim);
  mc::nontrivial(n > 16);
  mc::say("pattern %d, %d keys: at most %ld/%ld/%ld/%ld comparisons, limit %ld", pat, n, w[0], w[1], w[2], w[3], lim);
}
static void bigpath(uint64_t x) { path((x / NPAT + 1) * 1500 * NPAT + x % NPAT); }
static void setup() {
  bool t = mc::thorough();
  mc::range("map/path", path, 0, (t ? 1500 : 260) * NPAT, "10 insertion patterns times every size up to N, real priorities");
  mc::range("map/path-large", bigpath, 0, (t ? 40 : 6) * NPAT, "10 insertion patterns, sizes 1500, 3000, ...", 300);
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
#endif
