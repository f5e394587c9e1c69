// variant: all pairs of all sixteen alternatives for every operation, and every
// operation sequence to a depth, in lockstep with (alternative, value).
#include <cassert>
#include <string>
#include <vector>
#include <type_traits>
#include "mc.hpp"
#include "tracked.hpp"
#define NANOSTL_IMPLEMENTATION
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanostring.h"
#include "nanoutility.h"
#include "nanovector.h"
#include "nanomemory.h"
#include "nanooptional.h"
#include "nanovariant.h"

// alternatives of different sizes; the padding proves each has its own storage
template <int N> struct A : trk::Tracked {
  unsigned char pad[1 + (N * 37) % 64];
  A() { set(); }
  A(int x) : trk::Tracked(x) { set(); }
  A(const A &o) : trk::Tracked((const trk::Tracked &)o) { o.chk(); set(); }
  A(A &&o) : trk::Tracked((trk::Tracked &&)o) { o.chk(); set(); }
  A &operator=(const A &o) { chk(); o.chk(); trk::Tracked::operator=((const trk::Tracked &)o); return *this; }
  A &operator=(A &&o) { chk(); o.chk(); trk::Tracked::operator=((trk::Tracked &&)o); return *this; }
  ~A() { chk(); memset(pad, 0xEE, sizeof pad); }
  void set() { memset(pad, 0x40 + N, sizeof pad); }
  void chk() const { for (size_t i = 0; i < sizeof pad; i++) if (pad[i] != 0x40 + N) { trk::err("an alternative is used as if it had another type"); return; } }
};
typedef nanostl::variant<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>, A<12>, A<13>, A<14>, A<15> > V;
struct M { int k, v; };

// run-time indexed access to the statically indexed interface
struct Acc {
  int (*value)(V &);              // get<T>
  int (*valuei)(const V &);       // get<K>
  void (*assign)(V &, int, int);  // how: 0 copy, 1 move, 2 emplace<T>, 3 emplace<K>
  V *(*make)(int, int);           // how: 0 copy, 1 move, 2 in place type, 3 in place index
  bool (*holds)(const V &);
  bool (*ifs)(V &, bool);
  int (*take)(V &);               // get from an rvalue
};
template <int K> struct AccK {
  static int value(V &v) { A<K> &a = nanostl::get<A<K> >(v); a.chk(); return a.get(); }
  static int valuei(const V &v) { const A<K> &a = nanostl::get<K>(v); a.chk(); return a.get(); }
  static void assign(V &v, int x, int how) {
    if (how == 0) { const A<K> t(x); v = t; }
    else if (how == 1) { A<K> t(x); v = nanostl::move(t); }
    else if (how == 2) { A<K> &r = v.template emplace<A<K> >(x); MC_CHECK(&r == nanostl::get_if<A<K> >(&v), "emplace:ref", "emplace returns another object"); }
    else { A<K> &r = v.template emplace<K>(x); MC_CHECK(&r == nanostl::get_if<A<K> >(&v), "emplace:ref", "emplace returns another object"); }
  }
  static V *make(int x, int how) {
    if (how == 0) { const A<K> t(x); return new V(t); }
    if (how == 1) { A<K> t(x); return new V(nanostl::move(t)); }
    if (how == 2) return new V(nonstd::in_place_type<A<K> >, x);
    return new V(nonstd::in_place_index<K>, x);
  }
  static bool holds(const V &v) { return nonstd::holds_alternative<A<K> >(v); }
  static bool ifs(V &v, bool present) {
    const V &c = v;
    void const *p[4] = {nanostl::get_if<A<K> >(&v), nanostl::get_if<A<K> >(&c), nanostl::get_if<K>(&v), nanostl::get_if<K>(&c)};
    for (int i = 0; i < 4; i++) { if ((p[i] != 0) != present) return false; if (p[i] != p[0]) return false; }
    return true;
  }
  static int take(V &v) { A<K> t = nanostl::get<A<K> >(nanostl::move(v)); return t.get(); }
};
static Acc acc[16];
template <int K> struct Fill { static void go() { Acc a = {AccK<K>::value, AccK<K>::valuei, AccK<K>::assign, AccK<K>::make, AccK<K>::holds, AccK<K>::ifs, AccK<K>::take}; acc[K] = a; Fill<K - 1>::go(); } };
template <> struct Fill<-1> { static void go() {} };

struct Vis1 { template <int K> int operator()(const A<K> &a) const { a.chk(); return K * 100 + a.get(); } };
struct Vis2 { template <int K, int L> int operator()(const A<K> &a, const A<L> &b) const { a.chk(); b.chk(); return (K * 100 + a.get()) * 10000 + L * 100 + b.get(); } };
struct VisC { template <int K> void operator()(const A<K> &a) const { (*n)++; last[0] = K; } int *n, *last; };

static void same(V &v, const M &m, const std::string &op) {
  MC_CHECK(v.index() == (size_t)m.k && !v.valueless_by_exception(), "index:" + op, "after %s the variant holds alternative %d, expected %d", op.c_str(), (int)v.index(), m.k);
  MC_CHECK(acc[m.k].value(v) == m.v && acc[m.k].valuei(v) == m.v, "value:" + op, "after %s the value is %d, expected %d", op.c_str(), acc[m.k].value(v), m.v);
}
static void observe(V &v, const M &m) {
  for (int q = 0; q < 16; q++) MC_CHECK(acc[q].holds(v) == (q == m.k) && acc[q].ifs(v, q == m.k), "holds", "holds_alternative/get_if for alternative %d is wrong (holds %d)", q, m.k);
  MC_CHECK(nonstd::visit(Vis1(), v) == m.k * 100 + m.v, "visit", "visit calls the wrong alternative");
  int n = 0, last = -1; VisC c = {&n, &last}; nonstd::visit(c, v);
  MC_CHECK(n == 1 && last == m.k, "visit", "visit called the visitor %d times", n);
}
static void pairwise(V &a, const M &ma, V &b, const M &mb) {
  int x = ma.k * 100 + ma.v, y = mb.k * 100 + mb.v;
  MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare", "comparison of (%d,%d) with (%d,%d) is wrong", ma.k, ma.v, mb.k, mb.v);
  MC_CHECK(nonstd::visit(Vis2(), a, b) == x * 10000 + y, "visit2", "visiting (%d,%d),(%d,%d) calls the wrong alternatives", ma.k, ma.v, mb.k, mb.v);
}

struct Own { V *o[2]; Own() { o[0] = o[1] = 0; } ~Own() { delete o[0]; delete o[1]; } };
static const char *OPS[] = {"copy assign", "move assign", "swap", "copy construct", "move construct", "assign value", "assign moved value", "emplace type", "emplace index", "self copy assign", "free swap", "take"};
static void apply(Own &w, M *m, int op, int i, int j, int k, int x) {
  V **o = w.o;
  switch (op) {
    case 0: *o[i] = *(const V *)o[j]; m[i] = m[j]; break;
    case 1: *o[i] = nanostl::move(*o[j]); m[i] = m[j]; m[j].v = -1; break;
    case 2: o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
    case 3: { V *n = new V(*(const V *)o[j]); delete o[i]; o[i] = n; m[i] = m[j]; break; }
    case 4: { V *n = new V(nanostl::move(*o[j])); delete o[i]; o[i] = n; m[i] = m[j]; m[j].v = -1; break; }
    case 5: case 6: case 7: case 8: acc[k].assign(*o[i], x, op - 5); m[i].k = k; m[i].v = x; break;
    case 9: *o[i] = *(const V *)o[i]; break;
    case 10: nonstd::swap(*o[i], *o[j]); std::swap(m[i], m[j]); break;
    case 11: { int g = acc[m[j].k].take(*o[j]); MC_CHECK(g == m[j].v, "take", "get from an rvalue gives %d, expected %d", g, m[j].v); m[j].v = -1; break; }
  }
}
static void check2(Own &w, M *m, const char *op) {
  for (int q = 0; q < 2; q++) same(*w.o[q], m[q], op);
  trk::check(op);
  pairwise(*w.o[0], m[0], *w.o[1], m[1]); pairwise(*w.o[1], m[1], *w.o[0], m[0]);
}
static void pairs(mc::Chooser &c) {
  trk::reset();
  {
    Own w;
    int k0 = c.choose(16), k1 = c.choose(16), x1 = 1 + c.choose(2), how = c.choose(4), op = c.choose(12);
    M m[2] = {{k0, 1}, {k1, x1}};
    c.log("v0 holds alternative %d, v1 alternative %d: %s", k0, k1, OPS[op]);
    w.o[0] = acc[k0].make(1, how); w.o[1] = acc[k1].make(x1, how);
    check2(w, m, "construction");
    apply(w, m, op, 0, 1, k1, x1);
    c.step();
    check2(w, m, OPS[op]);
    observe(*w.o[0], m[0]); observe(*w.o[1], m[1]);
    c.state(mc::mix(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v), 3));
  }
  trk::check_end();
}
static void seq(mc::Chooser &c) {
  trk::reset();
  {
    static const int KS[3] = {0, 5, 15};
    Own w;
    w.o[0] = new V; w.o[1] = new V;
    M m[2] = {{0, 0}, {0, 0}};
    check2(w, m, "default construction");
    int depth = mc::thorough() ? 5 : 4;
    for (int d = 0; d < depth; d++) {
      int i = c.choose(2), op = c.choose(10), k = 0, x = 0;
      if (op >= 5 && op < 9) { k = KS[c.choose(3)]; x = 1 + c.choose(op == 5 ? 2 : 1); }
      c.log("v%d: %s (alternative %d value %d)", i, OPS[op], k, x);
      apply(w, m, op, i, 1 - i, k, x);
      c.step();
      check2(w, m, OPS[op]);
      c.state(mc::mix(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v), 3));
    }
    observe(*w.o[0], m[0]);
    c.outcome(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v));
  }
  trk::check_end();
}
// heap-owning and over-aligned alternatives
struct alignas(16) Big { char c[80]; Big() { memset(c, 7, sizeof c); } bool ok() const { for (size_t i = 0; i < sizeof c; i++) if (c[i] != 7) return false; return true; } };
typedef nanostl::variant<char, nanostl::string, Big, double, nanostl::vector<int> > W;
struct VisW { int operator()(char) const { return 0; } int operator()(const nanostl::string &) const { return 1; } int operator()(const Big &) const { return 2; } int operator()(double) const { return 3; } int operator()(const nanostl::vector<int> &) const { return 4; } };
static void put(W &w, int k) {
  if (k == 0) w = 'x';
  if (k == 1) w = nanostl::string("a longer text than fits in place");
  if (k == 2) w = Big();
  if (k == 3) w = 2.5;
  if (k == 4) { nanostl::vector<int> v; v.push_back(4); v.push_back(5); w = v; }
}
static void chkw(const W &w, int k) {
  MC_CHECK(w.index() == (size_t)k && nonstd::visit(VisW(), w) == k, "mixed:index", "mixed variant holds alternative %d, expected %d", (int)w.index(), k);
  if (k == 0) MC_CHECK(nanostl::get<char>(w) == 'x', "mixed", "char value lost");
  if (k == 1) MC_CHECK(nanostl::get<nanostl::string>(w) == "a longer text than fits in place", "mixed", "string value lost");
  if (k == 2) MC_CHECK(nanostl::get<Big>(w).ok() && (uintptr_t)&nanostl::get<Big>(w) % 16 == 0, "mixed", "large value damaged or misaligned");
  if (k == 3) MC_CHECK(nanostl::get<double>(w) == 2.5, "mixed", "double value lost");
  if (k == 4) MC_CHECK(nanostl::get<4>(w).size() == 2 && nanostl::get<4>(w)[1] == 5, "mixed", "vector value lost");
}
static void mixed(mc::Chooser &c) {
  W *w[2] = {new W('x'), new W('x')};
  int k[2] = {0, 0};
  for (int d = 0; d < 3; d++) {
    int i = c.choose(2), op = c.choose(9);
    c.log("w%d op %d", i, op);
    if (op < 5) { put(*w[i], op); k[i] = op; }
    else if (op == 5) { *w[i] = *(const W *)w[1 - i]; k[i] = k[1 - i]; }
    else if (op == 6) { w[i]->swap(*w[1 - i]); std::swap(k[i], k[1 - i]); }
    else if (op == 7) { W *n = new W(*(const W *)w[1 - i]); delete w[i]; w[i] = n; k[i] = k[1 - i]; }
    else { W *n = new W(nanostl::move(*w[i])); delete w[i]; w[i] = n; }
    c.step();
    for (int q = 0; q < 2; q++) chkw(*w[q], k[q]);
    c.state(k[0] * 5 + k[1]);
  }
  delete w[0]; delete w[1];
}
// exceptions: element operations that throw leave a variant as it was, assigned, or valueless; a valueless variant
// (m.k == -1) copies, moves, swaps, compares and takes new values like an ideal one
static void vsame(V &v, const M &m, const char *op) {
  if (m.k >= 0) { same(v, m, op); return; }
  MC_CHECK(v.valueless_by_exception() && v.index() == (size_t)-1 && v.index() == nonstd::variant_npos, "valueless:state", "after %s a variant without value reports alternative %d", op, (int)v.index());
  for (int q = 0; q < 16; q++) MC_CHECK(!acc[q].holds(v) && acc[q].ifs(v, false), "valueless:holds", "after %s a variant without value claims to hold alternative %d", op, q);
}
static void vpair(V &a, const M &ma, V &b, const M &mb) {
  int x = ma.k < 0 ? -1000 : ma.k * 100 + ma.v, y = mb.k < 0 ? -1000 : mb.k * 100 + mb.v;
  MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "valueless:compare", "comparison of (%d,%d) with (%d,%d) is wrong", ma.k, ma.v, mb.k, mb.v);
}
static void vcheck2(Own &w, M *m, const char *op) {
  for (int q = 0; q < 2; q++) vsame(*w.o[q], m[q], op);
  trk::check(op);
  vpair(*w.o[0], m[0], *w.o[1], m[1]); vpair(*w.o[1], m[1], *w.o[0], m[0]);
}
static void mapply(Own &w, M *m, int op, int i, int j, int k, int x) {
  M s = m[j];
  apply(w, m, op, i, j, k, x);
  if (s.k < 0 && (op == 1 || op == 4)) m[j].v = m[i].v = 0;  // moving from a variant without value changes nothing
}
static void faultbody(mc::Chooser &c, const int *KS, int nk, int depth) {
  trk::reset();
  {
    Own w;
    w.o[0] = new V; w.o[1] = acc[KS[1]].make(2, 0);
    M m[2] = {{0, 0}, {KS[1], 2}};
    int faults = 0;
    for (int d = 0; d < depth; d++) {
      int i = c.choose(2), j = 1 - i, op = c.choose(11), k = 0, x = 0;
      if (op >= 5 && op < 9) { k = KS[c.choose(nk)]; x = 1; }
      long f = faults < 2 ? (long)c.choose(4) - 1 : -1;
      c.log("v%d: %s (alternative %d)%s%s", i, OPS[op], k, f < 0 ? "" : " throwing at element operation ", f < 0 ? "" : f == 0 ? "1" : f == 1 ? "2" : "3");
      const M before[2] = {m[0], m[1]};
      bool thrown = false;
      trk::g_countdown = f;
      try { mapply(w, m, op, i, j, k, x); } catch (trk::Thrown &) { thrown = true; }
      trk::g_countdown = -1;
      if (thrown) {
        faults++;
        for (int q = 0; q < 2; q++) {
          V &v = *w.o[q];
          if (v.valueless_by_exception()) {
            bool source = q == j && (op == 0 || op == 3) && before[q].k >= 0, other = q == j && op >= 5 && op <= 8 && before[q].k >= 0;
            MC_CHECK(!source && !other, "fault:source", "an exception from %s emptied the other variant", OPS[op]);
            m[q].k = -1; m[q].v = 0; continue;
          }
          int g = (int)v.index();
          MC_CHECK(g == before[0].k || g == before[1].k || (op >= 5 && op <= 8 && g == k), "fault:index", "after an exception from %s variant %d holds alternative %d", OPS[op], q, g);
          int val = acc[g].value(v);
          MC_CHECK(val == -1 || (g == before[0].k && val == before[0].v) || (g == before[1].k && val == before[1].v) || (op >= 5 && op <= 8 && g == k && val == x), "fault:value", "after an exception from %s variant %d holds %d", OPS[op], q, val);
          bool fixed = q == j && (op == 0 || op == 3 || (op >= 5 && op <= 9));
          MC_CHECK(!fixed || (g == before[q].k && val == before[q].v), "fault:source", "an exception from %s changed the other variant", OPS[op]);
          m[q].k = g; m[q].v = val;
        }
      }
      c.step();
      vcheck2(w, m, OPS[op]);
      c.state(mc::mix(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v), 5));
    }
    for (int q = 0; q < 2; q++) { acc[KS[q]].assign(*w.o[q], 3, 0); m[q].k = KS[q]; m[q].v = 3; }
    vcheck2(w, m, "assignment at the end");
    c.outcome(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v)); mc::nontrivial(faults);
  }
  trk::check_end();
}
static void faults(mc::Chooser &c) { static const int KS[2] = {0, 5}; faultbody(c, KS, 2, mc::thorough() ? 4 : 3); }
static void faults_all(mc::Chooser &c) { static const int KS[16] = {15, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}; faultbody(c, KS, 16, 2); }
static void setup() {
  Fill<15>::go();
  mc::tree("variant/faults", faults, "every sequence of 3 (thorough 4) operations over two variants and two alternatives, an exception at every choice of up to two of the element operations");
  mc::tree("variant/faults-all", faults_all, "every sequence of 2 such operations over all sixteen alternatives");
  mc::tree("variant/pairs", pairs, "every pair of the sixteen alternatives, every construction form, every operation, equal and different values");
  mc::tree("variant/sequences", seq, "every sequence of 4 (thorough 5) operations over two variants and three alternatives, nothing merged");
  mc::tree("variant/mixed", mixed, "every sequence of 3 operations over alternatives of mixed size, alignment and ownership");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
