// tuple against std::tuple: operation sequences, comparisons of all pairs, concatenation shapes, reference categories.
#include <tuple>
#include <utility>
#include <vector>
#include "mc.hpp"
#include "tracked.hpp"
#include "nanoutility.h"
#include "nanotuple.h"
namespace N = nanostl;
using trk::Tracked;
struct Em2_ {};
struct Em { bool operator==(const Em &) const { return true; } bool operator<(const Em &) const { return false; } };
typedef tao::tuple<Tracked, int, Em, Tracked, short> T;
typedef std::tuple<int, int, Em, int, short> R;  // what an ideal tuple holds; -1 for a moved-from tracked element
template <class A> static uint64_t content(const A &t) {
  return mc::mix(mc::mix(mc::mix(mc::mix(1, tao::get<0>(t).get()), tao::get<1>(t)), tao::get<3>(t).get()), tao::get<4>(t));
}
static void same(const T &t, const R &r, int which) {
  MC_CHECK(tao::get<0>(t).get() == std::get<0>(r) && tao::get<1>(t) == std::get<1>(r) && tao::get<3>(t).get() == std::get<3>(r) && tao::get<4>(t) == std::get<4>(r), "content",
           "tuple %d holds (%d,%d,_,%d,%d), expected (%d,%d,_,%d,%d)", which, tao::get<0>(t).get(), tao::get<1>(t), tao::get<3>(t).get(), tao::get<4>(t), std::get<0>(r), std::get<1>(r), std::get<3>(r), std::get<4>(r));
  MC_CHECK(&tao::get<short>(t) == &tao::get<4>(t) && &tao::get<int>(t) == &tao::get<1>(t), "get<type>", "get by type and by index designate different elements");
  MC_CHECK((const void *)&tao::get<0>(t) != (const void *)&tao::get<3>(t), "overlap", "elements overlap");
}
static int g_depth;
static void seq(mc::Chooser &c) {
  trk::reset();
  {
    T t[2] = {T(Tracked(1), 2, Em(), Tracked(3), (short)4), T()};
    R r[2] = {R(1, 2, Em(), 3, 4), R(0, 0, Em(), 0, 0)};
    same(t[0], r[0], 0); same(t[1], r[1], 1);
    int val = 10;
    for (int d = 0; d < g_depth; d++) {
      if (!c.choose(2)) break;
      c.step();
      int op = c.choose(16), i = c.choose(2), j = 1 - i;
      c.log("op%d on %d;", op, i);
      switch (op) {
        case 0: t[i] = t[j]; r[i] = r[j]; break;
        case 1: t[i] = N::move(t[j]); r[i] = r[j]; std::get<0>(r[j]) = std::get<3>(r[j]) = -1; break;
        case 2: t[i].swap(t[j]); std::swap(r[i], r[j]); break;
        case 3: { using tao::swap; swap(t[i], t[j]); std::swap(r[i], r[j]); break; }
        case 4: { T u(t[i]); same(u, r[i], i + 10); t[j] = u; r[j] = r[i]; break; }
        case 5: { T u(N::move(t[i])); same(u, r[i], i + 10); std::get<0>(r[i]) = std::get<3>(r[i]) = -1; break; }
        case 6: tao::get<0>(t[i]) = Tracked(++val); std::get<0>(r[i]) = val; break;
        case 7: tao::get<int>(t[i]) = ++val; std::get<1>(r[i]) = val; break;
        case 8: { Tracked a = tao::get<3>(N::move(t[i])); MC_CHECK(a.get() == std::get<3>(r[i]), "get&&", "moved-out element"); std::get<3>(r[i]) = -1; break; }
        case 9: { int a = 0; short s = 0; Tracked x, y; Em e; tao::tie(x, a, e, y, s) = t[i]; MC_CHECK(x.get() == std::get<0>(r[i]) && a == std::get<1>(r[i]) && y.get() == std::get<3>(r[i]) && s == std::get<4>(r[i]), "tie", "tie assignment"); break; }
        case 10: { Tracked x; int a = 0; Em e; Tracked y; short s; tao::tie(x, a, e, y, s) = N::move(t[i]); MC_CHECK(x.get() == std::get<0>(r[i]) && y.get() == std::get<3>(r[i]), "tie", "tie move assignment"); std::get<0>(r[i]) = std::get<3>(r[i]) = -1; break; }
        case 11: { ++val; t[i] = tao::make_tuple(Tracked(val), val + 1, Em(), Tracked(val + 2), (short)(val + 3)); r[i] = R(val, val + 1, Em(), val + 2, val + 3); val += 3; break; }
        case 12: { auto u = tao::tuple_cat(t[i], t[j]); static_assert(tao::tuple_size<decltype(u)>::value == 10, ""); MC_CHECK(tao::get<0>(u).get() == std::get<0>(r[i]) && tao::get<3>(u).get() == std::get<3>(r[i]) && tao::get<4>(u) == std::get<4>(r[i]) && tao::get<5>(u).get() == std::get<0>(r[j]) && tao::get<6>(u) == std::get<1>(r[j]) && tao::get<8>(u).get() == std::get<3>(r[j]) && tao::get<9>(u) == std::get<4>(r[j]), "tuple_cat", "tuple_cat of two"); break; }
        case 13: { auto u = tao::tuple_cat(N::move(t[i]), t[j]); MC_CHECK(tao::get<0>(u).get() == std::get<0>(r[i]) && tao::get<5>(u).get() == std::get<0>(r[j]), "tuple_cat", "tuple_cat moving the first");
          // the source is left either moved from or unchanged
          int a = tao::get<0>(t[i]).get(), b = tao::get<3>(t[i]).get(); if (a == -1) std::get<0>(r[i]) = -1; if (b == -1) std::get<3>(r[i]) = -1; break; }
        case 14: { ++val; tao::tuple<Tracked, long, Em, Tracked, int> w(Tracked(val), val + 1L, Em(), Tracked(val + 2), val + 3); t[i] = w; r[i] = R(val, val + 1, Em(), val + 2, val + 3); MC_CHECK(tao::get<0>(w).get() == val, "converting assignment", "source changed"); val += 3; break; }
        case 15: { T &self = t[i]; t[i] = self; break; }
      }
      same(t[0], r[0], 0); same(t[1], r[1], 1);
      MC_CHECK((t[0] == t[1]) == (std::get<0>(r[0]) == std::get<0>(r[1]) && std::get<1>(r[0]) == std::get<1>(r[1]) && std::get<3>(r[0]) == std::get<3>(r[1]) && std::get<4>(r[0]) == std::get<4>(r[1])), "==", "equality");
      trk::check("op");
    }
    c.outcome(mc::mix(content(t[0]), content(t[1])));
  }
  trk::check_end();
}
// all pairs of 3-tuples over {0,1,2} and mixed element types
static void rel(uint64_t n) {
  int v[6]; for (int k = 0; k < 6; k++, n /= 3) v[k] = n % 3;
  tao::tuple<int, short, long> a(v[0], (short)v[1], (long)v[2]); tao::tuple<long, int, int> b((long)v[3], v[4], v[5]);
  std::tuple<int, short, long> x(v[0], v[1], v[2]); std::tuple<long, int, int> y(v[3], v[4], v[5]);
  mc::say("(%d,%d,%d) and (%d,%d,%d)", v[0], v[1], v[2], v[3], v[4], v[5]); mc::nontrivial();
  MC_CHECK((a == b) == (x == y), "==", "=="); MC_CHECK((a != b) == (x != y), "!=", "!="); MC_CHECK((a < b) == (x < y), "<", "<");
  MC_CHECK((a > b) == (x > y), ">", ">"); MC_CHECK((a <= b) == (x <= y), "<=", "<="); MC_CHECK((a >= b) == (x >= y), ">=", ">=");
  // only == and < are required of elements
  MC_CHECK(tao::tuple<>() == tao::tuple<>() && !(tao::tuple<>() < tao::tuple<>()), "empty", "empty tuples");
}
// concatenation of up to four tuples with sizes 0..3: every shape
template <int S, int B> struct Mk;
template <int B> struct Mk<0, B> { typedef tao::tuple<> type; static type go() { return type(); } };
template <int B> struct Mk<1, B> { typedef tao::tuple<int> type; static type go() { return type(B); } };
template <int B> struct Mk<2, B> { typedef tao::tuple<int, short> type; static type go() { return type(B, (short)(B + 1)); } };
template <int B> struct Mk<3, B> { typedef tao::tuple<int, Em, long> type; static type go() { return type(B, Em(), B + 2L); } };
struct Probe { std::vector<long> v; void add(long x) { v.push_back(x); } void add(const Em &) { v.push_back(-7); } };
template <size_t I, size_t S> struct Each { template <class U> static void go(const U &u, Probe &p) { p.add(tao::get<I>(u)); Each<I + 1, S>::go(u, p); } };
template <size_t S> struct Each<S, S> { template <class U> static void go(const U &, Probe &) {} };
static void exp_(std::vector<long> &w, int s, int b) { if (s == 1) w.push_back(b); if (s == 2) w.push_back(b), w.push_back(b + 1); if (s == 3) w.push_back(b), w.push_back(-7), w.push_back(b + 2); }
static std::vector<void (*)()> SH;
template <int A, int B, int C, int D> static void shape() {
  auto a = Mk<A, 10>::go(); auto b = Mk<B, 20>::go(); const auto c = Mk<C, 30>::go(); auto d = Mk<D, 40>::go();
  auto u = tao::tuple_cat(a, N::move(b), c, N::move(d));
  Probe p; Each<0, tao::tuple_size<decltype(u)>::value>::go(u, p);
  std::vector<long> w; exp_(w, A, 10); exp_(w, B, 20); exp_(w, C, 30); exp_(w, D, 40);
  MC_CHECK(p.v == w, "tuple_cat:shape", "tuple_cat of sizes %d %d %d %d has the wrong elements", A, B, C, D);
  auto u2 = tao::tuple_cat(a, c); Probe q; Each<0, tao::tuple_size<decltype(u2)>::value>::go(u2, q); w.clear(); exp_(w, A, 10); exp_(w, C, 30);
  MC_CHECK(q.v == w, "tuple_cat:shape", "tuple_cat of sizes %d %d", A, C);
}
template <int K> struct Shapes { static void go() { Shapes<K - 1>::go(); SH.push_back(shape<(K - 1) % 4, (K - 1) / 4 % 4, (K - 1) / 16 % 4, (K - 1) / 64>); } };
template <> struct Shapes<0> { static void go() {} };
static void cat(uint64_t i) { mc::nontrivial(); SH[i](); }
static void refs(uint64_t) {
  int a = 1; long b = 2; const int k = 3;
  auto t = tao::tie(a, b); tao::get<0>(t) = 5; tao::get<1>(t) = 6; MC_CHECK(a == 5 && b == 6 && &tao::get<0>(t) == &a, "tie:ref", "tie does not refer to its arguments");
  tao::tie(a, tao::ignore); tao::tie(b, tao::ignore);
  auto f = tao::forward_as_tuple(a, k, 7L);
  static_assert(std::is_same<decltype(f), tao::tuple<int &, const int &, long &&> >::value, "");
  MC_CHECK(&tao::get<0>(f) == &a && &tao::get<1>(f) == &k, "forward", "forward_as_tuple does not refer to its arguments");
  static_assert(std::is_same<decltype(tao::make_tuple(a, k, "x")), tao::tuple<int, int, const char *> >::value, "");
  static_assert(std::is_same<tao::tuple_element<1, tao::tuple<int, long &, char> >::type, long &>::value, "");
  typedef tao::tuple<int, Em, long> Q; Q q(1, Em(), 2); const Q cq(3, Em(), 4);
  static_assert(std::is_same<decltype(tao::get<0>(q)), int &>::value && std::is_same<decltype(tao::get<0>(cq)), const int &>::value && std::is_same<decltype(tao::get<0>(N::move(q))), int &&>::value && std::is_same<decltype(tao::get<0>(N::move(cq))), const int &&>::value, "");
  MC_CHECK(tao::get<2>(N::move(cq)) == 4 && tao::get<0>(N::move(cq)) == 3, "get const&&", "get on a const rvalue");
  // permuting assignment through tie: all orders of three
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int p = 0; p < 6; p++) { int v[3] = {10, 20, 30}; tao::tie(v[0], v[1], v[2]) = tao::make_tuple(v[P[p][0]], v[P[p][1]], v[P[p][2]]); for (int x = 0; x < 3; x++) MC_CHECK(v[x] == 10 * (P[p][x] + 1), "tie:permute", "permuting through tie"); }
  // element-wise swap of references swaps the referents
  int x = 1, y = 2, z = 3, w = 4; auto r1 = tao::tie(x, y), r2 = tao::tie(z, w); r1.swap(r2); MC_CHECK(x == 3 && y == 4 && z == 1 && w == 2, "swap:refs", "swap of tuples of references");
  // empty elements, move-only elements
  struct MO { int v; MO(int x) : v(x) {} MO(MO &&o) noexcept : v(o.v) { o.v = -1; } MO &operator=(MO &&o) { v = o.v; o.v = -1; return *this; } };
  tao::tuple<MO, Em, Em2_> *np = 0; (void)np;
  tao::tuple<MO, int> mo(MO(8), 9), mp(N::move(mo)); MC_CHECK(tao::get<0>(mp).v == 8 && tao::get<0>(mo).v == -1, "move-only", "move-only element"); mo = N::move(mp); MC_CHECK(tao::get<0>(mo).v == 8 && tao::get<1>(mo) == 9, "move-only", "move-only assignment");
  mc::nontrivial(); mc::say("reference and category behaviour");
}
static void setup() {
  Shapes<256>::go();
  g_depth = mc::thorough() ? 5 : 4;
  mc::tree("tuple/sequences", seq, mc::thorough() ? "two tuples with tracked, plain and empty elements, 16 operations, depth 5" : "two tuples with tracked, plain and empty elements, 16 operations, depth 4");
  mc::range("tuple/relational", rel, 0, 729, "every pair of three-element tuples over {0,1,2}, mixed element types");
  mc::range("tuple/cat", cat, 0, 256, "tuple_cat of every combination of four tuples of sizes 0..3");
  mc::range("tuple/references", refs, 0, 1, "tie, forward_as_tuple, make_tuple, element access categories");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
