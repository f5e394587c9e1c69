// tao::seq: compile-time integer sequences; results are computed by the compiler for every sequence of a finite
// family and compared here with plain arithmetic.
#include <stdint.h>
#include <string>
#include <vector>
#include <type_traits>
#include "mc.hpp"
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanotuple.h"
#include "tao/seq/config.hpp"
#include "tao/seq/integer_sequence.hpp"
#include "tao/seq/make_integer_sequence.hpp"
#include "tao/seq/at_index.hpp"
#include "tao/seq/select.hpp"
#include "tao/seq/sum.hpp"
#include "tao/seq/partial_sum.hpp"
#include "tao/seq/zip.hpp"
#include "tao/seq/plus.hpp"
#include "tao/seq/minus.hpp"
#include "tao/seq/exclusive_scan.hpp"
#include "tao/seq/inclusive_scan.hpp"
#include "tao/seq/map.hpp"
#include "tao/seq/is_all.hpp"
namespace sq = tao::seq;
typedef std::vector<long long> V;
template <class S> struct list;
template <class T, T... N> struct list<sq::integer_sequence<T, N...> > {
  typedef T value_type;
  static V get() { V v; long long a[] = {0, (long long)N...}; for (size_t i = 0; i < sizeof...(N); i++) v.push_back(a[i + 1]); return v; }
};
static std::string show(const V &v) { std::string s = "{"; for (long long x : v) s += std::to_string(x) + ","; return s + "}"; }
struct Case { std::string what; V got, want; bool type_ok; };
static std::vector<Case> g_cases;
static void add(const char *what, const V &in, const V &in2, const V &got, const V &want, bool t) {
  if (got != want || !t) g_cases.push_back(Case{std::string(what) + " of " + show(in) + (in2.empty() ? "" : " and " + show(in2)), got, want, t});
  else g_cases.push_back(Case{std::string(), V(), V(), true});
}
// --- make_integer_sequence / index_sequence_for
template <class T, uint64_t N> static void made() {
  typedef sq::make_integer_sequence<T, (T)N> S;
  V want; for (uint64_t i = 0; i < N; i++) want.push_back((long long)i);
  add("make_integer_sequence", V(1, (long long)N), V(), list<S>::get(), want, std::is_same<typename S::value_type, T>::value && S::size() == N);
}
template <class T, uint64_t LO, uint64_t N> struct MadeRange { static void go() { MadeRange<T, LO, N / 2>::go(); MadeRange<T, LO + N / 2, N - N / 2>::go(); } };
template <class T, uint64_t LO> struct MadeRange<T, LO, 1> { static void go() { made<T, LO>(); } };
template <class T, uint64_t LO> struct MadeRange<T, LO, 0> { static void go() {} };
// --- everything about one sequence
template <class T, class A> struct One;
template <size_t... I> struct Idx {};
template <size_t N, size_t... I> struct MkIdx : MkIdx<N - 1, N - 1, I...> {};
template <size_t... I> struct MkIdx<0, I...> { typedef Idx<I...> type; };
template <class A, size_t... I> static V selected(Idx<I...>) { V v; long long a[] = {0, (long long)sq::select<I, A>::value...}; for (size_t i = 0; i < sizeof...(I); i++) v.push_back(a[i + 1]); return v; }
template <class A, size_t... I> static V partials(Idx<I...>) { long long a[] = {(long long)sq::partial_sum<I, A>::value...}; return V(a, a + sizeof...(I)); }
template <class A, bool E> struct Sel { static V get(size_t) { return V(); } };
template <class A> struct Sel<A, false> { static V get(size_t) { return selected<A>(typename MkIdx<A::size()>::type()); } };
template <class T, T... N> struct One<T, sq::integer_sequence<T, N...> > {
  static void go() {
    typedef sq::integer_sequence<T, N...> A;
    V in = list<A>::get();
    const size_t n = sizeof...(N);
    V pre(1, 0), ex, inc; long long s = 0;
    for (size_t i = 0; i < n; i++) { ex.push_back(s); s += in[i]; pre.push_back(s); inc.push_back(s); }
    add("sum", in, V(), V(1, (long long)sq::sum<A>::value), V(1, s), std::is_same<typename std::decay<decltype(sq::sum<A>::value)>::type, T>::value);
    add("sum of values", in, V(), V(1, (long long)sq::sum<T, N...>::value), V(1, s), true);
    add("partial_sum", in, V(), partials<A>(typename MkIdx<n + 1>::type()), pre, true);
    typedef sq::exclusive_scan_t<T, N...> X; typedef typename sq::exclusive_scan<A>::type X2;
    typedef typename sq::inclusive_scan<A>::type Y2; typedef typename sq::inclusive_scan<T, N...>::type Y;
    add("exclusive_scan", in, V(), list<X2>::get(), ex, std::is_same<X, X2>::value && std::is_same<typename X::value_type, T>::value);
    add("inclusive_scan", in, V(), list<Y2>::get(), inc, std::is_same<Y, Y2>::value && std::is_same<typename Y::value_type, T>::value);
    add("select", in, V(), Sel<A, n == 0>::get(n), in, true);
    V twice, nil; for (long long x : in) { twice.push_back(2 * x); nil.push_back(0); }
    add("plus", in, in, list<sq::plus_t<A, A> >::get(), twice, true);
    add("minus", in, in, list<sq::minus_t<A, A> >::get(), nil, true);
  }
};
template <class T, size_t D, T... N> struct All { static void go() { One<T, sq::integer_sequence<T, N...> >::go(); All<T, D - 1, N..., 0>::go(); All<T, D - 1, N..., 1>::go(); All<T, D - 1, N..., (T)-1>::go(); All<T, D - 1, N..., 5>::go(); All<T, D - 1, N..., (T)-7>::go(); } };
template <class T, T... N> struct All<T, 0, N...> { static void go() { One<T, sq::integer_sequence<T, N...> >::go(); } };
template <size_t D, size_t... N> struct AllU { static void go() { One<size_t, sq::integer_sequence<size_t, N...> >::go(); AllU<D - 1, N..., 0>::go(); AllU<D - 1, N..., 1>::go(); AllU<D - 1, N..., 6>::go(); } };
template <size_t... N> struct AllU<0, N...> { static void go() { One<size_t, sq::integer_sequence<size_t, N...> >::go(); } };
// --- pairs
template <class A, class B> static void pair() {
  V a = list<A>::get(), b = list<B>::get(), p, m;
  for (size_t i = 0; i < a.size(); i++) { p.push_back(a[i] + b[i]); m.push_back(a[i] - b[i]); }
  typedef typename std::common_type<typename list<A>::value_type, typename list<B>::value_type>::type C;
  add("plus", a, b, list<sq::plus_t<A, B> >::get(), p, std::is_same<typename sq::plus_t<A, B>::value_type, C>::value);
  add("minus", a, b, list<sq::minus_t<A, B> >::get(), m, std::is_same<typename sq::minus_t<A, B>::value_type, C>::value);
}
template <class TA, class TB, TA A0, TB B0, TB B1> static void pair2() {
  pair<sq::integer_sequence<TA, A0, 3>, sq::integer_sequence<TB, B0, B1> >(); pair<sq::integer_sequence<TA, 4, A0, 2>, sq::integer_sequence<TB, B0, B1, B0> >(); pair<sq::integer_sequence<TA, A0>, sq::integer_sequence<TB, B1> >();
}
template <class TA, class TB, TA A0, TB B0> static void pair1() { pair2<TA, TB, A0, B0, 0>(); pair2<TA, TB, A0, B0, 1>(); pair2<TA, TB, A0, B0, -3>(); pair2<TA, TB, A0, B0, 100>(); }
template <class TA, class TB, TA A0> static void pair0() { pair1<TA, TB, A0, 0>(); pair1<TA, TB, A0, 1>(); pair1<TA, TB, A0, -3>(); pair1<TA, TB, A0, 100>(); }
template <class TA, class TB> static void pairs() { pair0<TA, TB, 0>(); pair0<TA, TB, 1>(); pair0<TA, TB, -5>(); pair0<TA, TB, 90>(); }
// --- map: every index sequence of length up to 3 into a sequence of four
template <size_t... I> static void mapped() {
  typedef sq::integer_sequence<int, 10, -20, 30, 41> M;
  int src[] = {10, -20, 30, 41}; V in, want; size_t ix[] = {0, I...};
  for (size_t i = 0; i < sizeof...(I); i++) { in.push_back((long long)ix[i + 1]); want.push_back(src[ix[i + 1]]); }
  typedef sq::map_t<sq::index_sequence<I...>, M> R;
  add("map", in, V(), list<R>::get(), want, std::is_same<typename R::value_type, int>::value);
}
template <size_t D, size_t... I> struct Maps { static void go() { mapped<I...>(); Maps<D - 1, I..., 0>::go(); Maps<D - 1, I..., 1>::go(); Maps<D - 1, I..., 2>::go(); Maps<D - 1, I..., 3>::go(); } };
template <size_t... I> struct Maps<0, I...> { static void go() { mapped<I...>(); } };
// --- is_all: every truth assignment up to six places
template <size_t D, bool... B> struct Bools { static void go() { one(); Bools<D - 1, B..., true>::go(); Bools<D - 1, B..., false>::go(); }
  static void one() { bool a[] = {true, B...}; V in; bool w = true; for (size_t i = 1; i <= sizeof...(B); i++) { in.push_back(a[i]); w = w && a[i]; } add("is_all", in, V(), V(1, sq::is_all<B...>::value), V(1, w), true); } };
template <bool... B> struct Bools<0, B...> { static void go() { Bools<1, B...>::one(); } };
// --- at_index: every position of type lists up to ten, repeated types included
template <int K> struct Ty { static const int k = K; };
template <size_t I, class... T> static void at() {
  int ks[] = {T::k...}; V in(ks, ks + sizeof...(T));
  add("at_index", V(1, (long long)I), in, V(1, (long long)sq::at_index_t<I, T...>::k), V(1, ks[I]), true);
}
template <class... T, size_t... I> static void ats(Idx<I...>) { int d[] = {0, (at<I, T...>(), 0)...}; (void)d; add("index_sequence_for", V(1, (long long)sizeof...(T)), V(), list<sq::index_sequence_for<T...> >::get(), [] { V w; for (size_t i = 0; i < sizeof...(T); i++) w.push_back((long long)i); return w; }(), true); }
template <class... T> struct Tys { static void go() { ats<T...>(typename MkIdx<sizeof...(T)>::type()); } };
template <size_t D, class... T> struct Lists { static void go() { Tys<T...>::go(); Lists<D - 1, T..., Ty<1> >::go(); Lists<D - 1, T..., Ty<2> >::go(); } };
template <class... T> struct Lists<0, T...> { static void go() { Tys<T...>::go(); } };

static void judge(uint64_t i) {
  const Case &c = g_cases[i];
  mc::nontrivial(1);
  MC_CHECK(c.what.empty(), "sequence", "%s gives %s, expected %s%s", c.what.c_str(), show(c.got).c_str(), show(c.want).c_str(), c.type_ok ? "" : " (or another type or size)");
}
static void setup() {
  struct G { const char *name; void (*f)(); const char *b; } gs[] = {
    {"seq/make", [] { MadeRange<size_t, 0, 300>::go(); made<size_t, 511>(); made<size_t, 512>(); made<size_t, 513>(); made<size_t, 1023>(); made<size_t, 1024>(); made<size_t, 1025>(); made<size_t, 2047>(); made<size_t, 2048>(); made<size_t, 3000>();
        MadeRange<int, 0, 70>::go(); MadeRange<long long, 0, 40>::go(); }, "every length up to 300, and lengths around 512, 1024, 2048, 3000; several element types"},
    {"seq/single", [] { All<int, 4>::go(); All<long long, 2>::go(); All<signed char, 2>::go(); AllU<4>::go(); One<long long, sq::integer_sequence<long long, 1000000, -3000000, 2000005> >::go(); One<int, sq::integer_sequence<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12> >::go(); }, "every sequence of length up to 4 over five values (int; three values for size_t), up to 2 for other types"},
    {"seq/pairs", [] { pairs<int, int>(); pairs<int, long long>(); pairs<signed char, short>(); }, "pairs of sequences over four values, equal and different element types"},
    {"seq/map", [] { Maps<3>::go(); }, "every index sequence of length up to 3 into four values"},
    {"seq/is_all", [] { Bools<6>::go(); }, "every truth assignment of up to six places"},
    {"seq/at_index", [] { Lists<4>::go(); Tys<Ty<1>, Ty<2>, Ty<3>, Ty<4>, Ty<5>, Ty<6>, Ty<7>, Ty<8>, Ty<9>, Ty<10>, Ty<11>, Ty<12> >::go(); }, "every position of every list of up to four of two types, and of twelve different types"},
  };
  for (auto &g : gs) { uint64_t lo = g_cases.size(); g.f(); mc::range(g.name, judge, lo, g_cases.size(), g.b); }
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
