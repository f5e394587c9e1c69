// expected: every operation sequence to a depth over two expected objects, in lockstep with (has value, value, error).
#include <cassert>
#include <exception>
#include <functional>
#include <initializer_list>
#include <new>
#include <string>
#include <system_error>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include "mc.hpp"
#include "tracked.hpp"
// nanoexpected.h uses these names without defining them; a user of it has to supply them.
namespace nonstd { namespace expected_lite { template <class E> class unexpected_type; template <class T, class E> class expected; } }
namespace nanostl {
using std::error_code; using std::exception_ptr; using std::is_base_of; using std::rethrow_exception; using std::system_error;
using nonstd::expected_lite::unexpected_type; using nonstd::expected_lite::expected;
}
#include "nanoutility.h"
#include "nanoexception.h"
#include "nanofunctional.h"
#include "nanoexpected.h"
namespace nanostl {
exception::exception() noexcept {}
exception::exception(const exception &) noexcept {}
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "exception"; }
}
using nonstd::expected; using nonstd::make_unexpected;
namespace nx = nonstd;
template <class E> struct Un { typedef nonstd::expected_lite::unexpected_type<E> type; };

struct Val : trk::Tracked {   // the value; its constructors promise not to throw, so emplace() applies
  Val() noexcept {} Val(int x) noexcept : trk::Tracked(x) {}
  Val(int a, int b) noexcept : trk::Tracked(a * 10 + b) {}
  Val(std::initializer_list<int> l, int b) : trk::Tracked((int)l.size() * 10 + b) {}
  Val(const Val &o) noexcept : trk::Tracked((const trk::Tracked &)o) {} Val(Val &&o) noexcept : trk::Tracked((trk::Tracked &&)o) {}
  Val &operator=(const Val &o) noexcept { trk::Tracked::operator=((const trk::Tracked &)o); return *this; }
  Val &operator=(Val &&o) noexcept { trk::Tracked::operator=((trk::Tracked &&)o); return *this; }
};
template <int K> struct Err_ : trk::Tracked {
  Err_() {} explicit Err_(int x) : trk::Tracked(x) {} Err_(int a, int b) : trk::Tracked(a * 10 + b) {}
  Err_(const Err_ &o) : trk::Tracked((const trk::Tracked &)o) {} Err_(Err_ &&o) : trk::Tracked((trk::Tracked &&)o) {}
  Err_ &operator=(const Err_ &o) { trk::Tracked::operator=((const trk::Tracked &)o); return *this; }
  Err_ &operator=(Err_ &&o) { trk::Tracked::operator=((trk::Tracked &&)o); return *this; }
};
typedef Err_<0> Err;
struct CVal : trk::CTracked { CVal() {} CVal(int x) : trk::CTracked(x) {} CVal(int a, int b) : trk::CTracked(a * 10 + b) {} };
struct CErr : trk::CTracked { CErr() {} explicit CErr(int x) : trk::CTracked(x) {} CErr(int a, int b) : trk::CTracked(a * 10 + b) {} };
static bool moves(const Val *) { return true; }
static bool moves(const Err *) { return true; }
static bool moves(const CVal *) { return false; }
static bool moves(const CErr *) { return false; }
static bool moves(const int *) { return false; }
static int mk2(int *, int a, int b) { return a * 10 + b; }

struct M { bool has; int v, e; };
template <class T, class E> static void same(const expected<T, E> &o, const M &m, const std::string &op, int who) {
  MC_CHECK(o.has_value() == m.has && (bool)o == m.has, "state:" + op, "after %s object %d %s a value", op.c_str(), who, o.has_value() ? "has" : "lacks");
  if (m.has) {
    MC_CHECK(trk::val(*o) == m.v && trk::val(o.value()) == m.v, "value:" + op, "after %s object %d holds value %d, expected %d", op.c_str(), who, trk::val(*o), m.v);
    MC_CHECK(o.operator->() == &*o && &o.value() == &*o, "access", "->, * and value() designate different objects");
  } else {
    MC_CHECK(trk::val(o.error()) == m.e, "error:" + op, "after %s object %d holds error %d, expected %d", op.c_str(), who, trk::val(o.error()), m.e);
    auto u = o.get_unexpected();
    MC_CHECK(trk::val(u.value()) == m.e, "get_unexpected", "get_unexpected() holds %d, expected %d", trk::val(u.value()), m.e);
    MC_CHECK(o.template has_exception<E>() == std::is_class<E>::value && !o.template has_exception<std::string>(), "has_exception", "has_exception is wrong");
  }
}
template <class T, class E> static void rel(const expected<T, E> &a, const M &x, const expected<T, E> &b, const M &y) {
  bool eq = x.has == y.has && (x.has ? x.v == y.v : x.e == y.e);
  MC_CHECK((a == b) == eq && (a != b) == !eq, "compare", "comparing (%d,%d,%d) with (%d,%d,%d) is wrong", x.has, x.v, x.e, y.has, y.v, y.e);
  for (int k = 1; k <= 2; k++) {
    const T t(k); const typename Un<E>::type u{E(k)};
    bool et = x.has && x.v == k, eu = !x.has && x.e == k;
    MC_CHECK((a == t) == et && (t == a) == et && (a != t) == !et && (t != a) == !et, "compare:value", "comparison of (%d,%d,%d) with the value %d is wrong", x.has, x.v, x.e, k);
    MC_CHECK((a == u) == eu && (u == a) == eu && (a != u) == !eu && (u != a) == !eu, "compare:error", "comparison of (%d,%d,%d) with the error %d is wrong", x.has, x.v, x.e, k);
  }
}
template <class T, class E> static auto emplace(expected<T, E> &o, int v, int) -> decltype((void)o.emplace(v), true) {
  T &r = o.emplace(v); MC_CHECK(&r == &*o, "emplace:ref", "emplace returned another object"); return true;
}
template <class T, class E> static bool emplace(expected<T, E> &, int, long) { return false; }

template <class T, class E> static void body(mc::Chooser &c, int depth, bool merge = false) {
  typedef expected<T, E> O; typedef typename Un<E>::type U;
  trk::reset();
  {
    struct Own { O *o[2]; Own() { o[0] = o[1] = 0; } ~Own() { delete o[0]; delete o[1]; } } w;
    w.o[0] = new O; w.o[1] = new O(nx::unexpect, 1);
    O **o = w.o;
    M m[2] = {{true, 0, 0}, {false, 0, 1}};
    MC_CHECK(trk::val(**o[0]) == 0, "default", "a default-constructed object does not hold T()");
    bool mv = moves((T *)0), me = moves((E *)0);
    auto moved = [&](int j) { if (m[j].has ? mv : me) (m[j].has ? m[j].v : m[j].e) = -1; };
    for (int d = 0; d < depth; d++) {
      int i = c.choose(2), j = 1 - i, op = c.choose(20), v = 1 + (op < 9 ? c.choose(2) : 0);
      T sv(v); E se(v);
      std::string name; O *made = 0;
      switch (op) {
        case 0: name = "= const value"; { const T &cs = sv; *o[i] = cs; } m[i] = M{true, v, 0}; break;
        case 1: name = "= moved value"; *o[i] = nanostl::move(sv); m[i] = M{true, v, 0}; break;
        case 2: name = "= const unexpected"; { const U u{se}; *o[i] = u; MC_CHECK(trk::val(u.value()) == v, "source", "assigning from a const error changed it"); } m[i] = M{false, 0, v}; break;
        case 3: name = "= moved unexpected"; *o[i] = make_unexpected(nanostl::move(se)); m[i] = M{false, 0, v}; break;
        case 4: name = "constructed from value"; if (v == 1) made = new O(sv); else made = new O(nanostl::move(sv)); m[i] = M{true, v, 0}; break;
        case 5: name = "constructed from unexpected"; if (v == 1) { const U u{se}; made = new O(u); } else made = new O(make_unexpected(nanostl::move(se))); m[i] = M{false, 0, v}; break;
        case 6: name = "emplace"; if (emplace<T, E>(*o[i], v, 0)) m[i] = M{true, v, 0}; break;
        case 7: name = "in-place value"; made = new O(nx::in_place, v); m[i] = M{true, v, 0}; break;
        case 8: name = "in-place error"; made = new O(nx::unexpect, v); m[i] = M{false, 0, v}; break;
        case 9: name = "copy assign"; *o[i] = *(const O *)o[j]; m[i] = m[j]; break;
        case 10: name = "move assign"; *o[i] = nanostl::move(*o[j]); m[i] = m[j]; moved(j); break;
        case 11: name = "self copy assign"; *o[i] = *(const O *)o[i]; break;
        case 12: name = "swap"; if (d & 1) swap(*o[i], *o[j]); else o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
        case 13: name = "copy construct"; made = new O(*(const O *)o[j]); m[i] = m[j]; break;
        case 14: name = "move construct"; made = new O(nanostl::move(*o[j])); m[i] = m[j]; moved(j); break;
        case 15: name = "default construct"; made = new O; m[i] = M{true, 0, 0}; break;
        case 16: {
          name = "value()";
          bool ex = false; int r = -9;
          try { r = trk::val(o[i]->value()); } catch (nx::bad_expected_access<E> &x) { ex = true; r = trk::val(x.error()); }
          MC_CHECK(ex == !m[i].has && r == (m[i].has ? m[i].v : m[i].e), "value()", "value() of (%d,%d,%d) %s %d", m[i].has, m[i].v, m[i].e, ex ? "throws an error holding" : "returns", r);
          break;
        }
        case 17: { name = "value_or"; int r = trk::val(((const O *)o[i])->value_or(9)); MC_CHECK(r == (m[i].has ? m[i].v : 9), "value_or", "value_or(9) is %d", r); break; }
        case 18: { name = "value moved out"; if (m[i].has) { T t(c.choose(2) ? *nanostl::move(*o[i]) : nanostl::move(*o[i]).value()); MC_CHECK(trk::val(t) == m[i].v, "move out", "the value moved out is %d", trk::val(t)); moved(i); }
                   else { T t(nanostl::move(*o[i]).value_or(7)); MC_CHECK(trk::val(t) == 7, "value_or:rvalue", "value_or(7) on an error is %d", trk::val(t)); } break; }
        case 19: { name = "error moved out"; if (!m[i].has) { E t(nanostl::move(*o[i]).error()); MC_CHECK(trk::val(t) == m[i].e, "move out", "the error moved out is %d", trk::val(t)); moved(i); }
                   else { T t(nanostl::move(*o[i]).value_or(7)); MC_CHECK(trk::val(t) == m[i].v, "value_or:rvalue", "value_or(7) on a value is %d", trk::val(t)); moved(i); } break; }
      }
      c.log("o%d: %s (%d)", i, name.c_str(), v);
      c.step();
      if (made) { delete o[i]; o[i] = made; }
      for (int q = 0; q < 2; q++) same(*o[q], m[q], name, q);
      rel(*o[0], m[0], *o[1], m[1]); rel(*o[1], m[1], *o[0], m[0]); rel(*o[0], m[0], *o[0], m[0]);
      trk::check(name.c_str());
      uint64_t h = 5;
      for (int q = 0; q < 2; q++) h = mc::mix(h, (m[q].has ? 100 + m[q].v : m[q].e) + 1);
      h = mc::mix(h, d & 1);
      if (merge) c.state_or_prune(h, depth - d - 1); else c.state(h);
    }
    c.outcome(mc::mix(m[0].has ? m[0].v + 100 : m[0].e, m[1].has ? m[1].v + 100 : m[1].e));
  }
  trk::check_end();
}
// no value, only success or an error
template <class E> static void vbody(mc::Chooser &c, int depth, bool merge = false) {
  typedef expected<void, E> O; typedef typename Un<E>::type U;
  trk::reset();
  {
    struct Own { O *o[2]; Own() { o[0] = o[1] = 0; } ~Own() { delete o[0]; delete o[1]; } } w;
    w.o[0] = new O; w.o[1] = new O(nx::unexpect, 1);
    O **o = w.o;
    M m[2] = {{true, 0, 0}, {false, 0, 1}};
    bool me = moves((E *)0);
    auto moved = [&](int j) { if (!m[j].has && me) m[j].e = -1; };
    for (int d = 0; d < depth; d++) {
      int i = c.choose(2), j = 1 - i, op = c.choose(15), v = 1 + (op < 3 ? c.choose(2) : 0);
      E se(v); std::string name; O *made = 0;
      switch (op) {
        case 0: name = "constructed from const unexpected"; { const U u{se}; made = new O(u); } m[i] = M{false, 0, v}; break;
        case 1: name = "constructed from unexpected"; made = new O(make_unexpected(nanostl::move(se))); m[i] = M{false, 0, v}; break;
        case 2: name = "in-place error"; made = new O(nx::unexpect, v); m[i] = M{false, 0, v}; break;
        case 3: name = "in-place success"; made = new O(nx::in_place); m[i] = M{true, 0, 0}; break;
        case 4: name = "emplace"; o[i]->emplace(); m[i] = M{true, 0, 0}; break;
        case 5: name = "copy assign"; *o[i] = *(const O *)o[j]; m[i] = m[j]; break;
        case 6: name = "move assign"; *o[i] = nanostl::move(*o[j]); m[i] = m[j]; moved(j); break;
        case 7: name = "self copy assign"; *o[i] = *(const O *)o[i]; break;
        case 8: name = "swap"; o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
        case 9: name = "copy construct"; made = new O(*(const O *)o[j]); m[i] = m[j]; break;
        case 10: name = "move construct"; made = new O(nanostl::move(*o[j])); m[i] = m[j]; moved(j); break;
        case 11: name = "default construct"; made = new O; m[i] = M{true, 0, 0}; break;
        case 12: {
          name = "value()"; bool ex = false; int r = -9;
          try { o[i]->value(); } catch (nx::bad_expected_access<E> &x) { ex = true; r = trk::val(x.error()); }
          MC_CHECK(ex == !m[i].has && (!ex || r == m[i].e), "value()", "value() %s (%d)", ex ? "throws" : "returns", r);
          break;
        }
        case 13: { name = "error moved out"; if (!m[i].has) { E t(nanostl::move(*o[i]).error()); MC_CHECK(trk::val(t) == m[i].e, "move out", "the error moved out is %d", trk::val(t)); moved(i); } break; }
        case 14: { name = "self swap"; o[i]->swap(*o[i]); break; }
      }
      c.log("o%d: %s (%d)", i, name.c_str(), v);
      c.step();
      if (made) { delete o[i]; o[i] = made; }
      for (int q = 0; q < 2; q++) {
        MC_CHECK(o[q]->has_value() == m[q].has && (bool)*o[q] == m[q].has, "state:" + name, "after %s object %d is%s a success", name.c_str(), q, m[q].has ? " not" : "");
        if (!m[q].has) MC_CHECK(trk::val(((const O *)o[q])->error()) == m[q].e, "error:" + name, "after %s object %d holds error %d, expected %d", name.c_str(), q, trk::val(o[q]->error()), m[q].e);
      }
      bool eq = m[0].has == m[1].has && (m[0].has || m[0].e == m[1].e);
      MC_CHECK((*o[0] == *o[1]) == eq && (*o[1] == *o[0]) == eq && *o[0] == *o[0], "compare", "comparison is wrong");
      trk::check(name.c_str());
      uint64_t h = 5;
      for (int q = 0; q < 2; q++) h = mc::mix(h, (m[q].has ? 100 : m[q].e) + 1);
      h = mc::mix(h, d & 1);
      if (merge) c.state_or_prune(h, depth - d - 1); else c.state(h);
    }
    c.outcome(mc::mix(m[0].has ? 100 : m[0].e, m[1].has ? 100 : m[1].e));
  }
  trk::check_end();
}
// unexpected_type itself, conversions between expected types, construction forms
static void forms(mc::Chooser &c) {
  trk::reset();
  {
    typedef Un<Err>::type U; typedef expected<Val, Err> O;
    int k = c.choose(14);
    c.log("form %d", k);
    if (k == 13) { std::hash<expected<int, int> > h; nanostl::hash<int> g; for (int v = -3; v < 4; v++) { expected<int, int> a(v), b(v), e(make_unexpected(v)), f(make_unexpected(v + 1)); b = e; b = a; MC_CHECK(h(a) == h(b) && h(a) == g(v), "hash", "hash of an expected value %d", v); MC_CHECK(h(e) == 0 && h(f) == 0, "hash", "hash of a failed expected"); } }
    if (k == 0) { U a{Err(3)}, b{Err(4)}; swap(a, b); MC_CHECK(a.value().get() == 4 && b.value().get() == 3, "unexpected:swap", "swap of errors"); }
    if (k == 1) { U a{Err(3)}; const U b(a); U d(nanostl::move(a)); MC_CHECK(b.value().get() == 3 && d.value().get() == 3 && a.value().get() == -1, "unexpected:move", "copy/move of errors"); MC_CHECK(b == d && !(b != d) && a != b && !(a == b), "unexpected:compare", "comparison of errors"); }
    if (k == 2) { U a{Err(3)}, b{Err(4)}; a = b; MC_CHECK(a.value().get() == 4 && b.value().get() == 4, "unexpected:assign", "assignment"); b = nanostl::move(a); MC_CHECK(b.value().get() == 4, "unexpected:assign", "move assignment"); }
    if (k == 3) { U a(nx::in_place, 3, 5); MC_CHECK(a.value().get() == 35, "unexpected:in_place", "in-place error"); Err e(nanostl::move(a).value()); MC_CHECK(e.get() == 35 && a.value().get() == -1, "unexpected:value&&", "moving the error out"); }
    if (k == 4) { expected<int, int> s(4); expected<long, long> t(s), e2(expected<int, int>(make_unexpected(6))); MC_CHECK(t && *t == 4 && s && *s == 4 && !e2 && e2.error() == 6, "convert", "conversion between expected types"); }
    if (k == 5) { const expected<int, int> s(make_unexpected(4)); O t(s); MC_CHECK(!t && t.error().get() == 4 && s.error() == 4, "convert", "explicit conversion of an error"); const expected<int, int> s2(5); O t2(s2); MC_CHECK(t2 && t2->get() == 5, "convert", "explicit conversion of a value"); }
    if (k == 6) { O t(expected<int, int>(8)); MC_CHECK(t && t->get() == 8, "convert", "moving conversion of a value"); O t2{expected<int, int>(make_unexpected(9))}; MC_CHECK(!t2 && t2.error().get() == 9, "convert", "moving conversion of an error"); }
    if (k == 7) { O t(nx::in_place, 1, 2); MC_CHECK(t && (*t).get() == 12, "in_place", "in-place value with two arguments"); O e(nx::unexpect, 3, 4); MC_CHECK(!e && e.error().get() == 34, "in_place", "in-place error with two arguments"); }
    if (k == 8) { expected<int, int> a(3), b(make_unexpected(3)), d(make_unexpected(4)); MC_CHECK(a != b && b != d && a == 3 && b == make_unexpected(3) && make_unexpected(4) == d && make_unexpected(4) != b && !(a == make_unexpected(3)) && a != make_unexpected(3), "same type", "value and error of the same type are confused"); swap(a, b); MC_CHECK(!a && a.error() == 3 && b && *b == 3, "same type", "swap of value and error of the same type"); a = 7; b = make_unexpected(8); MC_CHECK(a && *a == 7 && !b && b.error() == 8, "same type", "assignment"); }
    if (k == 9) { O t; *t = Val(6); MC_CHECK(t.value().get() == 6 && t->get() == 6, "access", "writing through *"); t.value() = Val(7); MC_CHECK(t->get() == 7, "access", "writing through value()"); t->v = 8; MC_CHECK((*t).get() == 8, "access", "writing through ->"); t = make_unexpected(Err(1)); t.error() = Err(2); MC_CHECK(!t && t.error().get() == 2, "access", "writing through error()"); }
    if (k == 10) { const O t(Val(5)); Val a(*nanostl::move(t)), b(nanostl::move(t).value()); MC_CHECK(a.get() == 5 && b.get() == 5 && t->get() == 5, "const rvalue", "access to a const rvalue"); const O u{make_unexpected(Err(6))}; Err e(nanostl::move(u).error()); MC_CHECK(e.get() == 6 && u.error().get() == 6, "const rvalue", "error of a const rvalue"); }
    if (k == 11) { O a(Val(1)); O::rebind<int>::type r(make_unexpected(Err(2))); MC_CHECK((std::is_same<O::rebind<int>::type, expected<int, Err> >::value && std::is_same<O::value_type, Val>::value && std::is_same<O::error_type, Err>::value && !r && a), "types", "member types"); }
    if (k == 12) { nx::bad_expected_access<Err> b(Err(4)); MC_CHECK(b.error().get() == 4 && std::string(b.what()) == "bad_expected_access", "bad access", "bad_expected_access loses the error"); nanostl::exception *x = &b; MC_CHECK(std::string(x->what()) == "bad_expected_access", "bad access", "what()"); }
    c.step(); c.state(k);
    trk::check("form");
  }
  trk::check_end();
}
// over-aligned and large alternatives do not overlap the flag or the surroundings
struct alignas(32) Big { char c[96]; Big(int x) { for (int i = 0; i < 96; i++) c[i] = (char)(x + i); } bool ok(int x) const { for (int i = 0; i < 96; i++) if (c[i] != (char)(x + i)) return false; return true; } };
static void storage(mc::Chooser &c) {
  int k = c.choose(3), which = c.choose(2);
  struct Cell { char a; expected<Big, char> b; char z; expected<char, Big> d; char y; };
  Cell *p = new Cell{1, Big(0), 2, 'x', 3};
  if (which) { p->b = make_unexpected('e'); p->d = make_unexpected(Big(k)); } else { p->b = Big(k); p->d = 'q'; }
  c.step(); c.state(k * 2 + which);
  bool ok = p->a == 1 && p->z == 2 && p->y == 3 && p->b.has_value() == !which && p->d.has_value() == !which;
  ok = ok && (which ? p->b.error() == 'e' && p->d.error().ok(k) : p->b->ok(k) && *p->d == 'q');
  MC_CHECK(ok, "storage", "alternatives overlap their surroundings");
  delete p;
}
template <class T, class E> static void flat(mc::Chooser &c) { body<T, E>(c, mc::thorough() ? 4 : 3); }
template <class E> static void vflat(mc::Chooser &c) { vbody<E>(c, mc::thorough() ? 5 : 4); }
template <class T, class E> static void deep(mc::Chooser &c) { body<T, E>(c, mc::thorough() ? 14 : 8, true); }
template <class E> static void vdeep(mc::Chooser &c) { vbody<E>(c, mc::thorough() ? 14 : 8, true); }
// copies may throw, moves may not: a copy that throws leaves everything as it was
template <int K> struct Thr : trk::Tracked {
  explicit Thr(int x) : trk::Tracked(quiet(x)) { restore(); }
  Thr(const Thr &o) : trk::Tracked((const trk::Tracked &)o) {}
  Thr(Thr &&o) noexcept : trk::Tracked(quiet(o.get())) { o.v = -1; restore(); }
  Thr &operator=(const Thr &o) { trk::Tracked::operator=((const trk::Tracked &)o); return *this; }
  Thr &operator=(Thr &&o) noexcept { use(); o.use(); v = o.v; if (&o != this) o.v = -1; return *this; }
  static long saved;
  static int quiet(int x) { saved = trk::g_countdown; trk::g_countdown = -1; return x; }
  static void restore() { trk::g_countdown = saved; }
};
template <int K> long Thr<K>::saved;
static void faults(mc::Chooser &c) {
  typedef Thr<0> T; typedef Thr<1> E; typedef expected<T, E> O; typedef expected<void, E> W; typedef Un<E>::type U;
  trk::reset();
  {
    M m[2]; O *o[2]; W *w[2];
    for (int i = 0; i < 2; i++) {
      m[i].has = c.choose(2); m[i].v = m[i].e = 3 + i;
      o[i] = m[i].has ? new O(T(3 + i)) : new O(nx::unexpect, 3 + i);
      w[i] = m[i].has ? new W : new W(nx::unexpect, 3 + i);
    }
    int op = c.choose(8), f = c.choose(3); bool thrown = false;
    T t(8); E e(9); const T &ct = t; const U u{e};
    c.log("(%s,%s) operation %d, copy number %d throws", m[0].has ? "value" : "error", m[1].has ? "value" : "error", op, f);
    M after = m[0]; bool ws = m[0].has; int we = m[0].e;
    trk::g_countdown = f;
    try {
      switch (op) {
        case 0: *o[0] = *(const O *)o[1]; after = m[1]; break;
        case 1: { O x(*(const O *)o[1]); trk::g_countdown = -1; same(x, m[1], "copy construct", 2); break; }
        case 2: *o[0] = ct; after = M{true, 8, 8}; break;
        case 3: *o[0] = u; after = M{false, 9, 9}; break;
        case 4: *w[0] = *(const W *)w[1]; ws = m[1].has; we = m[1].e; break;
        case 5: { W x(*(const W *)w[1]); break; }
        case 6: { O x(u); W y(u); break; }
        case 7: { U x(u); O y{ct}; break; }
      }
    } catch (trk::Thrown &) { thrown = true; after = m[0]; ws = m[0].has; we = m[0].e; }
    trk::g_countdown = -1;
    c.step();
    same(*o[0], after, "copy", 0); same(*o[1], m[1], "copy", 1);
    MC_CHECK(w[0]->has_value() == ws && (ws || w[0]->error().get() == we) && w[1]->has_value() == m[1].has && (m[1].has || w[1]->error().get() == m[1].e), "void:copy", "%s copy changed the wrong object", thrown ? "an interrupted" : "a");
    trk::check("copy");
    c.state(mc::mix(mc::mix(op, f), m[0].has * 2 + m[1].has)); c.outcome(thrown);
    for (int i = 0; i < 2; i++) { delete o[i]; delete w[i]; }
  }
  trk::check_end();
}
static void setup() {
  std::string b = "every sequence of 3 (thorough 4) operations over two objects, nothing merged", bv = "every sequence of 4 (thorough 5) operations over two objects, nothing merged", bd = "every sequence of 8 (thorough 14) operations over two objects, merged on what they hold";
  mc::tree("expected/movable", flat<Val, Err>, b);
  mc::tree("expected/copy-only", flat<CVal, CErr>, b);
  mc::tree("expected/int-value", flat<int, Err>, b);
  mc::tree("expected/int-error", flat<Val, int>, b);
  mc::tree("expected/void", vflat<Err>, bv);
  mc::tree("expected/void-copy-only", vflat<CErr>, bv);
  mc::tree("expected/void-int", vflat<int>, bv);
  mc::tree("expected/states", deep<Val, Err>, bd);
  mc::tree("expected/states-void", vdeep<Err>, bd);
  mc::tree("expected/faults", faults, "every copying operation on every pair of states with the first, second or third copy throwing");
  mc::tree("expected/forms", forms, "construction and conversion forms");
  mc::tree("expected/storage", storage, "over-aligned and large alternatives");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
