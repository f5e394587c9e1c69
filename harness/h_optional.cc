// optional: every operation sequence to a depth over two optionals, in lockstep with (engaged, value).
#include <cassert>
#include <string>
#include <vector>
#include <type_traits>
#include "mc.hpp"
#include "tracked.hpp"
#define NANOSTL_IMPLEMENTATION
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanostring.h"
#include "nanoutility.h"
#include "nanovector.h"
#include "nanomemory.h"
#include "nanooptional.h"

// copies may throw, moves may not
struct NTracked : trk::Tracked {
  NTracked() {}
  NTracked(int x) : trk::Tracked(x) {}
  NTracked(const NTracked &o) : trk::Tracked((const trk::Tracked &)o) {}
  NTracked(NTracked &&o) noexcept : trk::Tracked(quiet(o)) { o.v = -1; trk::g_countdown = saved; }
  NTracked &operator=(const NTracked &o) { trk::Tracked::operator=((const trk::Tracked &)o); return *this; }
  NTracked &operator=(NTracked &&o) noexcept { use(); o.use(); v = o.v; if (&o != this) o.v = -1; return *this; }
  static long saved;
  static int quiet(NTracked &o) { o.use(); saved = trk::g_countdown; trk::g_countdown = -1; return o.v; }
};
long NTracked::saved;

template <class E> struct Ops {
  static bool moves() { return true; }
  static bool nothrow_move() { return false; }
};
template <> struct Ops<trk::CTracked> { static bool moves() { return false; } static bool nothrow_move() { return false; } };
template <> struct Ops<int> { static bool moves() { return false; } static bool nothrow_move() { return true; } };
template <> struct Ops<NTracked> { static bool moves() { return true; } static bool nothrow_move() { return true; } };

struct M { bool has; int v; };
template <class E> static void same(const nanostl::optional<E> &o, const M &m, const std::string &op, int who) {
  MC_CHECK(o.has_value() == m.has && (bool)o == m.has && (o == nonstd::nullopt) == !m.has && (o != nonstd::nullopt) == m.has, "engaged:" + op, "after %s optional %d is %sengaged", op.c_str(), who, o.has_value() ? "" : "not ");
  if (!m.has) return;
  MC_CHECK(trk::val(*o) == m.v && trk::val(o.value()) == m.v, "value:" + op, "after %s optional %d holds %d, expected %d", op.c_str(), who, trk::val(*o), m.v);
  MC_CHECK(o.operator->() == &*o && &o.value() == &*o, "access", "->, * and value() designate different objects");
}
template <class A, class B> static void rel(const A &a, const M &ma, const B &b, const M &mb) {
  int x = ma.has ? ma.v + 2 : 0, y = mb.has ? mb.v + 2 : 0;
  MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare",
           "comparing (%d,%d) with (%d,%d) is wrong", ma.has, ma.v, mb.has, mb.v);
}
// Runs f; a fault may be injected at its k-th element construction/assignment.
template <class E> static void body(mc::Chooser &c, int depth, bool faults) {
  typedef nanostl::optional<E> O;
  trk::reset();
  bool threw = false;
  {
    struct Own { O *o[2]; Own() { o[0] = o[1] = 0; } ~Own() { delete o[0]; delete o[1]; } } w;
    w.o[0] = new O; w.o[1] = new O(nonstd::nullopt);
    O **o = w.o;
    M m[2] = {{false, 0}, {false, 0}};
    bool mv = Ops<E>::moves();
    for (int d = 0; d < depth; d++) {
      int i = c.choose(2), j = 1 - i, op = c.choose(16), v = 1 + (op < 7 ? c.choose(2) : 0);
      E src(v);
      nanostl::optional<int> oi(v), oe;
      std::string name;
      M before[2] = {m[0], m[1]};
      long f = -1;
      if (faults && !threw && op != 0 && op != 1 && op != 13 && op != 14) f = (long)c.choose(3) - 1;
      trk::g_countdown = f;
      bool thrown = false;
      int ret = -7; bool fresh = false; O *made = 0;
      try {
        switch (op) {
          case 0: name = "reset"; c.log("o%d.reset()", i); o[i]->reset(); m[i].has = false; break;
          case 1: name = "= nullopt"; c.log("o%d = nullopt", i); *o[i] = nonstd::nullopt; m[i].has = false; break;
          case 2: name = "= const value"; c.log("o%d = value %d", i, v); { const E &cs = src; *o[i] = cs; } m[i].has = true; m[i].v = v; break;
          case 3: name = "= moved value"; c.log("o%d = move(value %d)", i, v); *o[i] = nanostl::move(src); m[i].has = true; m[i].v = v; break;
          case 4: name = "emplace"; c.log("o%d.emplace(%d)", i, v); { m[i].has = false; E &r = o[i]->emplace(v); trk::g_countdown = -1; MC_CHECK(&r == &**o[i], "emplace:ref", "emplace returned another object"); } m[i].has = true; m[i].v = v; break;
          case 5: name = "= optional<int>"; c.log("o%d = optional<int>(%d)", i, v); if (v == 1) *o[i] = oi; else *o[i] = nanostl::move(oi); m[i].has = true; m[i].v = v; break;
          case 6: name = "replace by constructed"; c.log("o%d replaced by optional(value %d)", i, v);
            if (v == 1) made = new O(src); else made = new O(nanostl::move(src));
            m[i].has = true; m[i].v = v; break;
          case 7: name = "copy assign"; c.log("o%d = o%d", i, j); *o[i] = *(const O *)o[j]; m[i] = m[j]; break;
          case 8: name = "move assign"; c.log("o%d = move(o%d)", i, j); *o[i] = nanostl::move(*o[j]); m[i] = m[j]; if (mv && m[j].has) m[j].v = -1; break;
          case 9: name = "self copy assign"; c.log("o%d = o%d", i, i); *o[i] = *(const O *)o[i]; break;
          case 10: name = "swap"; c.log("swap(o%d, o%d)", i, j); if (d & 1) swap(*o[i], *o[j]); else o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
          case 11: name = "copy construct"; c.log("o%d replaced by optional(o%d)", i, j); made = new O(*(const O *)o[j]); m[i] = m[j]; break;
          case 12: name = "move construct"; c.log("o%d replaced by optional(move(o%d))", i, j); made = new O(nanostl::move(*o[j])); m[i] = m[j]; if (mv && m[j].has) m[j].v = -1; break;
          case 13: name = "= empty optional<int>"; c.log("o%d = optional<int>()", i); *o[i] = oe; m[i].has = false; break;
          case 14: {
            name = "value()"; c.log("o%d.value()", i);
            bool ex = false;
#if !optional_CONFIG_NO_EXCEPTIONS
            try { ret = trk::val(o[i]->value()); } catch (nonstd::bad_optional_access &) { ex = true; }
            MC_CHECK(ex == !m[i].has, "value():error", "value() of %s optional %s", m[i].has ? "an engaged" : "an empty", ex ? "throws" : "does not throw");
            if (!ex) MC_CHECK(ret == m[i].v, "value():value", "value() is %d, expected %d", ret, m[i].v);
#endif
            break;
          }
          case 15: {
            name = "value_or"; c.log("o%d.value_or(9)", i);
            ret = trk::val(((const O *)o[i])->value_or(9));
            trk::g_countdown = -1;
            MC_CHECK(ret == (m[i].has ? m[i].v : 9), "value_or", "value_or(9) is %d", ret);
            break;
          }
        }
      } catch (trk::Thrown &) { thrown = true; }
      trk::g_countdown = -1;
      c.step();
      if (made && !thrown) { delete o[i]; o[i] = made; }
      if (thrown) {
        threw = true;
        c.log("... interrupted by an exception");
        // engagement is as before, except that emplace disengages first; values of engaged optionals stay readable
        m[0] = before[0]; m[1] = before[1];
        if (op == 4) m[i].has = false;
        trk::check(name.c_str());
        if (op == 10) { for (int q = 0; q < 2; q++) { m[q].has = o[q]->has_value(); if (m[q].has) m[q].v = trk::val(**o[q]); } }
        for (int q = 0; q < 2; q++) {
          MC_CHECK(o[q]->has_value() == m[q].has, "exception:" + name, "after an exception in %s optional %d is %sengaged", name.c_str(), q, m[q].has ? "not " : "");
          if (m[q].has) m[q].v = trk::val(**o[q]);
        }
      }
      for (int q = 0; q < 2; q++) same(*o[q], m[q], name, q);
      rel(*o[0], m[0], *o[1], m[1]); rel(*o[1], m[1], *o[0], m[0]); rel(*o[0], m[0], *o[0], m[0]);
      for (int x = 1; x <= 2; x++) {  // with plain values and another optional type
        const M mx = {true, x}; const E ex(x); nanostl::optional<E> ox(ex);
        rel(*o[0], m[0], ex, mx); rel(ex, mx, *o[1], m[1]); rel(*o[0], m[0], ox, mx);
      }
      const M none = {false, 0}; (void)none;
      MC_CHECK((*o[0] < nonstd::nullopt) == false && (nonstd::nullopt < *o[0]) == m[0].has && (*o[0] <= nonstd::nullopt) == !m[0].has && (nonstd::nullopt <= *o[0]) && (*o[0] > nonstd::nullopt) == m[0].has && !(nonstd::nullopt > *o[0]) && (*o[0] >= nonstd::nullopt) && (nonstd::nullopt >= *o[0]) == !m[0].has, "compare:nullopt", "comparison with nullopt is wrong");
      trk::check(name.c_str());
      c.state(mc::hash_bytes(m, 0) ^ mc::mix(mc::mix(m[0].has * 8 + m[0].v + 1, m[1].has * 8 + m[1].v + 1), 5));
    }
    c.outcome(mc::mix(m[0].has ? m[0].v + 3 : 0, m[1].has ? m[1].v + 3 : 0));
  }
  trk::check_end();
}
template <class E> static void flat(mc::Chooser &c) { body<E>(c, mc::thorough() ? 5 : 4, false); }
template <class E> static void flt(mc::Chooser &c) { body<E>(c, mc::thorough() ? 4 : 3, true); }
// every construction form
static void make(mc::Chooser &c) {
  trk::reset();
  {
    int k = c.choose(8);
    c.log("form %d", k);
    typedef nanostl::optional<trk::Tracked> O;
    if (k == 0) { O a = nonstd::make_optional(trk::Tracked(4)); MC_CHECK(a && a->get() == 4, "make", "make_optional(value)"); }
    if (k == 1) { O a = nonstd::make_optional<trk::Tracked>(5); MC_CHECK(a && a->get() == 5, "make", "make_optional<T>(args)"); }
    if (k == 2) { O a(nonstd::in_place, 6); MC_CHECK(a && a->get() == 6, "make", "in_place"); }
    if (k == 3) { nanostl::optional<int> i(7); O a(i); MC_CHECK(a && a->get() == 7 && i && *i == 7, "make", "converting copy"); }
    if (k == 4) { nanostl::optional<int> i; O a(i); MC_CHECK(!a, "make", "converting copy of an empty optional"); }
    if (k == 5) { O a(8); trk::Tracked t = *nanostl::move(a); MC_CHECK(t.get() == 8 && a && a->get() == -1, "make", "moving the value out"); }
    if (k == 6) { O a(8); trk::Tracked t = nanostl::move(a).value(); MC_CHECK(t.get() == 8 && a && a->get() == -1, "make", "moving value() out"); }
    if (k == 7) { O a; trk::Tracked t = nanostl::move(a).value_or(3); MC_CHECK(t.get() == 3 && !a, "make", "value_or on an rvalue"); O b(4); trk::Tracked u = nanostl::move(b).value_or(3); MC_CHECK(u.get() == 4, "make", "value_or on an engaged rvalue"); }
    c.step();
    c.state(k);
  }
  trk::check_end();
}
struct alignas(32) Big { char c[96]; Big(int x) { for (int i = 0; i < 96; i++) c[i] = (char)(x + i); } };
static void storage(mc::Chooser &c) {
  int k = c.choose(3);
  struct Cell { char a; nanostl::optional<Big> b; char z; } *p = new Cell();
  p->a = 1; p->z = 2; p->b = Big(k);
  c.step(); c.state(k);
  bool ok = p->a == 1 && p->z == 2 && p->b.has_value();
  for (int i = 0; i < 96; i++) ok = ok && p->b->c[i] == (char)(k + i);
  MC_CHECK(ok, "storage", "a large value overlaps its surroundings");
  delete p;
  nanostl::optional<nanostl::string> s(nanostl::string("abc")), t = s; (*t) += "d"; s.swap(t);
  MC_CHECK(*s == "abcd" && *t == "abc", "storage:string", "optional<string> copies share content");
}
static void setup() {
  std::string b = "every sequence of 4 (thorough 5) operations over two optionals and two values, nothing merged";
  std::string f = "every sequence of 3 (thorough 4) operations with an exception at the first or second element operation of any of them";
  mc::tree("optional/movable", flat<trk::Tracked>, b);
  mc::tree("optional/copy-only", flat<trk::CTracked>, b);
  mc::tree("optional/int", flat<int>, b);
  mc::tree("optional/faults", flt<NTracked>, f);
  mc::tree("optional/construction", make, "every construction and rvalue access form");
  mc::tree("optional/storage", storage, "over-aligned and heap-owning values");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
