// any: every operation sequence to a depth over two holders, in lockstep with (type held, value).
#include <cassert>
#include <new>
#include <string.h>
#include <string>
#include <typeinfo>
#include <utility>
#include "mc.hpp"
#include "tracked.hpp"
// nanoany.h names nanostl::type_info without defining it; a user of it has to supply the name.
namespace nanostl { using std::type_info; using std::bad_cast; }
#include "nanoutility.h"
#include "nanoany.h"
typedef nanostl::any Any;
using nonstd::any_cast;
namespace nx = nonstd;
typedef trk::Tracked Val; typedef trk::CTracked CVal;
struct Big { char c[200]; int get() const { for (int i = 1; i < 200; i++) if (c[i] != (char)(c[0] + i)) return -99; return c[0]; } Big(int x = 0) { for (int i = 0; i < 200; i++) c[i] = (char)(x + i); } };
struct Two { int a, b; Two(int x, int y) : a(x), b(y) {} Two(int x = 0) : a(x), b(x + 1) {} };
static const char *const kText[4] = {"zero", "one", "two", "three"};
enum { NONE, INT, VAL, CVAL, BIG, TWO, TEXT, UCH, KINDS };
struct M { int k, v; };
static int got(int x) { return x; }
static int got(unsigned char x) { return x; }
static int got(const Val &x) { return x.get(); }
static int got(const CVal &x) { return x.get(); }
static int got(const Big &x) { return x.get(); }
static int got(const Two &x) { return x.b == x.a + 1 ? x.a : -99; }
static int got(const char *x) { for (int i = 0; i < 4; i++) if (!strcmp(x, kText[i])) return i; return -99; }
template <class T> struct mk { static T make(int v) { return T(v); } };
template <> struct mk<const char *> { static const char *make(int v) { return kText[v]; } };

template <class T> static void cast(Any &a, const M &m, int kind, const std::string &op, int who) {
  const Any &ca = a;
  T *p = any_cast<T>(&a); const T *q = any_cast<T>(&ca); const T *r = any_cast<const T>(&ca);
  MC_CHECK((p != 0) == (m.k == kind) && p == q && q == r, "cast:" + op, "after %s casting holder %d (kind %d) to kind %d %s", op.c_str(), who, m.k, kind, p ? "succeeds" : q || r ? "is inconsistent" : "fails");
  MC_CHECK((a.type() == typeid(T)) == (m.k == kind), "type:" + op, "after %s type() of holder %d is wrong (kind %d, compared with %d)", op.c_str(), who, m.k, kind);
#ifdef NANOSTL_ENABLE_EXCEPTION
  int thrown = 0, want = p ? 0 : 3;
  try { T t(any_cast<T>(a)); (void)t; } catch (const nonstd::bad_any_cast &e) { thrown++; MC_CHECK(e.what() && *e.what(), "what:" + op, "the exception has no text"); }
  try { T t(any_cast<T>(ca)); (void)t; } catch (const nonstd::bad_any_cast &) { thrown++; }
  if (!p) try { T t(any_cast<T>(nanostl::move(a))); (void)t; } catch (const nonstd::bad_any_cast &) { thrown++; }
  MC_CHECK(thrown == want, "throw:" + op, "after %s %d of %d casts of holder %d (kind %d) to kind %d throw", op.c_str(), thrown, want, who, m.k, kind);
#endif
  if (!p) return;
  MC_CHECK(got(*p) == m.v, "value:" + op, "after %s holder %d holds %d, expected %d", op.c_str(), who, got(*p), m.v);
  T copy(any_cast<T>(a)), copy2(any_cast<T>(ca)), copy3(any_cast<const T>(a));
  MC_CHECK(got(copy) == m.v && got(copy2) == m.v && got(copy3) == m.v && got(*p) == m.v, "copy:" + op, "any_cast to a value gives %d/%d, expected %d", got(copy), got(copy2), m.v);
}
static void same(Any &a, const M &m, const std::string &op, int who) {
  MC_CHECK(a.has_value() == (m.k != NONE), "engaged:" + op, "after %s holder %d is %s", op.c_str(), who, a.has_value() ? "not empty" : "empty");
  MC_CHECK((a.type() == typeid(void)) == (m.k == NONE), "type:" + op, "after %s type() of holder %d %s void", op.c_str(), who, m.k == NONE ? "is not" : "is");
  cast<int>(a, m, INT, op, who); cast<Val>(a, m, VAL, op, who); cast<CVal>(a, m, CVAL, op, who); cast<Big>(a, m, BIG, op, who);
  cast<Two>(a, m, TWO, op, who); cast<const char *>(a, m, TEXT, op, who); cast<unsigned char>(a, m, UCH, op, who);
  MC_CHECK(!any_cast<char>(&a) && !any_cast<unsigned>(&a) && !any_cast<long>(&a) && !any_cast<char *>(&a) && !any_cast<Any>(&a), "cast:other", "a cast to a type never stored succeeds");
}
template <class T> static void put(Any *&o, int form, int v, std::string &name) {
  T src(mk<T>::make(v));
  switch (form) {
    case 0: { name = "= const value"; const T &cs = src; *o = cs; MC_CHECK(got(src) == v, "source", "storing a const value changed it"); break; }
    case 1: { name = "= value"; *o = src; MC_CHECK(got(src) == v, "source", "storing a variable changed it"); break; }
    case 2: { name = "= moved value"; *o = nanostl::move(src); break; }
    case 3: { name = "constructed from value"; const T &cs = src; Any *n = new Any(cs); delete o; o = n; break; }
    case 4: { name = "constructed from moved value"; Any *n = new Any(nanostl::move(src)); delete o; o = n; break; }
    case 5: { name = "in-place"; Any *n = new Any(nx::in_place_type<T>, mk<T>::make(v)); delete o; o = n; break; }
    case 6: { name = "emplace"; o->template emplace<T>(mk<T>::make(v)); break; }
    case 7: { name = "make_any"; *o = nx::make_any<T>(mk<T>::make(v)); break; }
  }
}
static void put(Any *&o, int kind, int form, int v, std::string &n) {
  switch (kind) {
    case INT: put<int>(o, form, v, n); break; case VAL: put<Val>(o, form, v, n); break; case CVAL: put<CVal>(o, form, v, n); break; case BIG: put<Big>(o, form, v, n); break;
    case TWO: put<Two>(o, form, v, n); break; case TEXT: put<const char *>(o, form, v, n); break; case UCH: put<unsigned char>(o, form, v, n); break;
  }
}
// kinds: how many kinds of value are stored; all = every form of storing them
static void body(mc::Chooser &c, int depth, int kinds, bool all, bool merge) {
  trk::reset();
  {
    struct Own { Any *o[2]; Own() { o[0] = o[1] = 0; } ~Own() { delete o[0]; delete o[1]; } } w;
    Any **o = w.o; o[0] = new Any; o[1] = new Any(Val(1));
    M m[2] = {{NONE, 0}, {VAL, 1}};
    for (int d = 0; d < depth; d++) {
      int i = c.choose(2), j = 1 - i, op = 2 + c.choose(10), v = 2, k = 0;
      std::string name; Any *made = 0;
      switch (op) {
        case 2: { int f = c.choose(all ? 8 : 3); k = 1 + c.choose(kinds); v = 1 + c.choose(2); put(w.o[i], k, f, v, name); m[i] = M{k, v}; break; }
        case 3: name = "reset"; o[i]->reset(); m[i] = M{NONE, 0}; break;
        case 4: name = "copy assign"; *o[i] = *(const Any *)o[j]; m[i] = m[j]; break;
        case 5: name = "copy assign from variable"; *o[i] = *o[j]; m[i] = m[j]; break;
        case 6: name = "move assign"; *o[i] = nanostl::move(*o[j]); m[i] = m[j]; m[j] = M{NONE, 0}; break;
        case 7: name = "self assign"; *o[i] = *(const Any *)o[i]; break;
        case 8: name = "swap"; if (d & 1) swap(*o[i], *o[j]); else o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
        case 9: name = "copy construct"; if (c.choose(2)) made = new Any(*o[j]); else made = new Any(*(const Any *)o[j]); m[i] = m[j]; break;
        case 10: name = "move construct"; made = new Any(nanostl::move(*o[j])); m[i] = m[j]; m[j] = M{NONE, 0}; break;
        case 11: name = "write through cast";
          if (int *p = any_cast<int>(o[i])) { *p = 3; m[i].v = 3; }
          if (Val *p = any_cast<Val>(o[i])) { *p = Val(3); m[i].v = 3; }
          if (Big *p = any_cast<Big>(o[i])) { *p = Big(3); m[i].v = 3; }
          break;
      }
      c.log("o%d: %s (kind %d value %d)", i, name.c_str(), k, v);
      c.step();
      if (made) { delete o[i]; o[i] = made; }
      for (int q = 0; q < 2; q++) same(*o[q], m[q], name, q);
      trk::check(name.c_str());
      uint64_t h = mc::mix(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v), 7);
      if (merge) c.state_or_prune(h, depth - d - 1); else c.state(h);
    }
    c.outcome(mc::mix(m[0].k * 8 + m[0].v, m[1].k * 8 + m[1].v));
  }
  trk::check_end();
}
static void seq(mc::Chooser &c) { body(c, mc::thorough() ? 5 : 4, 2, false, false); }
static void forms(mc::Chooser &c) { body(c, mc::thorough() ? 3 : 2, KINDS - 1, true, false); }
static void throwing(mc::Chooser &c) { body(c, mc::thorough() ? 6 : 4, KINDS - 1, true, true); }
static void states(mc::Chooser &c) { body(c, mc::thorough() ? 12 : 8, KINDS - 1, true, true); }
static void special(mc::Chooser &c) {
  trk::reset();
  {
    int k = c.choose(8);
    c.log("form %d", k);
    if (k == 0) { Any a; MC_CHECK(!any_cast<int>((Any *)0) && !any_cast<int>((const Any *)0) && !a.has_value(), "null", "casting a null pointer"); }
    if (k == 1) { Any a(nx::in_place_type<Two>, 3, 9); Two *p = any_cast<Two>(&a); MC_CHECK(p && p->a == 3 && p->b == 9, "in_place", "in-place with two arguments"); a.emplace<Two>(5, 6); p = any_cast<Two>(&a); MC_CHECK(p && p->a == 5 && p->b == 6, "emplace", "emplace with two arguments"); Any b = nx::make_any<Two>(7, 8); p = any_cast<Two>(&b); MC_CHECK(p && p->a == 7 && p->b == 8, "make_any", "make_any with two arguments"); }
    if (k == 2) { Any a("two"); const char **p = any_cast<const char *>(&a); MC_CHECK(p && !strcmp(*p, "two"), "decay", "a text literal is not stored as pointer"); int arr[3] = {1, 2, 3}; a = arr; int **q = any_cast<int *>(&a); MC_CHECK(q && *q == arr, "decay", "an array is not stored as pointer"); }
    if (k == 3) { const int x = 5; Any a(x); MC_CHECK(a.type() == typeid(int) && any_cast<int>(a) == 5, "const", "a const value is stored with another type"); int &r = *any_cast<int>(&a); r = 6; Any b(a); r = 7; MC_CHECK(any_cast<int>(b) == 6 && any_cast<int>(a) == 7, "copy", "copies share content"); }
    if (k == 4) { Any a(Val(4)); Val t(any_cast<Val>(nanostl::move(a))); MC_CHECK(t.get() == 4, "rvalue cast", "rvalue cast gives %d", t.get()); }
    if (k == 5) { Any a(Val(4)), b(nanostl::move(a)); MC_CHECK(!a.has_value() && any_cast<Val>(&b), "moved-from", "a moved-from holder is not empty"); a = b; a = nanostl::move(a); MC_CHECK(a.has_value() && any_cast<Val>(&a)->get() == 4, "self move", "self move loses the value"); swap(a, a); a.swap(a); MC_CHECK(any_cast<Val>(&a)->get() == 4, "self swap", "self swap loses the value"); }
    if (k == 6) { struct In { Any x; In(const Any &y) : x(y) {} int get() { return any_cast<Val>(&x)->get(); } }; Any inner(Val(6)); Any outer{In(inner)}; inner.reset(); Any o2(outer); outer = 3; In *p = any_cast<In>(&o2); MC_CHECK(p && p->get() == 6, "nested", "a nested holder loses its value"); }
    if (k == 7) { Any a(Val(4)); Val *p = any_cast<Val>(&a); a = Any(*p); MC_CHECK(any_cast<Val>(&a)->get() == 4, "alias", "storing a copy of the held value"); a = *any_cast<Val>(&a); MC_CHECK(any_cast<Val>(&a)->get() == 4, "alias", "assigning the held value to its holder"); a.emplace<Val>(*any_cast<Val>(&a)); MC_CHECK(any_cast<Val>(&a)->get() == 4, "alias", "emplacing the held value"); }
    c.step(); c.state(k);
    trk::check("form");
  }
  trk::check_end();
}
// copying the stored value, or building it in place, throws: both holders stay as they were
static void faults(mc::Chooser &c) {
  trk::reset();
  {
    Any *o[2] = {new Any, new Any}; M m[2]; std::string n;
    struct Own { Any **o; ~Own() { delete o[0]; delete o[1]; } } w = {o};
    int k0 = c.choose(KINDS), k1 = c.choose(2) ? VAL : CVAL, op = c.choose(5);
    m[0] = M{k0, k0 ? 2 : 0}; m[1] = M{k1, 1};
    if (k0) put(o[0], k0, 6, 2, n);
    put(o[1], k1, 6, 1, n);
    c.log("holder 0 has kind %d, holder 1 kind %d, operation %d throws", k0, k1, op);
    bool thrown = false;
    trk::g_countdown = 0;
    try {
      if (op == 0) *o[0] = *(const Any *)o[1];
      if (op == 1) { Any t(*(const Any *)o[1]); }
      if (op == 2) { if (k1 == VAL) o[0]->emplace<Val>(3); else o[0]->emplace<CVal>(3); }
      if (op == 3) { if (k1 == VAL) { Any t(nx::in_place_type<Val>, 3); } else { Any t(nx::in_place_type<CVal>, 3); } }
      if (op == 4) *o[1] = *(const Any *)o[1];
    } catch (trk::Thrown &) { thrown = true; }
    trk::g_countdown = -1;
    c.step();
    MC_CHECK(thrown || op == 4, "fault:lost", "the exception does not reach the caller");
    for (int q = 0; q < 2; q++) same(*o[q], m[q], "exception", q);
    trk::check("exception");
    *o[0] = *o[1]; m[0] = m[1];
    for (int q = 0; q < 2; q++) same(*o[q], m[q], "copy after an exception", q);
    c.state(mc::mix(k0 * 8 + k1, op));
  }
  trk::check_end();
}
static void setup() {
  mc::tree("any/faults", faults, "every pair of stored kinds, an exception from copying or building the value");
#ifdef NANOSTL_ENABLE_EXCEPTION
  mc::tree("any/exceptions", throwing, "every sequence of 4 (thorough 6) such operations, merged; after each, every mismatching cast to a value must throw");
  mc::tree("any/special", special, "decay, aliasing, nesting, null pointers, rvalues, with exceptions enabled");
  return;
#endif
  mc::tree("any/sequences", seq, "every sequence of 4 (thorough 5) operations over two holders and two types, nothing merged");
  mc::tree("any/forms", forms, "every sequence of 2 (thorough 3) operations over two holders, seven types and eight forms of storing, nothing merged");
  mc::tree("any/states", states, "every sequence of 8 (thorough 12) such operations, merged on what the holders hold");
  mc::tree("any/special", special, "decay, aliasing, nesting, null pointers, rvalues");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
