// unique_ptr: every operation sequence up to a depth over three owners, in
// lockstep with an ownership model; each release of an object is an event
// (deleter, object) that must occur exactly when and as the model says.
#include <string>
#include <utility>
#include <vector>
#include <algorithm>
#include "mc.hpp"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanoutility.h"
#include "nanomemory.h"

static std::vector<int> g_log;  // deleter tag * 1000 + object id, in order
static long g_alive;
static bool g_dead[1000];
static int g_next;
struct Base {
  int id;
  Base() { id = ++g_next; g_alive++; }
  virtual ~Base() { if (g_dead[id]) mc::fail("double-destroy", "object %d destroyed twice", id); g_dead[id] = true; g_alive--; if (plain) g_log.push_back(id); }
  static bool plain;
};
bool Base::plain;
struct Derived : Base { int pad[2]; };
struct Del {
  int tag;
  Del(int t = 0) : tag(t) {}
  void operator()(Base *p) const { if (!p) mc::fail("null-delete", "the deleter is called with a null pointer"); g_log.push_back(tag * 1000 + p->id); delete p; }
};
struct DelD {  // deleter of a derived owner, convertible to Del
  int tag;
  DelD(int t = 0) : tag(t) {}
  operator Del() const { return Del(tag); }
  void operator()(Derived *p) const { g_log.push_back(tag * 1000 + p->id); delete p; }
};
struct Elem { int id; Elem() { id = 0; g_alive++; } ~Elem() { g_alive--; } };
struct DelA { int tag; DelA(int t = 0) : tag(t) {} void operator()(Elem *p) const { g_log.push_back(tag * 1000 + p[0].id); delete[] p; } };
static int g_fn_calls;
static void fn1(Base *p) { g_log.push_back(1000 + p->id); delete p; }
static void fn2(Base *p) { g_log.push_back(2000 + p->id); delete p; }

struct MS { int obj, tag; };  // model slot: 0 = empty
static void begin() { g_log.clear(); g_alive = 0; g_next = 0; memset(g_dead, 0, sizeof g_dead); Base::plain = false; }
static void expect_log(const std::vector<int> &want, const char *op) {
  std::string a, b;
  for (size_t i = 0; i < want.size(); i++) a += std::to_string(want[i]) + " ";
  for (size_t i = 0; i < g_log.size(); i++) b += std::to_string(g_log[i]) + " ";
  if (g_log != want) mc::fail(std::string("destroyed:") + op, "after %s the destruction events (deleter*1000+object) are [%s], expected [%s]", op, b.c_str(), a.c_str());
  g_log.clear();
}

// ---- kinds: how to make an owner / object / deleter
struct KStateful {
  typedef nanostl::unique_ptr<Base, Del> P;
  typedef Base *Raw;
  static const bool tags = true, conv = true;
  static Raw make() { return new Base; }
  static Raw maked() { return new Derived; }
  static int id(Raw r) { return r->id; }
  static P *fresh(Raw r, int t) { return new P(r, Del(t)); }
  static P *freshl(Raw r, int t) { Del d(t); return new P(r, d); }
  static int tag(P &p) { return p.get_deleter().tag; }
  static int tagc(const P &p) { return p.get_deleter().tag; }
  static int ev(int t, int o) { return t * 1000 + o; }
  static void kill(Raw r) { delete r; }
};
struct KDefault {
  typedef nanostl::unique_ptr<Base> P;
  typedef Base *Raw;
  static const bool tags = false, conv = true;
  static Raw make() { return new Base; }
  static Raw maked() { return new Derived; }
  static int id(Raw r) { return r->id; }
  static P *fresh(Raw r, int) { return new P(r); }
  static P *freshl(Raw r, int) { return new P(r); }
  static int tag(P &) { return 0; }
  static int tagc(const P &) { return 0; }
  static int ev(int, int o) { return o; }
  static void kill(Raw r) { delete r; }
};
struct KFn {
  typedef nanostl::unique_ptr<Base, void (*)(Base *)> P;
  typedef Base *Raw;
  static const bool tags = true, conv = false;
  static Raw make() { return new Base; }
  static Raw maked() { return new Derived; }
  static int id(Raw r) { return r->id; }
  static P *fresh(Raw r, int t) { return t == 1 ? new P(r, fn1) : new P(r, fn2); }
  static P *freshl(Raw r, int t) { void (*f)(Base *) = t == 1 ? fn1 : fn2; return new P(r, f); }
  static int tag(P &p) { return p.get_deleter() == fn1 ? 1 : 2; }
  static int tagc(const P &p) { return p.get_deleter() == fn1 ? 1 : 2; }
  static int ev(int t, int o) { return t * 1000 + o; }
  static void kill(Raw r) { delete r; }
};
struct KArray {
  typedef nanostl::unique_ptr<Elem[], DelA> P;
  typedef Elem *Raw;
  static const bool tags = true, conv = false;
  static Raw make() { Elem *e = new Elem[3]; int i = ++g_next; for (int k = 0; k < 3; k++) e[k].id = i + 0 * k; return e; }
  static Raw maked() { return make(); }
  static int id(Raw r) { return r->id; }
  static P *fresh(Raw r, int t) { return new P(r, DelA(t)); }
  static P *freshl(Raw r, int t) { DelA d(t); return new P(r, d); }
  static int tag(P &p) { return p.get_deleter().tag; }
  static int tagc(const P &p) { return p.get_deleter().tag; }
  static int ev(int t, int o) { return t * 1000 + o; }
  static void kill(Raw r) { delete[] r; }
};
template <class P> static void deref_check(const P &, Base *, long) {}
static void index_check(const KArray::P &p) { for (int k = 0; k < 3; k++) MC_CHECK(&p[k] == p.get() + k, "index", "[%d] is not the %d-th element", k, k); }
template <class P> static void access(const P &p, Base *) { MC_CHECK(&*p == p.get() && p.operator->() == p.get(), "access", "* or -> do not designate the owned object"); }
static void access(const KArray::P &p, Elem *) { index_check(p); }

template <class K> static void convert_in(typename K::P &p, MS &m, std::vector<int> &want, mc::Chooser &c, int t) {}
struct Conv {
  static void run(KStateful::P &p, MS &m, std::vector<int> &want, bool assign, int t, KStateful::P **slot) {
    Derived *d = new Derived; int id = d->id;
    nanostl::unique_ptr<Derived, DelD> u(d, DelD(t));
    if (assign) { if (m.obj) want.push_back(KStateful::ev(m.tag, m.obj)); p = nanostl::move(u); }
    else { if (m.obj) want.push_back(KStateful::ev(m.tag, m.obj)); KStateful::P *q = new KStateful::P(nanostl::move(u)); delete *slot; *slot = q; }
    MC_CHECK(u.get() == 0, "convert:source", "the source of a converting move still owns the object");
    m.obj = id; m.tag = t;
  }
  static void run(KDefault::P &p, MS &m, std::vector<int> &want, bool assign, int t, KDefault::P **slot) {
    Derived *d = new Derived; int id = d->id;
    nanostl::unique_ptr<Derived> u(d);
    if (m.obj) want.push_back(m.obj);
    if (assign) p = nanostl::move(u);
    else { KDefault::P *q = new KDefault::P(nanostl::move(u)); delete *slot; *slot = q; }
    MC_CHECK(u.get() == 0, "convert:source", "the source of a converting move still owns the object");
    m.obj = id;
  }
  template <class P> static void run(P &, MS &, std::vector<int> &, bool, int, P **) {}
};

template <class K, int NS> static void body(mc::Chooser &c, int depth, bool prune) {
  typedef typename K::P P;
  typedef typename K::Raw Raw;
  begin();
  Base::plain = std::is_same<K, KDefault>::value;
  MS m[NS];
  struct Own { P *s[NS]; Raw held; Own() : held(0) { for (int i = 0; i < NS; i++) s[i] = 0; } ~Own() { for (int i = 0; i < NS; i++) delete s[i]; if (held) K::kill(held); } } own;
  P **s = own.s; Raw &held = own.held;
  std::vector<int> want;
  for (int i = 0; i < NS; i++) { Raw r = i < 2 ? K::make() : (Raw)0; int t = 1 + i % 2; s[i] = K::fresh(r, t); m[i].obj = r ? K::id(r) : 0; m[i].tag = t; }
  for (int d = 0; d < depth; d++) {
    int i = c.choose(NS), op = c.choose(9);
    P &p = *s[i];
    const char *name = "?";
    want.clear();
    switch (op) {
      case 0: { Raw r = K::make(); name = "reset(p)"; c.log("owner%d.reset(new object %d)", i, K::id(r)); if (m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj)); p.reset(r); m[i].obj = K::id(r); break; }
      case 1: name = "reset()"; c.log("owner%d.reset()", i); if (m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj)); p.reset(); m[i].obj = 0; break;
      case 2: name = "= null"; c.log("owner%d = null", i); if (m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj)); p = nullptr; m[i].obj = 0; break;
      case 3: {
        int j = c.choose(NS);
        name = i == j ? "self move" : "move assign"; c.log("owner%d = move(owner%d)", i, j);
        if (i != j && m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj));
        p = nanostl::move(*s[j]);
        if (i != j) { m[i] = m[j]; m[j].obj = 0; }
        break;
      }
      case 4: {
        int j = c.choose(NS);
        name = "swap"; c.log("swap(owner%d, owner%d)", i, j);
        if (d & 1) p.swap(*s[j]); else nanostl::swap(p, *s[j]);
        std::swap(m[i], m[j]);
        break;
      }
      case 5: {
        if (held) throw mc::Prune();
        name = "release"; c.log("owner%d.release()", i);
        held = p.release();
        MC_CHECK((held ? K::id(held) : 0) == m[i].obj, "release:value", "release() returned the wrong object");
        m[i].obj = 0;
        break;
      }
      case 6: {  // give the released object to this owner
        if (!held) throw mc::Prune();
        name = "reset(released)"; c.log("owner%d.reset(the released object)", i);
        if (m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj));
        p.reset(held); m[i].obj = K::id(held); held = 0;
        break;
      }
      case 7: {  // move-construct a new owner from this one, destroying the old owner
        name = "move construct"; c.log("owner%d replaced by one move-constructed from it", i);
        P *q = new P(nanostl::move(p));
        MC_CHECK(p.get() == 0 && !p, "move:source", "the source of a move still owns the object");
        delete s[i]; s[i] = q;
        break;
      }
      case 8: {
        if (K::conv) {
          int as = c.choose(2), t = 1 + c.choose(2);
          name = as ? "converting assign" : "converting construct"; c.log("owner%d <- owner of a derived object (%s, deleter %d)", i, name, t);
          Conv::run(p, m[i], want, as, t, &s[i]);
        } else {
          int t = 1 + c.choose(2);
          name = "destroy and construct"; c.log("owner%d destroyed, new owner with deleter %d", i, t);
          if (m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj));
          delete s[i]; Raw r = K::maked(); s[i] = K::freshl(r, t); m[i].obj = K::id(r); m[i].tag = t;
        }
      }
    }
    c.step();
    if (K::conv || !std::is_same<K, KArray>::value) expect_log(want, name);
    else expect_log(want, name);
    uint64_t h = held ? 3 : 5;
    int nm[1000]; memset(nm, 0, sizeof nm); int k = 0;
    for (int q = 0; q < NS; q++) {
      P &x = *s[q]; const P &cx = x;
      MC_CHECK((x.get() ? K::id(x.get()) : 0) == m[q].obj, std::string("owner:") + name, "after %s owner%d holds object %d, expected %d", name, q, x.get() ? K::id(x.get()) : 0, m[q].obj);
      MC_CHECK((bool)cx == (m[q].obj != 0) && (cx == nullptr) == !m[q].obj && (nullptr != cx) == (m[q].obj != 0) && (nullptr == cx) == !m[q].obj && (cx != nullptr) == (m[q].obj != 0), "bool", "truth value of owner%d is wrong", q);
      MC_CHECK(K::tag(x) == (K::tags ? m[q].tag : 0) && K::tagc(cx) == K::tag(x), std::string("deleter:") + name, "after %s owner%d has deleter %d, expected %d", name, q, K::tag(x), m[q].tag);
      if (m[q].obj) { access(cx, x.get()); if (!nm[m[q].obj]) nm[m[q].obj] = ++k; }
      for (int r = 0; r < NS; r++) {
        P &y = *s[r];
        MC_CHECK((x == y) == (x.get() == y.get()) && (x != y) == (x.get() != y.get()) && (x < y) == (x.get() < y.get()) && (x > y) == (x.get() > y.get()) && (x <= y) == (x.get() <= y.get()) && (x >= y) == (x.get() >= y.get()), "compare", "comparison of owners differs from comparison of the pointers");
      }
      h = mc::mix(h, (m[q].obj ? 16 : 0) + m[q].tag);
    }
    if (prune) c.state_or_prune(h, depth - d - 1); else c.state(h);
  }
  std::vector<int> rest; want.clear();
  for (int i = 0; i < NS; i++) { if (m[i].obj) want.push_back(K::ev(m[i].tag, m[i].obj)); delete s[i]; s[i] = 0; }
  expect_log(want, "destruction");
  c.outcome(mc::mix(want.size(), held != 0));
  if (held) { Base::plain = false; K::kill(held); held = 0; }
  MC_CHECK(g_alive == 0, "leak", "%ld object(s) never destroyed", g_alive);
}

// reference deleters: the deleter lives outside the owner
static void refdel(mc::Chooser &c) {
  begin();
  Del a(1), b(2);
  {
    nanostl::unique_ptr<Base, Del &> x(new Base, a), y(new Base, b);
    int ox = 1, oy = 2;
    for (int d = 0; d < 4; d++) {
      std::vector<int> want;
      switch (c.choose(5)) {
        case 0: c.log("x.reset(new)"); if (ox) want.push_back(a.tag * 1000 + ox); x.reset(new Base); ox = g_next; break;
        case 1: c.log("x = move(y)"); if (ox) want.push_back(a.tag * 1000 + ox); x = nanostl::move(y); ox = oy; oy = 0; MC_CHECK(a.tag == b.tag, "deleter-ref", "move assignment did not assign the deleter"); break;
        case 2: c.log("y.reset()"); if (oy) want.push_back(b.tag * 1000 + oy); y.reset(); oy = 0; break;
        case 3: c.log("y.get_deleter().tag = 7"); y.get_deleter().tag = 7; MC_CHECK(b.tag == 7, "deleter-ref", "get_deleter() is not the referenced deleter"); break;
        case 4: { c.log("z(move(x)); x.reset(z.release())"); nanostl::unique_ptr<Base, Del &> z(nanostl::move(x)); MC_CHECK(!x && &z.get_deleter() == &a, "deleter-ref", "moved owner does not refer to the same deleter"); x.reset(z.release()); break; }
      }
      c.step();
      expect_log(want, "reference deleter op");
      MC_CHECK((x ? x->id : 0) == ox && (y ? y->id : 0) == oy, "owner:ref", "owners hold %d,%d expected %d,%d", x ? x->id : 0, y ? y->id : 0, ox, oy);
      c.state(mc::mix(mc::mix(a.tag, b.tag), (ox != 0) * 2 + (oy != 0)));
    }
    g_log.clear();
  }
  MC_CHECK(g_alive == 0, "leak", "%ld object(s) never destroyed", g_alive);
}

// chains: an object owning the next one; unlinking moves ownership out of a member of the object being destroyed
struct Node { int id; nanostl::unique_ptr<Node> next; Node(int i) : id(i) { g_alive++; } ~Node() { g_alive--; g_log.push_back(id); } };
static void chain(mc::Chooser &c) {
  begin();
  {
    nanostl::unique_ptr<Node> head;
    std::vector<int> m; int n = 0;
    for (int d = 0; d < 6; d++) {
      std::vector<int> want;
      int op = c.choose(6);
      if (op == 0) { c.log("push front"); nanostl::unique_ptr<Node> t(new Node(++n)); t->next = nanostl::move(head); head = nanostl::move(t); m.insert(m.begin(), n); }
      else if (op == 1) { if (m.empty()) throw mc::Prune(); c.log("pop front: head = move(head->next)"); want.push_back(m[0]); head = nanostl::move(head->next); m.erase(m.begin()); }
      else if (op == 2) { if (m.size() < 2) throw mc::Prune(); c.log("drop second: head->next = move(head->next->next)"); want.push_back(m[1]); head->next = nanostl::move(head->next->next); m.erase(m.begin() + 1); }
      else if (op == 3) { if (m.size() < 2) throw mc::Prune(); c.log("head.swap(head->next) then reattach"); nanostl::unique_ptr<Node> t = nanostl::move(head); head.swap(t->next); t->next = nanostl::move(head->next); head->next = nanostl::move(t); std::swap(m[0], m[1]); }
      else if (op == 4) { if (m.size() < 2) throw mc::Prune(); c.log("head->next.reset()"); for (size_t i = 1; i < m.size(); i++) want.push_back(m[i]); head->next.reset(); m.resize(1); }
      else { if (m.empty()) throw mc::Prune(); c.log("head.reset(head->next.release())"); want.push_back(m[0]); head.reset(head->next.release()); m.erase(m.begin()); }
      c.step();
      expect_log(want, "chain op");
      Node *p = head.get();
      for (size_t i = 0; i < m.size(); i++) { MC_CHECK(p && p->id == m[i], "chain", "node %zu of the chain is %d, expected %d", i, p ? p->id : -1, m[i]); p = p->next.get(); }
      MC_CHECK(!p, "chain", "chain too long");
      c.state(mc::hash_bytes(m.data(), m.size() * 4));
    }
  }
  MC_CHECK(g_alive == 0, "leak", "%ld node(s) never destroyed", g_alive);
}
// an owner inspected while its old object is being destroyed already shows the new value
struct Peek { nanostl::unique_ptr<Peek> *owner; Peek **seen; Peek(nanostl::unique_ptr<Peek> *o, Peek **s) : owner(o), seen(s) {} ~Peek() { if (seen) *seen = owner->get(); } };
static void reentrant(mc::Chooser &c) {
  Peek *seen = (Peek *)8;
  nanostl::unique_ptr<Peek> p(new Peek(&p, &seen));
  int k = c.choose(4);
  Peek *n = 0;
  c.log("variant %d", k);
  if (k == 0) { n = new Peek(&p, 0); p.reset(n); }
  else if (k == 1) p.reset();
  else if (k == 2) p = nullptr;
  else { n = new Peek(&p, 0); nanostl::unique_ptr<Peek> q(n); p = nanostl::move(q); }
  c.step();
  MC_CHECK(seen == n, "reentrant", "during destruction of the old object the owner holds %p, expected %p", (void *)seen, (void *)n);
  c.state(k);
}
template <class K, int NS> static void deep(mc::Chooser &c) { body<K, NS>(c, mc::thorough() ? 10 : 8, true); }
template <class K> static void flat(mc::Chooser &c) { body<K, 2>(c, mc::thorough() ? 5 : 4, false); }
template <class K> static void reg(const char *n) {
  std::string s = std::string("unique_ptr/") + n;
  mc::tree((s + "-deep").c_str(), deep<K, 3>, "every sequence of 8 (thorough 10) operations over three owners, equal states merged");
  mc::tree(s.c_str(), flat<K>, "every sequence of 4 (thorough 5) operations over two owners, nothing merged");
}
// indexing an owned array: pairs of positions, three element sizes
static int g_arrays;
template <class T> struct Rel { void operator()(T *p) const { g_arrays--; delete[] p; } };
template <class T> static void far1(uint64_t i, uint64_t j) {
  const uint64_t N = 70000;
  T *raw = new T[N]; g_arrays++;
  for (uint64_t k = 0; k < N; k++) raw[k] = T(k * 7 + 1);
  {
    nanostl::unique_ptr<T[], Rel<T> > p(raw); const nanostl::unique_ptr<T[], Rel<T> > &cp = p;
    MC_CHECK(&p[i] == raw + i && &cp[j] == raw + j && p[i] == T(i * 7 + 1) && cp[j] == T(j * 7 + 1), "array:index", "element %d or %d of an owned array is wrong", (int)i, (int)j);
    p[i] = T(3); MC_CHECK(raw[i] == T(3) && p.get() == raw, "array:write", "writing element %d of an owned array", (int)i);
    nanostl::unique_ptr<T[], Rel<T> > q(nanostl::move(p)); MC_CHECK(&q[j] == raw + j && p.get() == 0, "array:move", "element %d after a move", (int)j);
  }
  MC_CHECK(g_arrays == 0, "array:released", "the array was released %d times", 1 - g_arrays);
}
static void far(uint64_t x) {
  static const uint64_t P[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 69999};
  uint64_t i = P[x / 12 % 12], j = P[x % 12];
  g_arrays = 0; mc::say("elements %d and %d of 70000", (int)i, (int)j);
  switch (x / 144) { case 0: far1<unsigned char>(i, j); break; case 1: far1<int>(i, j); break; default: far1<double>(i, j); }
  mc::nontrivial();
}
static void setup() {
  mc::range("unique_ptr/array-index", far, 0, 144 * 3, "pairs of twelve positions of 70000 elements, three element sizes");
  reg<KStateful>("stateful-deleter");
  reg<KDefault>("default-deleter");
  reg<KFn>("function-deleter");
  reg<KArray>("array");
  mc::tree("unique_ptr/reference-deleter", refdel, "every sequence of 4 operations with deleters held by reference");
  mc::tree("unique_ptr/chain", chain, "every sequence of 6 operations on a chain of owners");
  mc::tree("unique_ptr/reentrant", reentrant, "every way of replacing an object whose destructor inspects its owner");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
