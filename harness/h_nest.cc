// Nested containers: the same program is run on the library's containers and on the toolchain's,
// and everything either can see is compared after every operation.
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <cassert>
#include <memory>
#include <new>
#include "mc.hpp"
#include "tracked.hpp"
#include "nanoutility.h"
#include "nanoalgorithm.h"
#include "nanolimits.h"
#include "nanomap.h"
#include "nanomemory.h"
#include "nanooptional.h"
#include "nanovariant.h"
#include "nanosstream.h"
#include "nanostring.h"
#include "nanovector.h"
#include "nanovalarray.h"
using mc::Chooser;

// ---- the two libraries ---------------------------------------------------------
struct Nano {
  typedef nanostl::string string;
  template <class T> using vector = nanostl::vector<T>;
  template <class K, class V> using map = nanostl::map<K, V>;
  template <class A, class B> using pair = nanostl::pair<A, B>;
  template <class T> using uptr = nanostl::unique_ptr<T>;
  template <class T> using opt = nanostl::optional<T>;
  template <class A, class B, class C> using var = nanostl::variant<A, B, C>;
  template <class T, class V> static const T &get(const V &v) { return nanostl::get<T>(v); }
  template <class V> static int index(const V &v) { return (int)v.index(); }
  template <class K, class V> static void insert(map<K, V> &m, const K &k, const V &v) { m.insert(nanostl::pair<const K, V>(k, v)); }
};
// an ideal optional and variant, made of ordinary members
template <class T> struct IOpt {
  bool has; T t;
  IOpt() : has(false), t() {}
  IOpt(const T &x) : has(true), t(x) {}
  bool has_value() const { return has; }
  const T &value() const { return t; }
  T &operator*() { return t; }
  void reset() { has = false; t = T(); }
};
template <class A, class B, class C> struct IVar {
  int i; A a; B b; C c;
  IVar() : i(0), a(), b(), c() {}
  IVar(const A &x) : i(0), a(x), b(), c() {}
  IVar(const B &x) : i(1), a(), b(x), c() {}
  IVar(const C &x) : i(2), a(), b(), c(x) {}
};
template <class T, class V> struct IGet;
template <class A, class B, class C> struct IGet<A, IVar<A, B, C> > { static const A &g(const IVar<A, B, C> &v) { return v.a; } };
template <class A, class B, class C> struct IGet<B, IVar<A, B, C> > { static const B &g(const IVar<A, B, C> &v) { return v.b; } };
template <class A, class B, class C> struct IGet<C, IVar<A, B, C> > { static const C &g(const IVar<A, B, C> &v) { return v.c; } };
struct Std {
  typedef std::string string;
  template <class T> using vector = std::vector<T>;
  template <class K, class V> using map = std::map<K, V>;
  template <class A, class B> using pair = std::pair<A, B>;
  template <class T> using uptr = std::unique_ptr<T>;
  template <class T> using opt = IOpt<T>;
  template <class A, class B, class C> using var = IVar<A, B, C>;
  template <class T, class V> static const T &get(const V &v) { return IGet<T, V>::g(v); }
  template <class V> static int index(const V &v) { return v.i; }
  template <class K, class V> static void insert(map<K, V> &m, const K &k, const V &v) { m.insert(std::pair<const K, V>(k, v)); }
};

// ---- texts of everything -------------------------------------------------------
typedef std::string Out;
static void show(Out &o, int x) { o += std::to_string(x); }
static void show(Out &o, const trk::Tracked &x) { o += std::to_string(x.get()); }
static void show(Out &o, const std::string &s) { o += '"'; o += s; o += '"'; }
static void show(Out &o, const nanostl::string &s) {
  o += '"';
  for (size_t i = 0; i < s.size(); i++) o += s[i];
  o += '"';
  if (s.c_str()[s.size()] != 0) o += "(not terminated)";
}
template <class A, class B, class C> static void show(Out &o, const IVar<A, B, C> &v);
template <class A, class B, class C, class... R> static void show(Out &o, const nonstd::variants::variant<A, B, C, R...> &v);
template <class T> static void show(Out &o, const IOpt<T> &p);
template <class T> static void show(Out &o, const nanostl::optional<T> &p);
template <class T> static void show(Out &o, const std::vector<T> &v);
template <class T> static void show(Out &o, const nanostl::vector<T> &v);
template <class K, class V> static void show(Out &o, const std::map<K, V> &m);
template <class K, class V> static void show(Out &o, const nanostl::map<K, V> &m);
template <class A, class B> static void show(Out &o, const std::pair<A, B> &p) { o += '<'; show(o, p.first); o += ','; show(o, p.second); o += '>'; }
template <class A, class B> static void show(Out &o, const nanostl::pair<A, B> &p) { o += '<'; show(o, p.first); o += ','; show(o, p.second); o += '>'; }
template <class T> static void show(Out &o, const std::unique_ptr<T> &p) { if (p) { o += '*'; show(o, *p); } else o += "null"; }
template <class T> static void show(Out &o, const nanostl::unique_ptr<T> &p) { if (p) { o += '*'; show(o, *p); } else o += "null"; }
template <class T> static void show(Out &o, const IOpt<T> &p) { if (p.has_value()) { o += '?'; show(o, p.value()); } else o += "none"; }
template <class T> static void show(Out &o, const nanostl::optional<T> &p) { if (p.has_value()) { o += '?'; show(o, p.value()); } else o += "none"; }
template <class V> static void showv(Out &o, const V &v) { o += '['; for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; show(o, v[i]); } o += ']'; }
template <class T> static void show(Out &o, const std::vector<T> &v) { showv(o, v); }
template <class T> static void show(Out &o, const nanostl::vector<T> &v) {
  showv(o, v);
  if (v.empty() != (v.size() == 0) || v.capacity() < v.size() || (size_t)(v.end() - v.begin()) != v.size()) o += "(inconsistent size)";
}
template <class K, class V> static void show(Out &o, const std::map<K, V> &m) {
  o += '{';
  for (typename std::map<K, V>::const_iterator i = m.begin(); i != m.end(); ++i) { show(o, i->first); o += ':'; show(o, i->second); o += ' '; }
  o += '}';
}
template <class K, class V> static void show(Out &o, const nanostl::map<K, V> &cm) {
  nanostl::map<K, V> &m = const_cast<nanostl::map<K, V> &>(cm);
  o += '{';
  size_t n = 0;
  for (typename nanostl::map<K, V>::iterator i = m.begin(); i != m.end(); ++i) {
    show(o, i->first); o += ':'; show(o, i->second); o += ' ';
    if (++n > 100) { o += "(endless)"; break; }
  }
  o += '}';
}
template <class A, class B, class C> static void show(Out &o, const IVar<A, B, C> &v) { o += std::to_string(v.i) + ":"; if (v.i == 0) show(o, v.a); else if (v.i == 1) show(o, v.b); else show(o, v.c); }
template <class A, class B, class C, class... R> static void show(Out &o, const nonstd::variants::variant<A, B, C, R...> &v) {
  o += std::to_string((int)v.index()) + ":";
  if (v.index() == 0) show(o, nonstd::get<A>(v)); else if (v.index() == 1) show(o, nonstd::get<B>(v)); else show(o, nonstd::get<C>(v));
}
// hidden state that decides what later operations do
template <class T> static void caps(Out &o, const T &) {}
static void caps(Out &o, const nanostl::string &s) { o += "s" + std::to_string(s.size()); }
template <class T> static void caps(Out &o, const nanostl::vector<T> &v);
template <class T> static void caps(Out &o, const nanostl::vector<T> &v) { o += "c" + std::to_string(v.capacity()); for (size_t i = 0; i < v.size(); i++) caps(o, v[i]); }

// ---- elements -------------------------------------------------------------------
template <class L, class T> struct Mk;
static const char *TXT[4] = {"x", "", "a text that is long enough not to fit anywhere inline, certainly", "yz"};
template <class L> struct Mk<L, int> { static int mk(int i) { return i * 7 + 1; } static void touch(int &x, int i) { x += 10; } };
template <class L> struct Mk<L, trk::Tracked> { static trk::Tracked mk(int i) { return trk::Tracked(i * 7 + 1); } static void touch(trk::Tracked &x, int) { x = trk::Tracked(x.get() + 10); } };
template <class L> struct Mk<L, typename L::string> {
  typedef typename L::string S;
  static S mk(int i) { return S(TXT[i & 3]); }
  static void touch(S &s, int) { if (s.size() < 200) s += "+"; }
};
template <class L, class T> struct MkV {
  typedef typename L::template vector<T> V;
  static V mk(int i) { V v; for (int k = 0; k < (i & 3); k++) v.push_back(Mk<L, T>::mk(k + i)); return v; }
  static void touch(V &v, int i) { if (v.size() > 4) v.erase(v.begin()); else if (v.size() == 2 && i) Mk<L, T>::touch(v[1], i); else v.push_back(Mk<L, T>::mk(i)); }
};
template <class T> struct Mk<Nano, nanostl::vector<T> > : MkV<Nano, T> {};
template <class T> struct Mk<Std, std::vector<T> > : MkV<Std, T> {};
template <class L, class A, class B> struct MkP {
  typedef typename L::template pair<A, B> P;
  static P mk(int i) { return P(Mk<L, A>::mk(i), Mk<L, B>::mk(i + 1)); }
  static void touch(P &p, int i) { Mk<L, A>::touch(p.first, i); Mk<L, B>::touch(p.second, i); }
};
template <class A, class B> struct Mk<Nano, nanostl::pair<A, B> > : MkP<Nano, A, B> {};
template <class A, class B> struct Mk<Std, std::pair<A, B> > : MkP<Std, A, B> {};
template <class L, class K, class V> struct MkM {
  typedef typename L::template map<K, V> M;
  static M mk(int i) { M m; for (int k = 0; k < (i & 3); k++) m[Mk<L, K>::mk(2 - k)] = Mk<L, V>::mk(k + i); return m; }
  static void touch(M &m, int i) { Mk<L, V>::touch(m[Mk<L, K>::mk(i)], i); }
};
template <class K, class V> struct Mk<Nano, nanostl::map<K, V> > : MkM<Nano, K, V> {};
template <class K, class V> struct Mk<Std, std::map<K, V> > : MkM<Std, K, V> {};
template <class L, class T> struct MkO {
  typedef typename L::template opt<T> O;
  static O mk(int i) { return i & 1 ? O(Mk<L, T>::mk(i)) : O(); }
  static void touch(O &o, int i) { if (o.has_value() && i) o.reset(); else if (o.has_value()) Mk<L, T>::touch(*o, i); else o = Mk<L, T>::mk(i + 2); }
};
template <class T> struct Mk<Nano, nonstd::optional<T> > : MkO<Nano, T> {};
template <class T> struct Mk<Std, IOpt<T> > : MkO<Std, T> {};
template <class L, class A, class B, class C> struct MkVar {
  typedef typename L::template var<A, B, C> V;
  static V mk(int i) { return i % 3 == 0 ? V(Mk<L, A>::mk(i)) : i % 3 == 1 ? V(Mk<L, B>::mk(i)) : V(Mk<L, C>::mk(i)); }
  static void touch(V &v, int i) { int n = (L::index(v) + 1 + i) % 3; if (n == 0) v = Mk<L, A>::mk(i); else if (n == 1) v = Mk<L, B>::mk(i + 1); else v = Mk<L, C>::mk(i + 2); }
};
template <class A, class B, class C, class... R> struct Mk<Nano, nonstd::variants::variant<A, B, C, R...> > : MkVar<Nano, A, B, C> {};
template <class A, class B, class C> struct Mk<Std, IVar<A, B, C> > : MkVar<Std, A, B, C> {};

// ---- operations on two vectors of anything --------------------------------------
enum { VOPS = 21 };
template <class L, class T> struct VW {
  typedef typename L::template vector<T> V;
  typedef Mk<L, T> M;
  V a, b;
  bool op(int o) {
    switch (o) {
      case 0: a.push_back(M::mk(1)); return true;
      case 1: a.push_back(M::mk(2)); return true;
      case 2: if (a.empty()) return false; a.push_back(a[0]); return true;
      case 3: if (b.empty()) return false; a.push_back(b[b.size() - 1]); return true;
      case 4: if (a.empty()) return false; a.pop_back(); return true;
      case 5: if (a.empty()) return false; { size_t p = a.erase(a.begin()) - a.begin(); if (p != 0) mc::fail("position", "erase(first) returns position %zu", p); } return true;
      case 6: if (a.size() < 3) return false; a.erase(a.begin() + 1); return true;
      case 7: a.resize(a.size() + 2); return true;
      case 8: if (a.empty()) return false; a.resize(a.size() - 1); return true;
      case 9: a = b; return true;
      case 10: b = a; return true;
      case 11: a.swap(b); return true;
      case 12: a.clear(); return true;
      case 13: if (a.empty()) return false; a[0] = a[a.size() - 1]; return true;
      case 14: if (a.empty()) return false; M::touch(a[0], 0); return true;
      case 15: if (a.empty()) return false; M::touch(a[a.size() - 1], 1); return true;
      case 16: { V t(a); if (!t.empty()) { M::touch(t[0], 1); t.erase(t.begin()); } t.push_back(M::mk(3)); b = t; return true; }
      case 17: a.assign(b.begin(), b.end()); return true;
      case 18: a = *&a; return true;
      case 19: { V t(b); t.swap(a); t.clear(); return true; }
      case 20: if (a.empty()) return false; a.resize(0); return true;
    }
    return false;
  }
  size_t weight() { return a.size() + b.size(); }
  void dump(Out &o) { show(o, a); o += " "; show(o, b); }
  void hidden(Out &o) { caps(o, a); o += "/"; caps(o, b); }
};
static const char *VN[VOPS] = {"push long text", "push x2", "push a[0]", "push b.back", "pop", "erase first", "erase second", "resize +2", "resize -1", "a=b", "b=a", "swap", "clear", "a[0]=a.back", "change a[0]", "change a.back", "copy, change the copy, b=copy", "assign range of b", "a=a", "swap with temporary", "resize 0"};

// ---- operations on two maps -------------------------------------------------------
enum { MOPS = 16 };
template <class L, class K, class T> struct MW {
  typedef typename L::template map<K, T> V;
  typedef Mk<L, T> M;
  V a, b;
  K k(int i) { return Mk<L, K>::mk(i); }
  bool op(int o) {
    switch (o) {
      case 0: case 1: case 2: a[k(o)] = M::mk(o + 1); return true;
      case 3: M::touch(a[k(1)], 0); return true;
      case 4: M::touch(a[k(3)], 1); return true;
      case 5: L::insert(a, k(0), M::mk(3)); return true;
      case 6: L::insert(a, k(3), M::mk(2)); return true;
      case 7: a[k(0)] = a[k(2)]; return true;
      case 8: a = b; return true;
      case 9: b = a; return true;
      case 10: { V t(a); M::touch(t[k(0)], 1); return true; }
      case 11: { V t(a); M::touch(t[k(2)], 1); b = t; return true; }
      case 12: a = *&a; return true;
      case 13: b[k(1)] = a[k(0)]; return true;
      case 14: a = V(); return true;
      case 15: if (a.find(k(1)) != a.end()) M::touch(a.find(k(1))->second, 0); return true;
    }
    return false;
  }
  size_t weight() { return 0; }
  void dump(Out &o) { show(o, a); o += " "; show(o, b); for (int i = 0; i < 4; i++) { o += a.find(k(i)) != a.end() ? 'y' : 'n'; } }
  void hidden(Out &o) { for (typename V::iterator i = a.begin(); i != a.end(); ++i) caps(o, i->second); }
};
static const char *MN[MOPS] = {"a[k0]=", "a[k1]=", "a[k2]=", "change a[k1]", "change a[k3]", "insert k0", "insert k3", "a[k0]=a[k2]", "a=b", "b=a", "copy and change the copy", "copy, change, b=copy", "a=a", "b[k1]=a[k0]", "a=empty", "change through find"};

// ---- operations on owners of containers ---------------------------------------------
enum { UOPS = 12 };
template <class L, class T> struct UW {
  typedef typename L::template uptr<T> U;
  typedef Mk<L, T> M;
  U a, b;
  bool op(int o) {
    switch (o) {
      case 0: a.reset(new T(M::mk(1))); return true;
      case 1: a.reset(new T(M::mk(2))); return true;
      case 2: if (!a) return false; b.reset(new T(*a)); return true;
      case 3: if (!a) return false; M::touch(*a, 0); return true;
      case 4: if (!b) return false; M::touch(*b, 1); return true;
      case 5: a.swap(b); return true;
      case 6: b = static_cast<U &&>(a); return true;
      case 7: a = static_cast<U &&>(b); return true;
      case 8: if (!a || !b) return false; *a = *b; return true;
      case 9: a.reset(); return true;
      case 10: { U t(static_cast<U &&>(a)); if (t) M::touch(*t, 0); b = static_cast<U &&>(t); return true; }
      case 11: { T *p = a.release(); b.reset(p); return true; }
    }
    return false;
  }
  size_t weight() { return 0; }
  void dump(Out &o) { show(o, a); o += " "; show(o, b); }
  void hidden(Out &o) { if (a) caps(o, *a); o += '/'; if (b) caps(o, *b); }
};
static const char *UN[UOPS] = {"a.reset(x1)", "a.reset(x2)", "b.reset(copy of *a)", "change *a", "change *b", "swap", "b=move(a)", "a=move(b)", "*a=*b", "a.reset()", "through a temporary", "release"};

template <class WN, class WS> static void run(Chooser &c, int depth, int nops, const char **names, size_t maxw) {
  trk::reset();
  {
    WN n;
    WS s;
    for (int d = 0; d < depth; d++) {
      int o = c.choose(nops);
      if (!s.op(o)) throw mc::Prune();
      if (maxw && s.weight() > maxw) throw mc::Prune();
      n.op(o);
      c.log("%s", names[o]);
      c.step();
      Out x, y, h;
      n.dump(x);
      s.dump(y);
      MC_CHECK(x == y, std::string("after ") + names[o], "after %s: %.200s instead of %.200s", names[o], x.c_str(), y.c_str());
      trk::check(names[o]);
      n.hidden(h);
      mc::nontrivial();
      x += h;
      c.state_or_prune(mc::hash_bytes(x.data(), x.size()), depth - d - 1);
    }
  }
  trk::check("the end");
  MC_CHECK(trk::g_live == 0, "lifetime", "%ld elements are alive after the last container is gone", trk::g_live);
}
#define VSCEN(NAME, TY, DQ, DT) \
  template <class L> struct T_##NAME { typedef typename L::string S; TY; }; \
  static void s_##NAME(Chooser &c) { run<VW<Nano, typename T_##NAME<Nano>::E>, VW<Std, typename T_##NAME<Std>::E> >(c, mc::thorough() ? DT : DQ, VOPS, VN, 7); }
#define MSCEN(NAME, TY, DQ, DT) \
  template <class L> struct T_##NAME { typedef typename L::string S; TY; }; \
  static void s_##NAME(Chooser &c) { run<MW<Nano, typename T_##NAME<Nano>::K, typename T_##NAME<Nano>::E>, MW<Std, typename T_##NAME<Std>::K, typename T_##NAME<Std>::E> >(c, mc::thorough() ? DT : DQ, MOPS, MN, 0); }
#define USCEN(NAME, TY, DQ, DT) \
  template <class L> struct T_##NAME { typedef typename L::string S; TY; }; \
  static void s_##NAME(Chooser &c) { run<UW<Nano, typename T_##NAME<Nano>::E>, UW<Std, typename T_##NAME<Std>::E> >(c, mc::thorough() ? DT : DQ, UOPS, UN, 0); }

VSCEN(vs, typedef S E, 5, 7)
VSCEN(vvt, typedef typename L::template vector<trk::Tracked> E, 5, 7)
VSCEN(vvs, typedef typename L::template vector<S> E, 5, 7)


VSCEN(vvvi, typedef typename L::template vector<typename L::template vector<int> > E, 5, 7)
#define PS typename L::template pair<S, typename L::template vector<S> >
VSCEN(vp, typedef PS E, 5, 7)
#define MSI typename L::template map<S, S>
VSCEN(vm, typedef MSI E, 5, 7)
VSCEN(vo, typedef typename L::template opt<S> E, 5, 7)
#define OV typename L::template opt<typename L::template vector<S> >
VSCEN(vov, typedef OV E, 5, 7)
#define VAR3 typename L::template var<int, S, typename L::template vector<S> >
VSCEN(vvar, typedef VAR3 E, 5, 7)
MSCEN(mss, typedef S K; typedef S E, 5, 7)
MSCEN(msv, typedef S K; typedef typename L::template vector<S> E, 5, 7)
MSCEN(mivt, typedef int K; typedef typename L::template vector<trk::Tracked> E, 5, 7)
#define MIS typename L::template map<int, S>
MSCEN(mmi, typedef S K; typedef MIS E, 5, 7)
MSCEN(mo, typedef int K; typedef OV E, 5, 7)
MSCEN(mvar, typedef S K; typedef VAR3 E, 5, 7)
USCEN(us, typedef S E, 8, 10)
USCEN(uvs, typedef typename L::template vector<S> E, 8, 10)
USCEN(um, typedef MSI E, 8, 10)
USCEN(uvt, typedef typename L::template vector<trk::Tracked> E, 8, 10)
USCEN(uvar, typedef VAR3 E, 8, 10)
static void setup() {
#define VB "21 operations on two vectors, at most 7 elements together"
#define MB "16 operations on two maps, four keys"
#define UB "12 operations on two owning pointers"
  mc::tree("vector<string>", s_vs, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<vector<Tracked>>", s_vvt, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<vector<string>>", s_vvs, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<vector<vector<int>>>", s_vvvi, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<pair<string,vector<string>>>", s_vp, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<map<string,string>>", s_vm, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<optional<string>>", s_vo, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<optional<vector<string>>>", s_vov, VB ", depth 5 (thorough 7)", true);
  mc::tree("vector<variant<int,string,vector<string>>>", s_vvar, VB ", depth 5 (thorough 7)", true);
  mc::tree("map<string,string>", s_mss, MB ", depth 5 (thorough 7)", true);
  mc::tree("map<string,vector<string>>", s_msv, MB ", depth 5 (thorough 7)", true);
  mc::tree("map<int,vector<Tracked>>", s_mivt, MB ", depth 5 (thorough 7)", true);
  mc::tree("map<string,map<int,string>>", s_mmi, MB ", depth 5 (thorough 7)", true);
  mc::tree("map<int,optional<vector<string>>>", s_mo, MB ", depth 5 (thorough 7)", true);
  mc::tree("map<string,variant<int,string,vector<string>>>", s_mvar, MB ", depth 5 (thorough 7)", true);
  mc::tree("unique_ptr<string>", s_us, UB ", depth 8 (thorough 10)", true);
  mc::tree("unique_ptr<vector<string>>", s_uvs, UB ", depth 8 (thorough 10)", true);
  mc::tree("unique_ptr<map<string,string>>", s_um, UB ", depth 8 (thorough 10)", true);
  mc::tree("unique_ptr<vector<Tracked>>", s_uvt, UB ", depth 8 (thorough 10)", true);
  mc::tree("unique_ptr<variant<int,string,vector<string>>>", s_uvar, UB ", depth 8 (thorough 10)", true);
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
