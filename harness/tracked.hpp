// An element type that knows whether it is alive, and can be told to throw.
#ifndef VERIF_TRACKED_HPP
#define VERIF_TRACKED_HPP
#include <stdint.h>
#include "mc.hpp"
namespace trk {
static long g_live;            // live objects
static const char *g_error;    // first lifetime error
static long g_countdown = -1;  // >=0: throw when it reaches zero (fault injection)
struct Thrown {};
static inline void err(const char *e) { if (!g_error) g_error = e; }
static inline void tick() { if (g_countdown >= 0 && g_countdown-- == 0) throw Thrown(); }
static const uint32_t kAlive = 0xA11FE123u, kDead = 0xDEADBEEFu;

struct Tracked {
  uint32_t magic;
  int v;
  const Tracked *self;  // catches bitwise relocation
  Tracked() { tick(); born(0); }
  Tracked(int x) { tick(); born(x); }
  Tracked(const Tracked &o) { tick(); o.use(); born(o.v); }
  Tracked(Tracked &&o) { tick(); o.use(); born(o.v); o.v = -1; }
  Tracked &operator=(const Tracked &o) { use(); o.use(); tick(); v = o.v; return *this; }
  Tracked &operator=(Tracked &&o) { use(); o.use(); tick(); v = o.v; if (&o != this) o.v = -1; return *this; }
  ~Tracked() { if (magic != kAlive || self != this) err("destructor runs on an object that is not alive"); magic = kDead; g_live--; }
  void born(int x) { magic = kAlive; v = x; self = this; g_live++; }
  void use() const { if (magic != kAlive || self != this) err("an object that is not alive is used"); }
  int get() const { use(); return v; }
  bool operator==(const Tracked &o) const { return get() == o.get(); }
  bool operator!=(const Tracked &o) const { return get() != o.get(); }
  bool operator<(const Tracked &o) const { return get() < o.get(); }
  bool operator>(const Tracked &o) const { return get() > o.get(); }
  bool operator<=(const Tracked &o) const { return get() <= o.get(); }
  bool operator>=(const Tracked &o) const { return get() >= o.get(); }
};
// Copy-only flavour (no moves declared): for code that must not depend on moves.
struct CTracked {
  uint32_t magic;
  int v;
  const CTracked *self;
  CTracked() { tick(); born(0); }
  CTracked(int x) { tick(); born(x); }
  CTracked(const CTracked &o) { tick(); o.use(); born(o.v); }
  CTracked &operator=(const CTracked &o) { use(); o.use(); tick(); v = o.v; return *this; }
  ~CTracked() { if (magic != kAlive || self != this) err("destructor runs on an object that is not alive"); magic = kDead; g_live--; }
  void born(int x) { magic = kAlive; v = x; self = this; g_live++; }
  void use() const { if (magic != kAlive || self != this) err("an object that is not alive is used"); }
  int get() const { use(); return v; }
  bool operator==(const CTracked &o) const { return get() == o.get(); }
  bool operator!=(const CTracked &o) const { return get() != o.get(); }
  bool operator<(const CTracked &o) const { return get() < o.get(); }
  bool operator>(const CTracked &o) const { return get() > o.get(); }
  bool operator<=(const CTracked &o) const { return get() <= o.get(); }
  bool operator>=(const CTracked &o) const { return get() >= o.get(); }
};
static inline void reset() { g_live = 0; g_error = 0; g_countdown = -1; }
static inline void check(const char *where) {
  if (g_error) { const char *e = g_error; g_error = 0; mc::fail("lifetime", "%s (%s)", e, where); }
}
static inline void check_end() {
  check("at the end");
  long l = g_live;
  g_live = 0;
  if (l != 0) mc::fail("lifetime-leak", "%ld element(s) constructed and never destroyed", l);
}
static inline int val(int x) { return x; }
static inline int val(const Tracked &x) { return x.get(); }
static inline int val(const CTracked &x) { return x.get(); }
}  // namespace trk
#endif
