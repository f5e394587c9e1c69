// Virtual threads: a controlled scheduler for code written against pthreads.
//
// The code under test is compiled on its own with -fsanitize=thread (so that
// every plain access and every atomic operation is a call) and its undefined
// pthread_*, time and sleep symbols are renamed to vt_*.  This file supplies
// those symbols.  Threads are fibers of one OS thread.  A fiber stops before
// every *visible* operation (mutex, condition, thread, atomic and clock
// operations); the scheduler, which runs on the main stack, lists the enabled
// transitions and asks the Chooser which one to take.  Timeouts, spurious
// wakeups, interrupted sleeps, failing pthread_create and ticks of the clock
// are transitions or choices as well.  Plain accesses are not scheduling
// points; they are checked for data races with vector clocks that honour the
// memory orders of the atomics.
//
// Two search modes: all interleavings, or one per Mazurkiewicz trace (sleep
// sets).  Both enumerate exhaustively.
#ifndef VERIF_VT_HPP
#define VERIF_VT_HPP
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <time.h>
#include "mc.hpp"

typedef __int128 vt_ns;

extern "C" void vt_switch(void **save, void *to);
__asm__(
    ".text\n.globl vt_switch\n.type vt_switch,@function\nvt_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size vt_switch,.-vt_switch\n");

namespace vt {

static const int kF = 7;           // fiber 0 is the root
static const int kStack = 48 * 1024;
static const int kKeys = 8;
static const pthread_t kHandle = 0x7000;

enum Kind { START, LOCK, TRYLOCK, TIMEDLOCK, UNLOCK, WAIT, BLOCKED, SIGNAL, BROADCAST, CREATE, JOIN, DETACH, EXIT, ATOMIC, CLOCKREAD, SLEEP,
            YIELD, POINT, MISC, KEYCREATE, DONE };
static const char *kKindName[] = {"start", "lock", "trylock", "timedlock", "unlock", "cond_wait", "blocked", "signal", "broadcast", "create",
                                  "join", "detach", "exit", "atomic", "clock", "sleep", "yield", "point", "misc", "key_create", "done"};

struct VC { unsigned v[kF]; };
struct Foot { const void *o[3]; unsigned char w[3]; int n; };

struct Op {
  Kind k;
  void *a, *b;      // objects
  vt_ns t;          // deadline or duration
  bool timed;
  const char *label;
  int rc;           // result
  Foot fp;
};

struct Fiber {
  void *sp;
  Op op;
  VC vc;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  bool used, done, joined, detached, real;  // real: created by the code under test
  char name[16];
  void *tls[kKeys];
  unsigned tlsgen[kKeys];
  int nsteps;
  void *mutex_after;  // condition wait: mutex to take again
  int rc_after;
  unsigned long yielded;
};

struct VMutex { void *addr; int owner, type, count; VC vc; bool alive; };
struct VCond { void *addr; int wait[kF]; int nw; int clk; bool alive; };
struct VAtom { void *addr; VC vc; };

struct Options {
  bool por;          // sleep sets
  int preempt;       // preemption bound, -1: none
  int spurious;      // spurious wakeups per execution
  int eintr;         // interrupted sleeps per execution
  int ticks;         // clock ticks per execution
  vt_ns tick_ns;
  int create_fail;   // failing pthread_create / key_create per execution
  int max_steps;
  vt_ns start;       // realtime at the beginning
  Options() : por(true), preempt(-1), spurious(0), eintr(0), ticks(0), tick_ns(1000), create_fail(0), max_steps(3000),
              start((vt_ns)1000 * 1000000000) {}
};

static Fiber g_f[kF];
static char g_stack[kF][kStack] __attribute__((aligned(64)));
static int g_cur;            // running fiber, 0 = root / scheduler
static bool g_running;
static void *g_main_sp;
static mc::Chooser *g_c;
static Options g_o;
static vt_ns g_now;
static bool g_failed;
static mc::Fail g_fail;
static VMutex g_m[32]; static int g_nm;
static VCond g_cv[32]; static int g_ncv;
static VAtom g_at[64]; static int g_nat;
static unsigned g_keygen[kKeys]; static bool g_keyused[kKeys]; static void (*g_keydtor[kKeys])(void *);
static int g_steps, g_preempts;
static unsigned long g_moves;
static const void *g_names[64]; static int g_nnames;
static int g_saved_errno[kF];

static const void *const OBJ_CLOCK = (const void *)8;
static const void *const OBJ_BUDGET = (const void *)16;
static const void *const OBJ_THREADS = (const void *)24;
static const void *const OBJ_KEYS = (const void *)32;

// ---- data races -----------------------------------------------------------
struct Shadow { unsigned gen; uintptr_t a; unsigned w[kF], r[kF], aw[kF], ar[kF]; };
static const int kShadow = 1 << 12;
static Shadow g_shadow[kShadow];
static unsigned g_gen;
static Shadow &shadow(uintptr_t a) {
  unsigned i = (unsigned)((a * 0x9e3779b97f4a7c15ull) >> 40) & (kShadow - 1);
  while (g_shadow[i].gen == g_gen && g_shadow[i].a != a) i = (i + 1) & (kShadow - 1);
  Shadow &s = g_shadow[i];
  if (s.gen != g_gen) { memset(&s, 0, sizeof s); s.gen = g_gen; s.a = a; }
  return s;
}

static const char *oname(const void *p) {
  static char buf[4][40];
  static int k;
  char *b = buf[k++ & 3];
  if (p == OBJ_CLOCK) return "clock";
  for (int i = 0; i < g_nnames; i++)
    if (g_names[i] == p) { snprintf(b, 40, "obj%d", i); return b; }
  if (g_nnames < 64) g_names[g_nnames++] = p;
  snprintf(b, 40, "obj%d", g_nnames - 1);
  return b;
}

static void to_scheduler() { vt_switch(&g_f[g_cur].sp, g_main_sp); }

// Reports a violation from any context; never returns.
static void die(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static void die(const char *sig, const char *fmt, ...) {
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_cur == 0) mc::fail(sig, "%s", buf);
  g_failed = true;
  g_fail.sig = sig;
  g_fail.msg = buf;
  to_scheduler();
  abort();
}

static void access(const void *p, unsigned n, bool write, bool atomic, const char *what) {
  uintptr_t a = (uintptr_t)p;
  int f = g_cur;
  if (f && a >= (uintptr_t)g_stack[f] && a < (uintptr_t)g_stack[f] + kStack) return;
  if (!f) {  // the root owns everything it touches
    char probe;
    if (a >= (uintptr_t)&probe - 65536 && a < (uintptr_t)&probe + (1 << 20)) return;
  }
  VC &vc = g_f[f].vc;
  for (unsigned i = 0; i < n; i++) {
    Shadow &s = shadow(a + i);
    for (int g = 0; g < kF; g++) {
      if (g == f) continue;
      bool bad = s.w[g] > vc.v[g];
      if (write && s.r[g] > vc.v[g]) bad = true;
      if (!atomic) {
        if (s.aw[g] > vc.v[g]) bad = true;
        if (write && s.ar[g] > vc.v[g]) bad = true;
      }
      if (bad) die("data-race", "%s of %u bytes (%s) by thread %d races with an access of thread %d", write ? "write" : "read", n, what, f, g);
    }
    unsigned *t = atomic ? (write ? s.aw : s.ar) : (write ? s.w : s.r);
    t[f] = vc.v[f];
  }
}
static void data_read(const void *p, unsigned n) { access(p, n, false, false, "user data"); }
static void data_write(const void *p, unsigned n) { access(p, n, true, false, "user data"); }

static void vc_join(VC &a, const VC &b) { for (int i = 0; i < kF; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i]; }

// ---- objects --------------------------------------------------------------
static const unsigned char kMFill = 0x5a, kCFill = 0x6c;
static bool all_bytes(const void *p, int v, size_t n) {
  const unsigned char *s = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) if (s[i] != v) return false;
  return true;
}
static VMutex *find_mutex(void *a, const char *who) {
  for (int i = 0; i < g_nm; i++)
    if (g_m[i].addr == a && g_m[i].alive) {
      if (!all_bytes(a, kMFill, sizeof(pthread_mutex_t))) die("mutex-overwritten", "%s: the storage of a live mutex was overwritten", who);
      return &g_m[i];
    }
  if (all_bytes(a, 0, sizeof(pthread_mutex_t)) && g_nm < 32) {  // static initializer
    VMutex &m = g_m[g_nm++];
    memset(&m, 0, sizeof m);
    m.addr = a; m.owner = -1; m.alive = true;
    memset(a, kMFill, sizeof(pthread_mutex_t));
    return &m;
  }
  die("bad-mutex", "%s: mutex is not initialised (or was destroyed)", who);
}
static VCond *find_cond(void *a, const char *who) {
  for (int i = 0; i < g_ncv; i++)
    if (g_cv[i].addr == a && g_cv[i].alive) {
      if (!all_bytes(a, kCFill, sizeof(pthread_cond_t))) die("cond-overwritten", "%s: the storage of a live condition was overwritten", who);
      return &g_cv[i];
    }
  if (all_bytes(a, 0, sizeof(pthread_cond_t)) && g_ncv < 32) {
    VCond &m = g_cv[g_ncv++];
    memset(&m, 0, sizeof m);
    m.addr = a; m.alive = true;
    memset(a, kCFill, sizeof(pthread_cond_t));
    return &m;
  }
  die("bad-cond", "%s: condition is not initialised (or was destroyed)", who);
}
static VC &atom_vc(void *a) {
  for (int i = 0; i < g_nat; i++) if (g_at[i].addr == a) return g_at[i].vc;
  if (g_nat >= 64) { fprintf(stderr, "vt: too many atomics\n"); _exit(3); }
  g_at[g_nat].addr = a;
  memset(&g_at[g_nat].vc, 0, sizeof(VC));
  return g_at[g_nat++].vc;
}

// ---- transitions ----------------------------------------------------------
enum TKind { T_RUN, T_TIMEOUT, T_SPURIOUS };
struct Tr { int f; int k; };

static Foot foot(const void *a = 0, int wa = 1, const void *b = 0, int wb = 1, const void *c = 0, int wc = 1) {
  Foot r;
  r.n = 0;
  if (a) { r.o[r.n] = a; r.w[r.n++] = (unsigned char)wa; }
  if (b) { r.o[r.n] = b; r.w[r.n++] = (unsigned char)wb; }
  if (c) { r.o[r.n] = c; r.w[r.n++] = (unsigned char)wc; }
  return r;
}
static Foot foot_of(const Tr &t) {
  Fiber &f = g_f[t.f];
  if (t.k == T_RUN) return f.op.fp;
  if (t.k == T_TIMEOUT) return foot(f.op.a, 1, OBJ_CLOCK, 1);
  return foot(f.op.a, 1, OBJ_BUDGET, 1);
}
static bool dependent(const Tr &x, const Foot &fx, const Tr &y) {
  if (x.f == y.f) return true;
  Foot fy = foot_of(y);
  for (int i = 0; i < fx.n; i++)
    for (int j = 0; j < fy.n; j++)
      if (fx.o[i] == fy.o[j] && (fx.w[i] || fy.w[j])) return true;
  return false;
}

static VMutex *peek_mutex(void *a) {
  for (int i = 0; i < g_nm; i++) if (g_m[i].addr == a && g_m[i].alive) return &g_m[i];
  return 0;
}
static int fiber_of(pthread_t t) { return (int)((unsigned long)t - kHandle); }
static bool valid_thread(pthread_t t) { int i = fiber_of(t); return i >= 0 && i < kF && g_f[i].used; }

static bool op_enabled(const Fiber &f, int id) {
  switch (f.op.k) {
    case LOCK: case TIMEDLOCK: {
      VMutex *m = peek_mutex(f.op.a);
      if (!m || m->owner < 0) return true;  // not initialised: reported when performed
      if (m->owner == id && m->type != PTHREAD_MUTEX_NORMAL) return true;
      return false;
    }
    case JOIN: return !valid_thread((pthread_t)f.op.a) || g_f[fiber_of((pthread_t)f.op.a)].done;
    case BLOCKED: case DONE: return false;
    default: return true;
  }
}

static void take_mutex(int id, VMutex *m) {
  m->owner = id; m->count = 1;
  vc_join(g_f[id].vc, m->vc);
}
static void drop_mutex(int id, VMutex *m) {
  m->owner = -1; m->count = 0;
  m->vc = g_f[id].vc;
}
static void wake(int id, int rc) {  // leaves the condition's queue, wants the mutex back
  Fiber &f = g_f[id];
  VCond *cv = find_cond(f.op.a, "wakeup");
  int j = 0;
  for (int i = 0; i < cv->nw; i++) if (cv->wait[i] != id) cv->wait[j++] = cv->wait[i];
  cv->nw = j;
  f.op.k = LOCK;
  f.op.timed = false;
  f.op.a = f.mutex_after;
  f.op.fp = foot(f.op.a);
  f.op.rc = rc;
  f.op.label = "reacquire";
}

// Performs the visible operation of fiber id.  Returns true when the fiber may go on.
static bool perform(int id) {
  Fiber &f = g_f[id];
  Op &o = f.op;
  f.vc.v[id]++;
  f.nsteps++;
  switch (o.k) {
    case LOCK: case TIMEDLOCK: {
      VMutex *m = find_mutex(o.a, "lock");
      if (m->owner == id) {
        if (m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return true; }
        o.rc = EDEADLK; return true;
      }
      take_mutex(id, m);
      return true;
    }
    case TRYLOCK: {
      VMutex *m = find_mutex(o.a, "trylock");
      if (m->owner == id && m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return true; }
      if (m->owner >= 0) { o.rc = EBUSY; return true; }
      take_mutex(id, m);
      return true;
    }
    case UNLOCK: {
      VMutex *m = find_mutex(o.a, "unlock");
      if (m->owner != id) die("unlock-not-owner", "thread %d unlocks a mutex that %s", id, m->owner < 0 ? "is not locked" : "another thread holds");
      if (m->type == PTHREAD_MUTEX_RECURSIVE && m->count > 1) { m->count--; return true; }
      drop_mutex(id, m);
      return true;
    }
    case WAIT: {
      VCond *cv = find_cond(o.a, "wait");
      VMutex *m = find_mutex(o.b, "wait");
      if (m->owner != id) die("wait-without-mutex", "thread %d waits on a condition without holding the mutex", id);
      drop_mutex(id, m);
      cv->wait[cv->nw++] = id;
      f.mutex_after = o.b;
      o.k = BLOCKED;
      return false;
    }
    case SIGNAL: {
      VCond *cv = find_cond(o.a, "signal");
      if (cv->nw) {
        int w = cv->nw > 1 ? g_c->choose(cv->nw) : 0;
        wake(cv->wait[w], 0);
      }
      return true;
    }
    case BROADCAST: {
      VCond *cv = find_cond(o.a, "broadcast");
      while (cv->nw) wake(cv->wait[0], 0);
      return true;
    }
    case JOIN: {
      int t = fiber_of((pthread_t)o.a);
      if (!valid_thread((pthread_t)o.a) || !g_f[t].real) die("bad-join", "join of something that is not a thread");
      if (g_f[t].joined) die("double-join", "a thread is joined a second time (its identifier is no longer valid)");
      if (g_f[t].detached) die("join-detached", "join of a detached thread");
      if (t == id) die("self-join", "a thread joins itself");
      g_f[t].joined = true;
      vc_join(f.vc, g_f[t].vc);
      return true;
    }
    case SLEEP: {
      vt_ns d = o.t;
      if (d < 0) d = 0;
      int part = 0;
      if (g_o.eintr > 0) { part = g_c->choose(4); }
      if (part) {
        g_o.eintr--;
        vt_ns slept = part == 1 ? 0 : part == 2 ? d / 2 : (d > 0 ? d - 1 : 0);
        g_now += slept;
        o.t = d - slept;  // remaining
        o.rc = EINTR;
      } else {
        g_now += d;
        o.t = 0;
      }
      return true;
    }
    case CREATE: case KEYCREATE:
      if (g_o.create_fail > 0 && g_c->choose(2)) { g_o.create_fail--; o.rc = EAGAIN; }
      return true;
    case CLOCKREAD:
      if (g_o.ticks > 0 && g_c->choose(2)) { g_o.ticks--; g_now += g_o.tick_ns; }
      return true;
    default: return true;
  }
}

static void check_pending_failure() {
  if (g_failed) {
    g_failed = false;
    throw g_fail;
  }
}

static void fiber_main() {
  int id = g_cur;
  Fiber &f = g_f[id];
  try {
    f.ret = f.fn(f.arg);
  } catch (mc::Fail &e) {
    g_failed = true;
    g_fail = e;
    to_scheduler();
  }
  // POSIX: thread-specific destructors, then termination
  for (int k = 0; k < kKeys; k++)
    if (g_keyused[k] && f.tlsgen[k] == g_keygen[k] && f.tls[k] && g_keydtor[k]) { void *v = f.tls[k]; f.tls[k] = 0; g_keydtor[k](v); }
  f.op.k = EXIT;
  f.op.fp = foot(&f);
  to_scheduler();
  abort();
}

static int new_fiber(void *(*fn)(void *), void *arg, bool real) {
  int id = 1;
  while (id < kF && g_f[id].used) id++;
  if (id == kF) { fprintf(stderr, "vt: too many threads\n"); _exit(3); }
  Fiber &f = g_f[id];
  memset(&f, 0, sizeof f);
  memset(g_stack[id] + kStack - 8192, 0xa5, 8192);
  f.used = true;
  f.real = real;
  f.fn = fn;
  f.arg = arg;
  f.op.k = START;
  f.op.fp = foot(&f);
  f.vc = g_f[g_cur].vc;
  f.vc.v[id]++;
  uintptr_t top = (uintptr_t)(g_stack[id] + kStack) & ~(uintptr_t)63;
  void **s = (void **)top;
  *--s = 0;                     // fake return address keeps the ABI alignment
  *--s = (void *)fiber_main;
  for (int i = 0; i < 6; i++) *--s = 0;
  f.sp = s;
  return id;
}

// A visible operation of the running fiber (or of the root, where it happens at once).
static void visible(Kind k, const Foot &fp, void *a = 0, void *b = 0, vt_ns t = 0, bool timed = false, const char *label = "") {
  Fiber &f = g_f[g_cur];
  f.op.k = k; f.op.a = a; f.op.b = b; f.op.t = t; f.op.timed = timed; f.op.label = label; f.op.rc = 0; f.op.fp = fp;
  if (g_cur == 0) {
    if (!op_enabled(f, 0)) mc::fail("root-blocked", "%s would block although no other thread is running", kKindName[k]);
    if (!perform(0)) mc::fail("root-blocked", "%s would block although no other thread is running", kKindName[k]);
    return;
  }
  int saved = errno;
  to_scheduler();
  errno = saved;
}

// ---- harness interface ----------------------------------------------------
static void reset(mc::Chooser &c, const Options &o) {
  g_c = &c; g_o = o; g_now = o.start;
  static const bool nopor = getenv("VT_NOPOR") != 0;  // to compare the two search modes
  if (nopor) g_o.por = false;
  memset(g_f, 0, sizeof g_f);
  g_f[0].used = true;
  g_f[0].vc.v[0] = 1;
  g_nm = g_ncv = g_nat = g_nnames = 0;
  g_cur = 0; g_steps = g_preempts = 0; g_moves = 0; g_failed = false; g_running = false;
  memset(g_keyused, 0, sizeof g_keyused);
  if (++g_gen == 0) { memset(g_shadow, 0, sizeof g_shadow); g_gen = 1; }
}
static int spawn(void *(*fn)(void *), void *arg) { g_f[0].vc.v[0]++; return new_fiber(fn, arg, false); }
static int self() { return g_cur; }
static vt_ns clock_now() { return g_now; }                       // root, or single-threaded use
static vt_ns clock_read() { if (g_cur) visible(POINT, foot(OBJ_CLOCK, 0), 0, 0, 0, false, "harness clock"); return g_now; }
static void point(const char *label, const void *obj = 0) { if (g_cur) visible(POINT, foot(obj), (void *)obj, 0, 0, false, label); }
static bool finished(int id) { return g_f[id].done; }
static bool blocked_forever(int id) { return g_f[id].used && !g_f[id].done; }

// Runs until every fiber is finished (true) or nothing can happen any more (false).
static bool run() {
  mc::Chooser &c = *g_c;
  Tr sleep[64];
  int nsleep = 0;
  int last = 0;
  bool result;
  int recent[kF] = {0};  // steps of each thread in the second half of the longest run allowed
  g_running = true;
  while (true) {
    Tr t[64], hard[64];
    int n = 0, nh = 0;
    bool last_enabled = false, alive = false;
    // the running fiber first, so that choice 0 means "no preemption"
    for (int q = 0; q < kF; q++) {
      int i = q == 0 ? last : (q <= last ? q - 1 : q);
      if (i == 0 || !g_f[i].used || g_f[i].done) continue;
      alive = true;
      Fiber &f = g_f[i];
      if (op_enabled(f, i)) {
        if (f.op.k == YIELD && f.yielded == g_moves) continue;  // considered below
        t[n].f = i; t[n++].k = T_RUN;
        if (i == last) last_enabled = true;
      }
    }
    for (int i = 1; i < kF; i++) {
      Fiber &f = g_f[i];
      if (!f.used || f.done) continue;
      if (f.op.timed && (f.op.k == BLOCKED || (f.op.k == TIMEDLOCK && !op_enabled(f, i)))) { t[n].f = i; t[n++].k = T_TIMEOUT; }
    }
    if (n == 0)  // only yielding threads: let them run
      for (int i = 1; i < kF; i++)
        if (g_f[i].used && !g_f[i].done && g_f[i].op.k == YIELD) { t[n].f = i; t[n++].k = T_RUN; }
    if (!alive) { result = true; break; }
    bool stop_possible = n == 0;
    if (g_o.spurious > 0)
      for (int i = 1; i < kF; i++)
        if (g_f[i].used && !g_f[i].done && g_f[i].op.k == BLOCKED) { t[n].f = i; t[n++].k = T_SPURIOUS; }
    if (n == 0) { result = false; break; }
    // preemption bound
    if (g_o.preempt >= 0 && last_enabled && g_preempts >= g_o.preempt) {
      int j = 0;
      for (int i = 0; i < n; i++) if (t[i].f == last) t[j++] = t[i];
      n = j;
    }
    // sleep set
    for (int i = 0; i < n; i++) {
      bool asleep = false;
      for (int j = 0; j < nsleep; j++) if (sleep[j].f == t[i].f && sleep[j].k == t[i].k) asleep = true;
      if (!asleep) hard[nh++] = t[i];
    }
    if (nh == 0) { if (stop_possible) { result = false; break; } __atomic_fetch_add(&mc::g_shm->pruned, 1, __ATOMIC_RELAXED); throw mc::Prune(); }
    int pick;
    if (stop_possible) {
      pick = c.choose(nh + 1) - 1;
      if (pick < 0) { result = false; break; }
    } else pick = nh > 1 ? c.choose(nh) : 0;
    Tr x = hard[pick];
    Foot fx = foot_of(x);
    if (g_o.por) {
      Tr ns[64];
      int k = 0;
      for (int j = 0; j < nsleep; j++) if (!dependent(x, fx, sleep[j])) ns[k++] = sleep[j];
      for (int j = 0; j < pick; j++) if (!dependent(x, fx, hard[j])) ns[k++] = hard[j];
      nsleep = k;
      memcpy(sleep, ns, sizeof(Tr) * (size_t)k);
    }
    if (last_enabled && x.f != last) g_preempts++;
    if (++g_steps > g_o.max_steps) {
      // Going on for ever is a failure only if no thread that could run was left out: spinning for as long as
      // the schedule keeps the others from running is legitimate.
      bool fair = true;
      for (int i = 1; i < kF; i++) if (g_f[i].used && !g_f[i].done && op_enabled(g_f[i], i) && recent[i] < g_o.max_steps / 50) fair = false;
      if (fair) mc::fail("livelock", "no end after %d steps", g_o.max_steps);
      __atomic_fetch_add(&mc::g_shm->pruned, 1, __ATOMIC_RELAXED);
      throw mc::Prune();
    }
    if (g_steps == g_o.max_steps / 2) memset(recent, 0, sizeof recent);
    recent[x.f]++;
    c.step();
    g_moves++;
    Fiber &f = g_f[x.f];
    if (c.verbose) {
      if (x.k == T_RUN) c.log("thread %d: %s %s%s%s", x.f, kKindName[f.op.k], f.op.label ? f.op.label : "", f.op.fp.n ? " on " : "", f.op.fp.n ? oname(f.op.fp.o[0]) : "");
      else c.log("thread %d: %s", x.f, x.k == T_TIMEOUT ? "the wait times out" : "spurious wakeup");
    }
    if (x.k == T_TIMEOUT) {
      vt_ns real = f.op.t;
      if (real > g_now) g_now = real;
      if (f.op.k == TIMEDLOCK) { f.op.k = MISC; f.op.rc = ETIMEDOUT; f.op.fp = foot(); }
      else wake(x.f, ETIMEDOUT);
    } else if (x.k == T_SPURIOUS) {
      g_o.spurious--;
      wake(x.f, 0);
    } else if (f.op.k == EXIT) {
      f.done = true;
      f.op.k = DONE;
      f.vc.v[x.f]++;
    } else {
      if (f.op.k == YIELD) f.yielded = g_moves;
      if (perform(x.f)) {
        g_cur = x.f;
        vt_switch(&g_main_sp, f.sp);
        g_cur = 0;
        check_pending_failure();
        if (f.op.k == YIELD) f.yielded = g_moves;
      }
    }
    last = x.f;
    uint64_t h = 77;
    for (int i = 1; i < kF; i++) if (g_f[i].used) h = mc::mix(h, (uint64_t)g_f[i].nsteps * 32 + g_f[i].op.k);
    for (int i = 0; i < g_nm; i++) h = mc::mix(h, (uint64_t)(g_m[i].owner + 2));
    c.state(h);
  }
  g_running = false;
  g_cur = 0;
  for (int i = 1; i < kF; i++) if (g_f[i].used) vc_join(g_f[0].vc, g_f[i].vc);
  return result;
}

static void check_no_lock_held() {
  for (int i = 0; i < g_nm; i++)
    if (g_m[i].alive && g_m[i].owner >= 0) mc::fail("lock-left-held", "a mutex is still locked although every operation has returned");
}
}  // namespace vt

// ---- the symbols the code under test is linked against ----------------------
namespace vt {
extern "C" {

int vt_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  visible(MISC, foot(m), m, 0, 0, false, "mutex_init");
  for (int i = 0; i < g_nm; i++) if (g_m[i].addr == m && g_m[i].alive) { if (g_m[i].owner >= 0) die("reinit", "a locked mutex is initialised again"); g_m[i].alive = false; }
  if (g_nm >= 32) { fprintf(stderr, "vt: too many mutexes\n"); _exit(3); }
  VMutex &v = g_m[g_nm++];
  memset(&v, 0, sizeof v);
  v.addr = m; v.owner = -1; v.alive = true;
  int ty = PTHREAD_MUTEX_NORMAL;
  if (a) pthread_mutexattr_gettype(a, &ty);
  v.type = ty;
  access(m, sizeof *m, true, false, "mutex_init");
  memset((void *)m, kMFill, sizeof *m);
  return 0;
}
int vt_pthread_mutex_destroy(pthread_mutex_t *m) {
  visible(MISC, foot(m), m, 0, 0, false, "mutex_destroy");
  VMutex *v = find_mutex(m, "destroy");
  if (v->owner >= 0) die("destroy-locked", "a locked mutex is destroyed");
  for (int i = 1; i < kF; i++)
    if (g_f[i].used && !g_f[i].done && i != g_cur && (g_f[i].mutex_after == m && g_f[i].op.k == BLOCKED)) die("destroy-waited", "a mutex is destroyed while a thread waits with it");
  v->alive = false;
  memset((void *)m, 0xdd, sizeof *m);
  return 0;
}
int vt_pthread_mutex_lock(pthread_mutex_t *m) { visible(LOCK, foot(m), m); return g_f[g_cur].op.rc; }
int vt_pthread_mutex_trylock(pthread_mutex_t *m) { visible(TRYLOCK, foot(m), m); return g_f[g_cur].op.rc; }
int vt_pthread_mutex_unlock(pthread_mutex_t *m) { visible(UNLOCK, foot(m), m); return 0; }
int vt_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  visible(TIMEDLOCK, foot(m, 1), m, 0, (vt_ns)ts->tv_sec * 1000000000 + ts->tv_nsec, true);
  return g_f[g_cur].op.rc;
}
int vt_pthread_cond_init(pthread_cond_t *cv, const pthread_condattr_t *a) {
  visible(MISC, foot(cv), cv, 0, 0, false, "cond_init");
  for (int i = 0; i < g_ncv; i++) if (g_cv[i].addr == cv && g_cv[i].alive) g_cv[i].alive = false;
  if (g_ncv >= 32) { fprintf(stderr, "vt: too many conditions\n"); _exit(3); }
  VCond &v = g_cv[g_ncv++];
  memset(&v, 0, sizeof v);
  v.addr = cv; v.alive = true;
  clockid_t k = CLOCK_REALTIME;
  if (a) pthread_condattr_getclock(a, &k);
  v.clk = k;
  access(cv, sizeof *cv, true, false, "cond_init");
  memset((void *)cv, kCFill, sizeof *cv);
  return 0;
}
int vt_pthread_cond_destroy(pthread_cond_t *cv) {
  visible(MISC, foot(cv), cv, 0, 0, false, "cond_destroy");
  VCond *v = find_cond(cv, "destroy");
  if (v->nw) die("destroy-waited", "a condition is destroyed while a thread waits on it");
  v->alive = false;
  memset((void *)cv, 0xdd, sizeof *cv);
  return 0;
}
int vt_pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m) {
  visible(WAIT, foot(cv, 1, m, 1), cv, m);
  return g_f[g_cur].op.rc;
}
static const vt_ns kMonoOffset = (vt_ns)777 * 1000000000 + 123456000;
static int vt_timedwait_on(pthread_cond_t *cv, pthread_mutex_t *m, const struct timespec *ts, int clk) {
  access(const_cast<struct timespec *>(ts), sizeof *ts, false, false, "timedwait deadline");
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000 ) { visible(MISC, foot(), 0, 0, 0, false, "timedwait(EINVAL)"); return EINVAL; }
  vt_ns d = (vt_ns)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (clk == CLOCK_MONOTONIC) d += kMonoOffset;
  visible(WAIT, foot(cv, 1, m, 1, OBJ_CLOCK, 0), cv, m, d, true);
  return g_f[g_cur].op.rc;
}
int vt_pthread_cond_timedwait(pthread_cond_t *cv, pthread_mutex_t *m, const struct timespec *ts) {
  VCond *v = find_cond(cv, "timedwait");
  return vt_timedwait_on(cv, m, ts, v->clk);
}
int vt_pthread_cond_clockwait(pthread_cond_t *cv, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return vt_timedwait_on(cv, m, ts, k); }
int vt_pthread_cond_signal(pthread_cond_t *cv) { visible(SIGNAL, foot(cv), cv); return 0; }
int vt_pthread_cond_broadcast(pthread_cond_t *cv) { visible(BROADCAST, foot(cv), cv); return 0; }

int vt_pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  visible(CREATE, foot(OBJ_THREADS, 1, g_o.create_fail ? OBJ_BUDGET : 0, 1));
  if (g_f[g_cur].op.rc) return g_f[g_cur].op.rc;
  int id = new_fiber(fn, arg, true);
  if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); g_f[id].detached = ds == PTHREAD_CREATE_DETACHED; }
  access(out, sizeof *out, true, false, "pthread_create result");
  *out = kHandle + (unsigned long)id;
  return 0;
}
int vt_pthread_join(pthread_t t, void **ret) {
  visible(JOIN, foot(valid_thread(t) ? (void *)&g_f[fiber_of(t)] : (void *)OBJ_THREADS), (void *)t);
  if (ret) { access(ret, sizeof *ret, true, false, "pthread_join result"); *ret = g_f[fiber_of(t)].ret; }
  return 0;
}
int vt_pthread_detach(pthread_t t) {
  visible(MISC, foot(valid_thread(t) ? (void *)&g_f[fiber_of(t)] : (void *)OBJ_THREADS), 0, 0, 0, false, "detach");
  if (!valid_thread(t) || g_f[fiber_of(t)].joined) die("bad-detach", "detach of something that is not a joinable thread");
  g_f[fiber_of(t)].detached = true;
  return 0;
}
void vt_pthread_exit(void *r) {
  Fiber &f = g_f[g_cur];
  f.ret = r;
  for (int k = 0; k < kKeys; k++)
    if (g_keyused[k] && f.tlsgen[k] == g_keygen[k] && f.tls[k] && g_keydtor[k]) { void *v = f.tls[k]; f.tls[k] = 0; g_keydtor[k](v); }
  f.op.k = EXIT;
  f.op.fp = foot(&f);
  to_scheduler();
  abort();
}
pthread_t vt_pthread_self(void) { return kHandle + (unsigned long)g_cur; }
int vt_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int vt_pthread_setname_np(pthread_t t, const char *n) {
  if (!valid_thread(t) || g_f[fiber_of(t)].joined) die("bad-thread", "name given to something that is not a thread");
  if (strlen(n) > 15) return ERANGE;
  strcpy(g_f[fiber_of(t)].name, n);
  return 0;
}
int vt_pthread_getname_np(pthread_t t, char *b, size_t n) { snprintf(b, n, "%s", g_f[fiber_of(t)].name); return 0; }
int vt_pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
int vt_pthread_getschedparam(pthread_t, int *p, struct sched_param *s) { if (p) *p = SCHED_OTHER; if (s) memset(s, 0, sizeof *s); return 0; }
int vt_pthread_attr_init(pthread_attr_t *a) { return pthread_attr_init(a); }
int vt_pthread_attr_destroy(pthread_attr_t *a) { return pthread_attr_destroy(a); }
int vt_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { return pthread_attr_setstacksize(a, n); }
int vt_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { return pthread_attr_setdetachstate(a, d); }
int vt_pthread_mutexattr_init(pthread_mutexattr_t *a) { return pthread_mutexattr_init(a); }
int vt_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return pthread_mutexattr_destroy(a); }
int vt_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { return pthread_mutexattr_settype(a, t); }
int vt_pthread_condattr_init(pthread_condattr_t *a) { return pthread_condattr_init(a); }
int vt_pthread_condattr_destroy(pthread_condattr_t *a) { return pthread_condattr_destroy(a); }
int vt_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t k) { return pthread_condattr_setclock(a, k); }

int vt_pthread_key_create(pthread_key_t *k, void (*dtor)(void *)) {
  visible(KEYCREATE, foot(OBJ_KEYS, 1, g_o.create_fail ? OBJ_BUDGET : 0, 1));
  if (g_f[g_cur].op.rc) return g_f[g_cur].op.rc;
  for (int i = 0; i < kKeys; i++)
    if (!g_keyused[i]) { g_keyused[i] = true; g_keygen[i]++; g_keydtor[i] = dtor; access(k, sizeof *k, true, false, "pthread_key_create result"); *k = (pthread_key_t)i; return 0; }
  return EAGAIN;
}
int vt_pthread_key_delete(pthread_key_t k) {
  visible(MISC, foot(OBJ_KEYS), 0, 0, 0, false, "key_delete");
  if (k >= (unsigned)kKeys || !g_keyused[k]) die("bad-key", "a thread-local key that does not exist is deleted");
  g_keyused[k] = false;
  return 0;
}
int vt_pthread_setspecific(pthread_key_t k, const void *v) {
  visible(MISC, foot(OBJ_KEYS, 0), 0, 0, 0, false, "setspecific");
  if (k >= (unsigned)kKeys || !g_keyused[k]) die("bad-key", "a thread-local key that does not exist is set");
  g_f[g_cur].tls[k] = const_cast<void *>(v);
  g_f[g_cur].tlsgen[k] = g_keygen[k];
  return 0;
}
void *vt_pthread_getspecific(pthread_key_t k) {
  visible(MISC, foot(OBJ_KEYS, 0), 0, 0, 0, false, "getspecific");
  if (k >= (unsigned)kKeys || !g_keyused[k]) die("bad-key", "a thread-local key that does not exist is read");
  return g_f[g_cur].tlsgen[k] == g_keygen[k] ? g_f[g_cur].tls[k] : 0;
}
int vt_pthread_once(pthread_once_t *o, void (*fn)(void)) {
  visible(MISC, foot(o), 0, 0, 0, false, "once");
  if (*o == 0) { *o = 2; fn(); }
  return 0;
}
int vt_sched_yield(void) { if (g_cur) visible(YIELD, foot()); return 0; }
int vt_sched_get_priority_min(int) { return 1; }
int vt_sched_get_priority_max(int) { return 99; }

static Foot clock_foot() { return g_o.ticks > 0 ? foot(OBJ_CLOCK, 1) : foot(OBJ_CLOCK, 0); }
int vt_gettimeofday(struct timeval *tv, void *) {
  visible(CLOCKREAD, clock_foot(), 0, 0, 0, false, "gettimeofday");
  access(tv, sizeof *tv, true, false, "gettimeofday result");
  tv->tv_sec = (time_t)(g_now / 1000000000);
  tv->tv_usec = (suseconds_t)(g_now % 1000000000 / 1000);
  return 0;
}
time_t vt_time(time_t *t) {
  visible(CLOCKREAD, clock_foot(), 0, 0, 0, false, "time");
  time_t r = (time_t)(g_now / 1000000000);
  if (t) { access(t, sizeof *t, true, false, "time result"); *t = r; }
  return r;
}
int vt_clock_gettime(clockid_t k, struct timespec *ts) {
  visible(CLOCKREAD, clock_foot(), 0, 0, 0, false, "clock_gettime");
  vt_ns n = g_now - (k == CLOCK_REALTIME ? 0 : kMonoOffset);
  access(ts, sizeof *ts, true, false, "clock_gettime result");
  ts->tv_sec = (time_t)(n / 1000000000);
  ts->tv_nsec = (long)(n % 1000000000);
  return 0;
}
int vt_nanosleep(const struct timespec *req, struct timespec *rem) {
  access(const_cast<struct timespec *>(req), sizeof *req, false, false, "nanosleep argument");
  if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) { visible(MISC, foot(), 0, 0, 0, false, "nanosleep(EINVAL)"); errno = EINVAL; return -1; }
  visible(SLEEP, foot(OBJ_CLOCK, 1, g_o.eintr ? OBJ_BUDGET : 0, 1), 0, 0, (vt_ns)req->tv_sec * 1000000000 + req->tv_nsec);
  Op &o = g_f[g_cur].op;
  if (o.rc == EINTR) {
    if (rem) { access(rem, sizeof *rem, true, false, "nanosleep remainder"); rem->tv_sec = (time_t)(o.t / 1000000000); rem->tv_nsec = (long)(o.t % 1000000000); }
    errno = EINTR;
    return -1;
  }
  return 0;
}
int vt_clock_nanosleep(clockid_t k, int flags, const struct timespec *req, struct timespec *rem) {
  if (flags & TIMER_ABSTIME) {
    vt_ns d = (vt_ns)req->tv_sec * 1000000000 + req->tv_nsec - (g_now - (k == CLOCK_REALTIME ? 0 : kMonoOffset));
    visible(SLEEP, foot(OBJ_CLOCK, 1, g_o.eintr ? OBJ_BUDGET : 0, 1), 0, 0, d);
    return g_f[g_cur].op.rc;
  }
  int r = vt_nanosleep(req, rem);
  return r ? errno : 0;
}
int vt_usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return vt_nanosleep(&t, 0);
}
unsigned vt_sleep(unsigned s) {
  struct timespec t = {(time_t)s, 0}, r = {0, 0};
  if (vt_nanosleep(&t, &r)) return (unsigned)(r.tv_sec + (r.tv_nsec != 0));
  return 0;
}
void vt___assert_fail(const char *e, const char *, unsigned, const char *fn) { die("assertion", "assertion %s failed in %s", e, fn); }
void vt_abort(void) { die("abort", "abort() called"); }

// ThreadSanitizer's compiler interface
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define VT_ACC(n)                                                                           \
  void __tsan_read##n(void *p) { access(p, n, false, false, "plain"); }                     \
  void __tsan_write##n(void *p) { access(p, n, true, false, "plain"); }                     \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, "plain"); }           \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, "plain"); }           \
  void __tsan_read_write##n(void *p) { access(p, n, true, false, "plain"); }                \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, false, "plain"); }      \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, false, "volatile"); }         \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, false, "volatile"); }
VT_ACC(1) VT_ACC(2) VT_ACC(4) VT_ACC(8) VT_ACC(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, (unsigned)n, false, false, "range"); }
void __tsan_write_range(void *p, unsigned long n) { access(p, (unsigned)n, true, false, "range"); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, false, "vptr"); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false, "vptr"); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, (unsigned)n, false, false, "memcpy"); access(d, (unsigned)n, true, false, "memcpy"); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, (unsigned)n, false, false, "memmove"); access(d, (unsigned)n, true, false, "memmove"); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, unsigned long n) { access(d, (unsigned)n, true, false, "memset"); return memset(d, v, n); }

static bool mo_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool mo_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_point(void *p, unsigned n, bool write, const char *label) {
  visible(ATOMIC, foot(p, write), p, 0, 0, false, label);
  access(p, n, write, true, "atomic");
}
static void at_sync_load(void *p, int mo) { if (mo_acq(mo)) vc_join(g_f[g_cur].vc, atom_vc(p)); }
static void at_sync_store(void *p, int mo) { if (mo_rel(mo)) atom_vc(p) = g_f[g_cur].vc; else memset(&atom_vc(p), 0, sizeof(VC)); }
static void at_sync_rmw(void *p, int mo) {
  VC &o = atom_vc(p);
  if (mo_acq(mo)) vc_join(g_f[g_cur].vc, o);
  if (mo_rel(mo)) vc_join(o, g_f[g_cur].vc);
}
#define VT_RMW(B, T, NAME, EXPR)                                              \
  T __tsan_atomic##B##_##NAME(volatile T *p, T v, int mo) {                   \
    at_point((void *)p, B / 8, true, #NAME);                                  \
    T old = *p;                                                               \
    *p = (T)(EXPR);                                                           \
    at_sync_rmw((void *)p, mo);                                               \
    return old;                                                               \
  }
#define VT_ATOMIC(B, T)                                                       \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) {                    \
    at_point((void *)p, B / 8, false, "load");                                \
    at_sync_load((void *)p, mo);                                              \
    return *p;                                                                \
  }                                                                           \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) {                 \
    at_point((void *)p, B / 8, true, "store");                                \
    at_sync_store((void *)p, mo);                                             \
    *p = v;                                                                   \
  }                                                                           \
  VT_RMW(B, T, exchange, v) VT_RMW(B, T, fetch_add, old + v) VT_RMW(B, T, fetch_sub, old - v) VT_RMW(B, T, fetch_and, old & v)      \
  VT_RMW(B, T, fetch_or, old | v) VT_RMW(B, T, fetch_xor, old ^ v) VT_RMW(B, T, fetch_nand, ~(old & v))                             \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int mo, int) {                                                 \
    at_point((void *)p, B / 8, true, "cas");                                  \
    T old = *p;                                                               \
    if (old == c) *p = v, at_sync_rmw((void *)p, mo); else at_sync_load((void *)p, mo);                                             \
    return old;                                                               \
  }                                                                           \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {                                       \
    T old = __tsan_atomic##B##_compare_exchange_val(p, *c, v, mo, fmo);       \
    if (old == *c) return 1;                                                  \
    *c = old;                                                                 \
    return 0;                                                                 \
  }                                                                           \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {                                         \
    return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo);      \
  }
VT_ATOMIC(8, uint8_t) VT_ATOMIC(16, uint16_t) VT_ATOMIC(32, uint32_t) VT_ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  // a full fence: synchronises through one global object
  visible(ATOMIC, foot(OBJ_THREADS), 0, 0, 0, false, "fence");
  at_sync_rmw((void *)OBJ_THREADS, 5);
}
void __tsan_atomic_signal_fence(int) {}
}
}  // namespace vt
#endif
