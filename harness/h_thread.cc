// Model checking of src/nanothread.cc (the thread layer), see vt.hpp.
#include "vt.hpp"
#include "libs_thread.h"
#include <limits.h>
using mc::Chooser;

// ---------------------------------------------------------------------------
// Histories and linearizability
struct Rec {
  int thread, kind, arg, arg2;
  long res;
  int inv, resp;  // positions in the event order; resp < 0: never returned
};
static const int kMaxRec = 24;
static Rec g_rec[kMaxRec];
static int g_nrec, g_event;
static char HIST;

static int inv(int kind, int arg = 0, int arg2 = 0) {
  if (vt::g_cur) vt::visible(vt::POINT, vt::foot(&HIST, 0), 0, 0, 0, false, "call");
  int i = g_nrec++;
  if (i >= kMaxRec) { fprintf(stderr, "history too long\n"); _exit(3); }
  Rec &r = g_rec[i];
  r.thread = vt::self(); r.kind = kind; r.arg = arg; r.arg2 = arg2; r.res = 0; r.inv = g_event++; r.resp = -1;
  return i;
}
static void resp(int i, long res) {
  if (vt::g_cur) vt::visible(vt::POINT, vt::foot(&HIST, 1), 0, 0, 0, false, "return");
  g_rec[i].res = res;
  g_rec[i].resp = g_event++;
  if (vt::g_c->verbose) vt::g_c->log("  [thread %d: op %d(%d,%d) -> %ld]", g_rec[i].thread, g_rec[i].kind, g_rec[i].arg, g_rec[i].arg2, res);
}

// Model: struct with  bool apply(const Rec&)  and  bool final(). Pending operations
// may take effect (if Model::pending_may_act) or not.
template <class Model>
static bool lin(const Model &m, unsigned doneMask) {
  unsigned all = (1u << g_nrec) - 1;
  bool complete = true;
  for (int i = 0; i < g_nrec; i++)
    if (!(doneMask >> i & 1) && g_rec[i].resp >= 0) complete = false;
  if (complete && m.final_ok(doneMask)) return true;
  if (doneMask == all) return false;
  int first_resp = INT_MAX;  // the earliest response among the remaining operations
  for (int i = 0; i < g_nrec; i++)
    if (!(doneMask >> i & 1) && g_rec[i].resp >= 0 && g_rec[i].resp < first_resp) first_resp = g_rec[i].resp;
  for (int i = 0; i < g_nrec; i++) {
    if (doneMask >> i & 1) continue;
    if (g_rec[i].inv > first_resp) continue;
    if (g_rec[i].resp < 0) continue;
    Model n = m;
    if (!n.apply(g_rec[i])) continue;
    if (lin(n, doneMask | 1u << i)) return true;
  }
  return false;
}
static std::string hist_str() {
  std::string s;
  char b[120];
  for (int i = 0; i < g_nrec; i++) {
    snprintf(b, sizeof b, "%s%d:op%d(%d,%d)=%ld[%d,%d]", i ? " " : "", g_rec[i].thread, g_rec[i].kind, g_rec[i].arg, g_rec[i].arg2, g_rec[i].res, g_rec[i].inv, g_rec[i].resp);
    s += b;
  }
  return s;
}
// independent of the order in which unordered calls were made
static uint64_t hist_hash() {
  uint64_t sum = 0;
  uint64_t key[kMaxRec];
  int nth[64] = {0};
  for (int i = 0; i < g_nrec; i++) {
    const Rec &r = g_rec[i];
    key[i] = mc::mix(mc::mix(mc::mix(mc::mix(1, (uint64_t)r.thread * 64 + (uint64_t)nth[r.thread & 63]++), (uint64_t)r.kind * 10007u + (uint64_t)r.arg * 101u + (uint64_t)r.arg2), (uint64_t)r.res), r.resp >= 0);
    sum += key[i];
  }
  for (int i = 0; i < g_nrec; i++)
    for (int j = 0; j < g_nrec; j++)
      if (g_rec[i].resp >= 0 && g_rec[i].resp < g_rec[j].inv) sum += mc::mix(mc::mix(7, key[i]), key[j]);
  return sum;
}
static void hist_reset() { g_nrec = g_event = 0; }

static void *const PTR(long i) { return (void *)(uintptr_t)(0x1000 + i * 16); }

// ===========================================================================
#if PART == 1  // atomics
enum { A_LOAD, A_STORE5, A_INC, A_DEC, A_ADD, A_SUB, A_SWAP7, A_CAS0, A_CAS5, A_STORE0, A_NOPS };
static const int P_NOPS = 7;  // load, store x2, swap x2, cas x2

static int g_nt, g_len[3], g_prog[3][4];
static bool g_ptr;
static long g_base;  // added to every constant
static union { thread_atomic_int_t i; thread_atomic_ptr_t p; } g_at[3];

struct IntModel {
  unsigned v;
  unsigned want;
  bool final_ok(unsigned) const { return v == want; }
  bool apply(const Rec &r) {
    unsigned old = v, b = (unsigned)g_base;
    switch (r.kind) {
      case A_LOAD: break;
      case A_STORE5: v = b + 5; return true;
      case A_STORE0: v = 0; return true;
      case A_INC: v++; break;
      case A_DEC: v--; break;
      case A_ADD: v += (unsigned)r.arg; break;
      case A_SUB: v -= (unsigned)r.arg; break;
      case A_SWAP7: v = b + 7; break;
      case A_CAS0: if (v == b) v = b + 9; break;
      case A_CAS5: if (v == b + 5) v = b + 1; break;
    }
    return (unsigned)r.res == old;
  }
};
struct PtrModel {
  long v, want;
  bool final_ok(unsigned) const { return v == want; }
  bool apply(const Rec &r) {
    long old = v;
    switch (r.kind) {
      case 0: break;
      case 1: v = (long)PTR(5); return true;
      case 2: v = 0; return true;
      case 3: v = (long)PTR(7); break;
      case 4: v = 0; break;
      case 5: if (v == 0) v = (long)PTR(9); break;
      case 6: if (v == (long)PTR(5)) v = (long)PTR(1); break;
    }
    return r.res == old;
  }
};

static void do_int(int k) {
  thread_atomic_int_t *a = &g_at[1].i;
  int b = (int)g_base;
  int i = inv(k, k == A_ADD ? 2 : k == A_SUB ? 3 : 0);
  long r = 0;
  switch (k) {
    case A_LOAD: r = thread_atomic_int_load(a); break;
    case A_STORE5: thread_atomic_int_store(a, (int)((unsigned)b + 5)); break;
    case A_STORE0: thread_atomic_int_store(a, 0); break;
    case A_INC: r = thread_atomic_int_inc(a); break;
    case A_DEC: r = thread_atomic_int_dec(a); break;
    case A_ADD: r = thread_atomic_int_add(a, 2); break;
    case A_SUB: r = thread_atomic_int_sub(a, 3); break;
    case A_SWAP7: r = thread_atomic_int_swap(a, (int)((unsigned)b + 7)); break;
    case A_CAS0: r = thread_atomic_int_compare_and_swap(a, b, (int)((unsigned)b + 9)); break;
    case A_CAS5: r = thread_atomic_int_compare_and_swap(a, (int)((unsigned)b + 5), (int)((unsigned)b + 1)); break;
  }
  resp(i, r);
}
static void do_ptr(int k) {
  thread_atomic_ptr_t *a = &g_at[1].p;
  int i = inv(k);
  long r = 0;
  switch (k) {
    case 0: r = (long)thread_atomic_ptr_load(a); break;
    case 1: thread_atomic_ptr_store(a, PTR(5)); break;
    case 2: thread_atomic_ptr_store(a, 0); break;
    case 3: r = (long)thread_atomic_ptr_swap(a, PTR(7)); break;
    case 4: r = (long)thread_atomic_ptr_swap(a, 0); break;
    case 5: r = (long)thread_atomic_ptr_compare_and_swap(a, 0, PTR(9)); break;
    case 6: r = (long)thread_atomic_ptr_compare_and_swap(a, PTR(5), PTR(1)); break;
  }
  resp(i, r);
}
static void *atomic_thread(void *p) {
  long t = (long)p;
  for (int i = 0; i < g_len[t]; i++) g_ptr ? do_ptr(g_prog[t][i]) : do_int(g_prog[t][i]);
  return 0;
}
static void atomics(Chooser &c, bool ptr, int nt, int len, int nops, long base) {
  vt::Options o;
  vt::reset(c, o);
  hist_reset();
  g_ptr = ptr;
  g_nt = nt;
  g_base = base;
  long code[3] = {0, 0, 0};
  for (int t = 0; t < nt; t++) {
    g_len[t] = len;
    for (int i = 0; i < len; i++) { g_prog[t][i] = c.choose(nops); code[t] = code[t] * nops + g_prog[t][i]; }
    if (t && code[t] < code[t - 1]) throw mc::Prune();  // the threads are alike
  }
  memset((void *)g_at, 0x77, sizeof g_at);
  if (ptr) thread_atomic_ptr_store(&g_at[1].p, 0); else thread_atomic_int_store(&g_at[1].i, (int)base);
  for (long t = 0; t < nt; t++) vt::spawn(atomic_thread, (void *)t);
  MC_CHECK(vt::run(), "deadlock", "an atomic operation blocks");
  bool ok;
  long fin;
  if (ptr) {
    fin = (long)thread_atomic_ptr_load(&g_at[1].p);
    PtrModel m = {0, fin};
    ok = lin(m, 0);
  } else {
    fin = thread_atomic_int_load(&g_at[1].i);
    IntModel m = {(unsigned)(int)base, (unsigned)(int)fin};
    ok = lin(m, 0);
  }
  MC_CHECK(ok, ptr ? "ptr-not-atomic" : "int-not-atomic", "no order of the operations explains the results: start %ld, final %ld: %s", ptr ? 0 : base, fin, hist_str().c_str());
  // the neighbours are untouched
  for (size_t i = 0; i < sizeof g_at[0]; i++)
    MC_CHECK(((unsigned char *)&g_at[0])[i] == 0x77 && ((unsigned char *)&g_at[2])[i] == 0x77, "neighbour", "memory next to the atomic was changed");
  c.outcome(hist_hash());
  mc::nontrivial();
}
static void int_2x2(Chooser &c) { atomics(c, false, 2, 2, A_NOPS, 0); }
static void int_wrap(Chooser &c) { static const long b[4] = {INT_MAX, INT_MIN, INT_MAX - 6, -3}; atomics(c, false, 2, mc::thorough() ? 2 : 2, A_NOPS, b[c.choose(4)]); }
static void int_3x1(Chooser &c) { atomics(c, false, 3, 1, A_NOPS, 0); }
static void int_3x2(Chooser &c) { atomics(c, false, 3, 2, 3, 0); }
static void int_2x3(Chooser &c) { atomics(c, false, 2, 3, 6, 0); }
static void ptr_2x2(Chooser &c) { atomics(c, true, 2, 2, P_NOPS, 0); }
static void ptr_3x1(Chooser &c) { atomics(c, true, 3, 1, P_NOPS, 0); }
static void ptr_2x3(Chooser &c) { atomics(c, true, 2, 3, 5, 0); }

// Sequential use over the whole value range: every operation on every pair of interesting values.
static void int_values(uint64_t idx) {
  static const long V[] = {0, 1, -1, 2, -2, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 0x1234567, INT_MAX - 1, INT_MAX, INT_MIN, INT_MIN + 1, -1000000, 0x55555555, (int)0xAAAAAAAA};
  const int n = sizeof V / sizeof *V;
  int x = (int)V[idx % n], y = (int)V[idx / n % n];
  int op = (int)(idx / n / n);
  static Chooser dummy;
  vt::Options o;
  vt::reset(dummy, o);
  thread_atomic_int_t a;
  memset((void *)&a, 0x77, sizeof a);
  thread_atomic_int_store(&a, x);
  MC_CHECK(thread_atomic_int_load(&a) == x, "store", "store(%d) then load gives %d", x, thread_atomic_int_load(&a));
  int r = x, want = x;
  unsigned ux = (unsigned)x, uy = (unsigned)y;
  switch (op) {
    case 0: r = thread_atomic_int_add(&a, y); want = (int)(ux + uy); break;
    case 1: r = thread_atomic_int_sub(&a, y); want = (int)(ux - uy); break;
    case 2: r = thread_atomic_int_swap(&a, y); want = y; break;
    case 3: r = thread_atomic_int_compare_and_swap(&a, x, y); want = y; break;
    case 4: r = thread_atomic_int_compare_and_swap(&a, y, 77); want = x == y ? 77 : x; break;
    case 5: r = thread_atomic_int_inc(&a); want = (int)(ux + 1); break;
    case 6: r = thread_atomic_int_dec(&a); want = (int)(ux - 1); break;
    case 7: thread_atomic_int_store(&a, y); want = y; break;
    case 8: thread_atomic_int_add(&a, y); r = thread_atomic_int_compare_and_swap(&a, (int)(ux + uy), 5); MC_CHECK(r == (int)(ux + uy), "value", "add then cas returns %d", r); r = x; want = 5; break;
    case 9: thread_atomic_int_sub(&a, y); r = thread_atomic_int_compare_and_swap(&a, (int)(ux - uy), 5); MC_CHECK(r == (int)(ux - uy), "value", "sub then cas returns %d", r); r = x; want = 5; break;
  }
  MC_CHECK(r == x, "return", "operation %d on %d with %d returns %d instead of the old value", op, x, y, r);
  int l = thread_atomic_int_load(&a);
  MC_CHECK(l == want, "value", "operation %d on %d with %d leaves %d instead of %d", op, x, y, l, want);
  // what load returns is the value that compare-and-swap compares with
  int q = thread_atomic_int_compare_and_swap(&a, l, 12345);
  MC_CHECK(q == l && thread_atomic_int_load(&a) == 12345, "cas-after", "operation %d on %d with %d: compare_and_swap(load(), ...) does not replace the value", op, x, y);
  mc::nontrivial();
}
// The same for pointers.
static void ptr_values(uint64_t idx) {
  static const uintptr_t V[] = {0, 1, 2, 8, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x1000000000000ull, 0x7fff00001000ull,
    0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffff00000000ull, 0xffffffff80000000ull, 0xffffffffffffffffull, 0x123456789abcdef0ull, 0x5555555555555555ull};
  const int n = sizeof V / sizeof *V;
  void *x = (void *)V[idx % n], *y = (void *)V[idx / n % n];
  int op = (int)(idx / n / n);
  static Chooser dummy;
  vt::Options o;
  vt::reset(dummy, o);
  struct { char pre[16]; thread_atomic_ptr_t a; char post[16]; } z;
  memset((void *)&z, 0x77, sizeof z);
  thread_atomic_ptr_store(&z.a, x);
  MC_CHECK(thread_atomic_ptr_load(&z.a) == x, "store", "store(%p) then load gives %p", x, thread_atomic_ptr_load(&z.a));
  void *r = x, *want = y;
  switch (op) {
    case 0: r = thread_atomic_ptr_swap(&z.a, y); break;
    case 1: r = thread_atomic_ptr_compare_and_swap(&z.a, x, y); break;
    case 2: r = thread_atomic_ptr_compare_and_swap(&z.a, y, &z); want = x == y ? (void *)&z : x; break;
    case 3: thread_atomic_ptr_store(&z.a, y); break;
  }
  MC_CHECK(r == x, "return", "operation %d on %p with %p returns %p instead of the old value", op, x, y, r);
  void *l = thread_atomic_ptr_load(&z.a);
  MC_CHECK(l == want, "value", "operation %d on %p with %p leaves %p instead of %p", op, x, y, l, want);
  for (int i = 0; i < 16; i++) MC_CHECK(z.pre[i] == 0x77 && z.post[i] == 0x77, "neighbour", "memory next to the atomic was changed");
  mc::nontrivial();
}
// What a thread did before an operation is visible to a thread that observes the operation.
static long g_data;
static int g_wop, g_rop;
static void *pub_writer(void *) {
  vt::data_write(&g_data, 8);
  g_data = 42;
  thread_atomic_int_t *a = &g_at[1].i;
  thread_atomic_ptr_t *q = &g_at[1].p;
  switch (g_wop) {
    case 0: thread_atomic_int_store(a, 5); break;
    case 1: thread_atomic_int_swap(a, 5); break;
    case 2: thread_atomic_int_inc(a); break;
    case 3: thread_atomic_int_dec(a); break;
    case 4: thread_atomic_int_add(a, 5); break;
    case 5: thread_atomic_int_sub(a, 5); break;
    case 6: thread_atomic_int_compare_and_swap(a, 0, 5); break;
    case 7: thread_atomic_ptr_store(q, PTR(5)); break;
    case 8: thread_atomic_ptr_swap(q, PTR(5)); break;
    case 9: thread_atomic_ptr_compare_and_swap(q, 0, PTR(5)); break;
  }
  return 0;
}
static void *pub_reader(void *) {
  thread_atomic_int_t *a = &g_at[1].i;
  thread_atomic_ptr_t *q = &g_at[1].p;
  bool seen = false;
  if (g_wop < 7) switch (g_rop) {
    case 0: seen = thread_atomic_int_load(a) != 0; break;
    case 1: seen = thread_atomic_int_swap(a, 77) != 0; break;
    case 2: seen = thread_atomic_int_inc(a) != 0; break;
    case 3: seen = thread_atomic_int_dec(a) != 0; break;
    case 4: seen = thread_atomic_int_add(a, 3) != 0; break;
    case 5: seen = thread_atomic_int_sub(a, 3) != 0; break;
    case 6: seen = thread_atomic_int_compare_and_swap(a, 5, 9) != 0; break;
  } else switch (g_rop) {
    case 0: case 3: case 4: case 5: case 6: seen = thread_atomic_ptr_load(q) != 0; break;
    case 1: seen = thread_atomic_ptr_swap(q, PTR(7)) != 0; break;
    case 2: seen = thread_atomic_ptr_compare_and_swap(q, PTR(5), PTR(7)) != 0; break;
  }
  if (seen) {
    vt::data_read(&g_data, 8);
    MC_CHECK(g_data == 42, "not-published", "data written before the operation is not seen by a thread that saw the operation");
  }
  return seen ? PTR(1) : 0;
}
static void publish(Chooser &c) {
  vt::Options o;
  vt::reset(c, o);
  g_data = 0;
  g_wop = c.choose(10);
  g_rop = c.choose(7);
  memset((void *)g_at, 0, sizeof g_at);
  if (g_wop >= 7) thread_atomic_ptr_store(&g_at[1].p, 0); else thread_atomic_int_store(&g_at[1].i, 0);
  vt::spawn(pub_writer, 0);
  vt::spawn(pub_reader, 0);
  MC_CHECK(vt::run(), "deadlock", "an atomic operation blocks");
  c.outcome((uint64_t)g_wop);
  mc::nontrivial();
}
static void setup() {
  mc::tree("int_3x1", int_3x1, "3 threads x 1 operation of 10, all interleavings", false);
  mc::tree("int_2x2", int_2x2, "2 threads x 2 operations of 10, all interleavings", false);
  mc::tree("int_wrap", int_wrap, "2 threads x 2 operations of 10 at four bases around the ends of the int range", false);
  mc::tree("ptr_3x1", ptr_3x1, "3 threads x 1 pointer operation of 7", false);
  mc::tree("ptr_2x2", ptr_2x2, "2 threads x 2 pointer operations of 7", false);
  mc::tree("publish", publish, "10 kinds of modification x 7 kinds of observation, data written before and read after, all interleavings", false);
  mc::range("ptr_values", ptr_values, 0, 22 * 22 * 4, "every pointer operation on every pair of 22 values");
  mc::range("int_values", int_values, 0, 23 * 23 * 10, "every operation on every pair of 23 boundary values");
  if (mc::thorough()) {
    mc::tree("int_2x3", int_2x3, "2 threads x 3 operations of 6", false);
    mc::tree("ptr_2x3", ptr_2x3, "2 threads x 3 pointer operations of 5", false);
    mc::tree("int_3x2", int_3x2, "3 threads x 2 operations of 3", false);
  }
}

// ===========================================================================
#elif PART == 2  // mutex
static struct Mtx { char pre[16]; thread_mutex_t m[3]; char post[16]; } M;
static int g_data[3], g_inside[3];
static int g_prog[4][6], g_len[4];
static void guard_init() { memset((void *)&M, 0x77, sizeof M); }
static void guard_check() {
  for (int i = 0; i < 16; i++) MC_CHECK(M.pre[i] == 0x77 && M.post[i] == 0x77, "neighbour", "memory next to the mutex was changed");
}
static void section(int k) {
  thread_mutex_lock(&M.m[k]);
  MC_CHECK(g_inside[k] == 0, "not-exclusive", "two threads are inside the same mutex");
  g_inside[k] = 1;
  vt::point("inside");
  vt::data_read(&g_data[k], 4);
  int d = g_data[k];
  vt::point("inside");
  vt::data_write(&g_data[k], 4);
  g_data[k] = d + 1;
  g_inside[k] = 0;
  thread_mutex_unlock(&M.m[k]);
}
static void *sections(void *p) {
  long t = (long)p;
  for (int i = 0; i < g_len[t]; i++) {
    int k = g_prog[t][i];
    if (k < 2) section(k);
    else {  // nested, always in the same order
      thread_mutex_lock(&M.m[0]);
      g_inside[0] == 0 ? (void)0 : mc::fail("not-exclusive", "two threads are inside the same mutex");
      g_inside[0] = 1;
      section(1);
      vt::data_write(&g_data[0], 4);
      g_data[0]++;
      g_inside[0] = 0;
      thread_mutex_unlock(&M.m[0]);
    }
  }
  return 0;
}
static void mutex_prog(Chooser &c, int nt, int len, bool por) {
  vt::Options o;
  o.por = por;
  vt::reset(c, o);
  guard_init();
  memset(g_data, 0, sizeof g_data);
  memset(g_inside, 0, sizeof g_inside);
  int want[2] = {0, 0};
  long code[4] = {0, 0, 0, 0};
  for (int t = 0; t < nt; t++) {
    g_len[t] = len;
    for (int i = 0; i < len; i++) {
      int k = g_prog[t][i] = c.choose(3);
      code[t] = code[t] * 3 + k;
      if (k != 1) want[0]++;
      if (k != 0) want[1]++;
    }
    if (t && code[t] < code[t - 1]) throw mc::Prune();
  }
  for (int i = 0; i < 2; i++) thread_mutex_init(&M.m[i]);
  for (long t = 0; t < nt; t++) vt::spawn(sections, (void *)t);
  MC_CHECK(vt::run(), "deadlock", "threads that only take locks in one order block forever");
  vt::check_no_lock_held();
  MC_CHECK(g_data[0] == want[0] && g_data[1] == want[1], "lost-update", "counters %d %d instead of %d %d", g_data[0], g_data[1], want[0], want[1]);
  for (int i = 0; i < 2; i++) {
    thread_mutex_lock(&M.m[i]);
    thread_mutex_unlock(&M.m[i]);
    thread_mutex_term(&M.m[i]);
    thread_mutex_init(&M.m[i]);  // the storage can be used again
    thread_mutex_lock(&M.m[i]);
    thread_mutex_unlock(&M.m[i]);
    thread_mutex_term(&M.m[i]);
  }
  guard_check();
  c.outcome((uint64_t)(g_data[0] * 100 + g_data[1]));
  mc::nontrivial();
}
static void m2x1(Chooser &c) { mutex_prog(c, 2, 1, false); }
static void m2x2(Chooser &c) { mutex_prog(c, 2, 2, true); }
static void m3x1(Chooser &c) { mutex_prog(c, 3, 1, true); }
static void m2x3(Chooser &c) { mutex_prog(c, 2, 3, true); }
static void m3x2(Chooser &c) { mutex_prog(c, 3, 2, true); }
static void m4x1(Chooser &c) { mutex_prog(c, 4, 1, true); }
// A lock that is held excludes; another mutex is independent of it.
static int g_reached[4];
static void *hold(void *p) { thread_mutex_lock(&M.m[(long)p]); g_reached[0] = 1; return 0; }
static void *other(void *p) { vt::point("go"); thread_mutex_lock(&M.m[(long)p]); g_reached[1] = 1; thread_mutex_unlock(&M.m[(long)p]); g_reached[1] = 2; return 0; }
static void *same(void *p) { thread_mutex_lock(&M.m[(long)p]); g_reached[2] = 1; thread_mutex_unlock(&M.m[(long)p]); g_reached[2] = 2; return 0; }
static void held(Chooser &c) {
  vt::Options o;
  o.por = false;
  vt::reset(c, o);
  guard_init();
  memset(g_reached, 0, sizeof g_reached);
  for (int i = 0; i < 3; i++) thread_mutex_init(&M.m[i]);
  long h = c.choose(3), q = (h + 1 + c.choose(2)) % 3;
  vt::spawn(hold, (void *)h);
  vt::spawn(other, (void *)q);
  vt::spawn(same, (void *)h);
  bool all = vt::run();
  MC_CHECK(g_reached[0] == 1, "blocked", "lock of a free mutex blocks");
  MC_CHECK(g_reached[1] == 2, "not-independent", "a mutex blocks although only another mutex is held");
  MC_CHECK(all == (g_reached[2] == 2), "blocked", "inconsistent end");
  MC_CHECK(g_reached[2] == 2 || g_reached[2] == 0, "blocked", "a thread that got the lock does not go on");
  c.outcome((uint64_t)(g_reached[2] * 10 + g_reached[1]));
  guard_check();
  mc::nontrivial();
}
static void setup() {
  mc::tree("held", held, "one thread keeps a lock, others use the same or another mutex; all interleavings", false);
  mc::tree("sections_2x1", m2x1, "2 threads x 1 critical section of 3 kinds, all interleavings", false);
  mc::tree("sections_2x2", m2x2, "2 threads x 2 sections (plain, other, nested), one interleaving per trace", false);
  mc::tree("sections_3x1", m3x1, "3 threads x 1 section, one interleaving per trace", false);
  mc::tree("sections_2x3", m2x3, "2 threads x 3 sections", false);
  mc::tree("sections_4x1", m4x1, "4 threads x 1 section", false);
  if (mc::thorough()) mc::tree("sections_3x2", m3x2, "3 threads x 2 sections", false);
}

// ===========================================================================
#elif PART == 3  // signal
static struct Sig { char pre[16]; thread_signal_t s[2]; char post[16]; } S;
static void guard_init() { memset((void *)&S, 0x77, sizeof S); }
static void guard_check() { for (int i = 0; i < 16; i++) MC_CHECK(S.pre[i] == 0x77 && S.post[i] == 0x77, "neighbour", "memory next to the signal was changed"); }
enum { RAISE, WAITOP };
static int g_nraise[3], g_nwait, g_to[4];
struct FlagModel {
  int v;
  bool need_clear;  // a wait is still blocked at the end
  bool final_ok(unsigned) const { return !need_clear || v == 0; }
  bool apply(const Rec &r) {
    if (r.kind == RAISE) { v = 1; return true; }
    if (r.res) { if (!v) return false; v = 0; return true; }
    return v == 0;
  }
};
static void *raiser(void *p) {
  for (int i = 0; i < g_nraise[(long)p]; i++) {
    int h = inv(RAISE);
    vt::data_write(&g_nraise[0] + 0, 0);
    thread_signal_raise(&S.s[0]);
    resp(h, 0);
  }
  return 0;
}
static int g_payload;
static void *waiter(void *) {
  for (int i = 0; i < g_nwait; i++) {
    int to = g_to[i];
    int h = inv(WAITOP, to);
    vt_ns t0 = to > 0 ? vt::clock_read() : 0;
    int r = thread_signal_wait(&S.s[0], to);
    if (!r) {
      MC_CHECK(to >= 0, "infinite-timeout", "a wait without timeout returns 0");
      if (to > 0) {
        vt_ns dt = vt::clock_read() - t0;
        MC_CHECK(dt >= (vt_ns)to * 1000000 - 1000, "early-timeout", "wait(%d ms) gives up after %lld us", to, (long long)(dt / 1000));
      }
    }
    resp(h, r != 0);
  }
  return 0;
}
// a new signal, and one nobody ever raised, are not raised
static void *afterwards(void *) {
  for (int i = 0; i < 2; i++) MC_CHECK(thread_signal_wait(&S.s[i], 0) == 0, "not-raised", "a signal nobody raised reports success");
  return 0;
}
static void signal_prog(Chooser &c, int raisers, int maxraise, int maxwait, int spurious, bool por, int nto = 3) {
  static const int T[3] = {THREAD_SIGNAL_WAIT_INFINITE, 0, 7};
  vt::Options o;
  o.por = por;
  o.spurious = spurious;
  vt::reset(c, o);
  hist_reset();
  guard_init();
  thread_signal_init(&S.s[0]);
  thread_signal_init(&S.s[1]);
  int total = 0;
  for (int t = 0; t < raisers; t++) total += g_nraise[t] = c.choose(maxraise + 1);
  g_nwait = 1 + c.choose(maxwait);
  for (int i = 0; i < g_nwait; i++) g_to[i] = T[c.choose(nto)];
  int before = c.choose(2);  // raised before anybody waits
  for (int i = 0; i < before; i++) { int h = inv(RAISE); thread_signal_raise(&S.s[0]); resp(h, 0); }
  for (long t = 0; t < raisers; t++) if (g_nraise[t]) vt::spawn(raiser, (void *)t);
  int w = vt::spawn(waiter, 0);
  bool all = vt::run();
  for (int t = 1; t < w; t++) MC_CHECK(vt::finished(t), "raise-blocks", "raise does not return");
  bool stuck = false;
  for (int i = 0; i < g_nrec; i++)
    if (g_rec[i].resp < 0) {
      stuck = true;
      MC_CHECK(g_rec[i].arg < 0, "timeout-ignored", "wait with timeout %d ms never returns", g_rec[i].arg);
    }
  MC_CHECK(all == !stuck, "blocked", "a thread is blocked outside the operations");
  FlagModel m = {0, stuck};
  MC_CHECK(lin(m, 0), stuck ? "lost-wakeup" : "not-a-flag", "the results are not those of a flag: %s", hist_str().c_str());
  if (all) {
    vt::check_no_lock_held();
    thread_signal_term(&S.s[0]);
    thread_signal_init(&S.s[0]);
    vt::spawn(afterwards, 0);
    MC_CHECK(vt::run(), "timeout-ignored", "wait(0) never returns");
    thread_signal_term(&S.s[0]);
    thread_signal_term(&S.s[1]);
  }
  guard_check();
  c.outcome(hist_hash());
  mc::nontrivial();
}
static void s1(Chooser &c) { signal_prog(c, 1, 1, 1, 1, false); }
static void s2(Chooser &c) { signal_prog(c, 1, 2, 2, 1, true); }
static void s3(Chooser &c) { signal_prog(c, 2, 1, 2, 1, true); }
static void s4(Chooser &c) { signal_prog(c, 1, 2, 3, 2, true); }
static void s5(Chooser &c) { signal_prog(c, 2, 2, 2, 0, true); }
static void s6(Chooser &c) { signal_prog(c, 3, 1, 2, 0, true, 2); }
// two signals, a waiter each, used by the same threads: they do not influence each other
struct Flags2 {
  int v[2];
  bool need_clear[2];
  bool final_ok(unsigned) const { for (int i = 0; i < 2; i++) if (need_clear[i] && v[i]) return false; return true; }
  bool apply(const Rec &r) {
    int i = r.kind >> 1;
    if ((r.kind & 1) == RAISE) { v[i] = 1; return true; }
    if (r.res) { if (!v[i]) return false; v[i] = 0; return true; }
    return v[i] == 0;
  }
};
static int g_act[2][3], g_nact;  // 0/1: raise signal i; 2: wait on the own signal
static void *pair_thread(void *p) {
  long t = (long)p;
  for (int i = 0; i < g_nact; i++) {
    int a = g_act[t][i];
    if (a < 2) {
      int h = inv(RAISE + 2 * a);
      thread_signal_raise(&S.s[a]);
      resp(h, 0);
    } else {
      int h = inv(WAITOP + 2 * (int)t, g_to[t]);
      int r = thread_signal_wait(&S.s[t], g_to[t]);
      if (!r) MC_CHECK(g_to[t] >= 0, "infinite-timeout", "a wait without timeout returns 0");
      resp(h, r != 0);
    }
  }
  return 0;
}
static void pair_prog(Chooser &c, int len) {
  static const int T[3] = {THREAD_SIGNAL_WAIT_INFINITE, 0, 7};
  vt::Options o;
  o.por = true;
  vt::reset(c, o);
  hist_reset();
  guard_init();
  for (int i = 0; i < 2; i++) thread_signal_init(&S.s[i]);
  g_nact = len;
  for (int t = 0; t < 2; t++) {
    g_to[t] = T[c.choose(3)];
    for (int i = 0; i < len; i++) g_act[t][i] = c.choose(3);
  }
  for (long t = 0; t < 2; t++) vt::spawn(pair_thread, (void *)t);
  bool all = vt::run(), stuck[2] = {false, false};
  for (int i = 0; i < g_nrec; i++)
    if (g_rec[i].resp < 0) {
      stuck[g_rec[i].kind >> 1] = true;
      MC_CHECK((g_rec[i].kind & 1) == WAITOP, "raise-blocks", "raise does not return");
      MC_CHECK(g_rec[i].arg < 0, "timeout-ignored", "wait with timeout %d ms never returns", g_rec[i].arg);
    }
  MC_CHECK(all == (!stuck[0] && !stuck[1]), "blocked", "a thread is blocked outside the operations");
  Flags2 m = {{0, 0}, {stuck[0], stuck[1]}};
  MC_CHECK(lin(m, 0), all ? "not-a-flag" : "lost-wakeup", "the results are not those of two flags: %s", hist_str().c_str());
  if (all) {
    vt::check_no_lock_held();
    for (int i = 0; i < 2; i++) thread_signal_term(&S.s[i]);
  }
  guard_check();
  c.outcome(hist_hash());
  mc::nontrivial();
}
static void p2(Chooser &c) { pair_prog(c, 2); }
static void p3(Chooser &c) { pair_prog(c, 3); }
// Data written before raise is visible after wait.
static int g_go;
static void *pub(void *) { vt::data_write(&g_payload, 4); g_payload = 42; thread_signal_raise(&S.s[0]); return 0; }
static void *sub(void *) {
  int r = thread_signal_wait(&S.s[0], g_go);
  if (r) { vt::data_read(&g_payload, 4); MC_CHECK(g_payload == 42, "not-published", "wait returned before the data was written"); }
  return 0;
}
static void publish(Chooser &c) {
  vt::Options o;
  o.spurious = 2;
  vt::reset(c, o);
  guard_init();
  g_payload = 0;
  g_go = c.choose(2) ? 5 : -1;
  thread_signal_init(&S.s[0]);
  vt::spawn(pub, 0);
  vt::spawn(sub, 0);
  MC_CHECK(vt::run(), "lost-wakeup", "wait blocks although the signal was raised");
  thread_signal_term(&S.s[0]);
  guard_check();
  mc::nontrivial();
}
// How long a wait lasts when nobody raises, for every position of the clock within its second.
static int g_ms, g_ret;
static vt_ns g_dt;
static void *lone(void *) {
  vt_ns t0 = vt::clock_now();
  g_ret = thread_signal_wait(&S.s[0], g_ms);
  g_dt = vt::clock_now() - t0;
  return 0;
}
static void duration(Chooser &c) {
  static const int MS[] = {0, 1, 2, 7, 999, 1000, 1001, 1500, 1999, 2000, 59999, 60000, 3600001, 86400000, INT_MAX - 1, INT_MAX};
  static const long US[] = {0, 1, 500, 999, 1000, 499999, 500000, 998999, 999000, 999001, 999998, 999999};
  vt::Options o;
  o.start = (vt_ns)1700000000 * 1000000000 + (vt_ns)US[c.choose(12)] * 1000;
  o.ticks = 1 + c.choose(2);
  o.tick_ns = 1000;
  vt::reset(c, o);
  guard_init();
  int raised = c.choose(2);
  g_ms = MS[c.choose(16)];
  thread_signal_init(&S.s[0]);
  if (raised) thread_signal_raise(&S.s[0]);
  vt::spawn(lone, 0);
  MC_CHECK(vt::run(), "timeout-ignored", "wait(%d ms) never returns", g_ms);
  if (raised) {
    MC_CHECK(g_ret != 0, "raised", "wait(%d ms) returns 0 although the signal was raised before", g_ms);
    MC_CHECK(g_dt <= 2000, "slow", "wait sleeps although the signal was raised");
  } else {
    MC_CHECK(g_ret == 0, "not-raised", "wait(%d ms) reports a signal nobody raised", g_ms);
    MC_CHECK(g_dt >= (vt_ns)g_ms * 1000000 - 1000, "early-timeout", "wait(%d ms) gives up after %lld us", g_ms, (long long)(g_dt / 1000));
    MC_CHECK(g_dt <= (vt_ns)g_ms * 1000000 + 2002000, "late-timeout", "wait(%d ms) lasts %lld us", g_ms, (long long)(g_dt / 1000));
  }
  thread_signal_term(&S.s[0]);
  guard_check();
  c.outcome((uint64_t)g_ret);
  mc::nontrivial();
}
static void setup() {
  mc::tree("duration", duration, "16 timeouts x 12 positions in the second x clock ticks, raised or not", false);
  mc::tree("publish", publish, "1 raiser, 1 waiter, 2 spurious wakeups", false);
  mc::tree("flag_1x1", s1, "<=1 raise, 1 wait (infinite, 0 or 7 ms), 1 spurious wakeup, all interleavings", false);
  mc::tree("flag_1x2", s2, "1 raiser x <=2, <=2 waits, 1 spurious wakeup, one interleaving per trace", false);
  mc::tree("flag_2x2", s3, "2 raisers x <=1, <=2 waits, 1 spurious wakeup", false);
  mc::tree("two_signals", p2, "2 threads x 2 operations: raise either of two signals or wait on the own one (infinite, 0, 7 ms)", false);
  if (mc::thorough()) mc::tree("two_signals3", p3, "2 threads x 3 operations on two signals", false);
  if (mc::thorough()) {
    mc::tree("flag_1x3", s4, "1 raiser x <=2, <=3 waits, 2 spurious wakeups", false);
    mc::tree("flag_3x2", s6, "3 raisers x <=1, <=2 waits (infinite or 0)", false);
    mc::tree("flag_2x2x2", s5, "2 raisers x <=2, <=2 waits", false);
  }
}

// ===========================================================================
#elif PART == 4  // queue
static struct Q { char pre[16]; thread_queue_t q; char post[16]; } Z;
static void *g_slots[8];
static long g_pay[16];
enum { PROD, CONS, COUNT };
static int g_np, g_nc, g_ptime[6], g_ctime[6], g_size, g_init, g_countbefore;
struct FifoModel {
  int n, v[12];
  int stuck_p, stuck_c;
  bool final_ok(unsigned) const { return (!stuck_p || n == g_size) && (!stuck_c || n == 0); }
  bool apply(const Rec &r) {
    if (r.kind == PROD) {
      if (r.res) { if (n == g_size) return false; v[n++] = r.arg; return true; }
      return n == g_size;
    }
    if (r.kind == CONS) {
      if (r.res == 0) return n == 0;
      if (n == 0 || v[0] != (int)r.res) return false;
      for (int i = 1; i < n; i++) v[i - 1] = v[i];
      n--;
      return true;
    }
    return r.res == n;
  }
};
static void timeout_check(const char *what, int to, vt_ns dt) {
  MC_CHECK(to >= 0, "infinite-timeout", "%s without timeout gives up", what);
  MC_CHECK(dt >= (vt_ns)to * 1000000 - 1000, "early-timeout", "%s(%d ms) gives up after %lld us", what, to, (long long)(dt / 1000));
}
static void do_count() { int h = inv(COUNT); int n = thread_queue_count(&Z.q); resp(h, n); }
static void *producer(void *) {
  for (int i = 0; i < g_np; i++) {
    int to = g_ptime[i], id = g_init + i + 1;
    vt::data_write(&g_pay[id], 8);
    g_pay[id] = id * 111;
    int h = inv(PROD, id, to);
    vt_ns t0 = to > 0 ? vt::clock_read() : 0;
    int r = thread_queue_produce(&Z.q, &g_pay[id], to);
    if (!r) timeout_check("produce", to, to > 0 ? vt::clock_read() - t0 : 0);
    resp(h, r != 0);
    if (g_countbefore == 1 && i == 0) do_count();
  }
  return 0;
}
static void *consumer(void *) {
  for (int i = 0; i < g_nc; i++) {
    int to = g_ctime[i];
    int h = inv(CONS, to);
    vt_ns t0 = to > 0 ? vt::clock_read() : 0;
    long *v = (long *)thread_queue_consume(&Z.q, to);
    long id = 0;
    if (!v) timeout_check("consume", to, to > 0 ? vt::clock_read() - t0 : 0);
    else {
      MC_CHECK(v >= &g_pay[1] && v <= &g_pay[15] && ((char *)v - (char *)g_pay) % sizeof(long) == 0, "invented", "consume returns a pointer nobody produced");
      id = v - g_pay;
      vt::data_read(v, 8);
      MC_CHECK(*v == id * 111, "not-published", "the consumed element is not completely written");
    }
    resp(h, id);
    if (g_countbefore == 2 && i == 0) do_count();
  }
  return 0;
}
static void *counter(void *) { do_count(); return 0; }
static void queue_run(Chooser &c) {
  memset((void *)&Z, 0x77, sizeof Z);
  for (int i = 0; i < 8; i++) g_slots[i] = (void *)0x5555;
  for (int i = 0; i < 16; i++) g_pay[i] = -1;
  for (int i = 1; i <= g_init; i++) { g_pay[i] = i * 111; g_slots[2 + i - 1] = &g_pay[i]; }
  thread_queue_init(&Z.q, g_size, &g_slots[2], g_init);
  MC_CHECK(thread_queue_count(&Z.q) == g_init, "count", "a queue initialised with %d elements has count %d", g_init, thread_queue_count(&Z.q));
  int p = g_np ? vt::spawn(producer, 0) : 0, k = g_nc ? vt::spawn(consumer, 0) : 0;
  if (g_countbefore == 3) vt::spawn(counter, 0);
  bool all = vt::run();
  FifoModel m;
  m.n = g_init;
  for (int i = 0; i < g_init; i++) m.v[i] = i + 1;
  m.stuck_p = p && !vt::finished(p);
  m.stuck_c = k && !vt::finished(k);
  for (int i = 0; i < g_nrec; i++)
    if (g_rec[i].resp < 0) {
      int to = g_rec[i].kind == PROD ? g_rec[i].arg2 : g_rec[i].arg;
      MC_CHECK(g_rec[i].kind != COUNT && to < 0, "timeout-ignored", "%s with timeout %d ms never returns", g_rec[i].kind == PROD ? "produce" : "consume", to);
    }
  MC_CHECK(!(m.stuck_p && m.stuck_c), "deadlock", "producer and consumer block each other: %s", hist_str().c_str());
  MC_CHECK(lin(m, 0), m.stuck_p || m.stuck_c ? "lost-wakeup" : "not-fifo", "size %d, initially %d: the results are not those of a bounded FIFO: %s", g_size, g_init, hist_str().c_str());
  for (int i = 0; i < 8; i++)
    if (i < 2 || i >= 2 + g_size) MC_CHECK(g_slots[i] == (void *)0x5555, "outside", "a slot outside the array is written");
  if (all) {
    vt::check_no_lock_held();
    thread_queue_term(&Z.q);
  }
  for (int i = 0; i < 16; i++) MC_CHECK(Z.pre[i] == 0x77 && Z.post[i] == 0x77, "neighbour", "memory next to the queue was changed");
  c.outcome(hist_hash());
  mc::nontrivial();
}
static void queue_prog(Chooser &c, int maxsize, int np, int nc, bool por, int spurious, int nto) {
  static const int T[3] = {THREAD_QUEUE_WAIT_INFINITE, 0, 7};
  vt::Options o;
  o.por = por;
  o.spurious = spurious;
  vt::reset(c, o);
  hist_reset();
  g_size = 1 + c.choose(maxsize);
  g_init = c.choose(g_size + 1);
  g_np = np;
  g_nc = nc;
  for (int i = 0; i < np; i++) g_ptime[i] = T[c.choose(nto)];
  for (int i = 0; i < nc; i++) g_ctime[i] = T[c.choose(nto)];
  g_countbefore = 0;
  queue_run(c);
}
static void q11(Chooser &c) { queue_prog(c, 2, 1, 1, true, 1, 3); }
static void q21(Chooser &c) { queue_prog(c, 2, 2, 1, true, 0, 3); }
static void q12(Chooser &c) { queue_prog(c, 2, 1, 2, true, 0, 3); }
static void q22(Chooser &c) { queue_prog(c, 2, 2, 2, true, 0, 3); }
static void q33(Chooser &c) { queue_prog(c, 2, 3, 3, true, 0, 1); }
static void q22s(Chooser &c) { queue_prog(c, 3, 2, 2, true, 1, 3); }
static void q23(Chooser &c) { queue_prog(c, 2, 2, 3, true, 0, 3); }
static void q32(Chooser &c) { queue_prog(c, 2, 3, 2, true, 0, 3); }
static void q44(Chooser &c) { queue_prog(c, 2, 4, 3, true, 0, 1); }
static void qcount(Chooser &c) {
  vt::Options o;
  vt::reset(c, o);
  hist_reset();
  g_size = 1 + c.choose(2);
  g_init = c.choose(g_size + 1);
  g_np = 1; g_nc = 1;
  g_ptime[0] = 0; g_ctime[0] = 0;
  g_countbefore = 1 + c.choose(3);
  queue_run(c);
}
// Two queues between the same two threads, one in each direction.
static struct Z2_ { char pre[16]; thread_queue_t q[2]; char post[16]; } Z2;
static void *g_slots2[2][4];
static int g_pipeop[2][4], g_pipelen;
static void *pipe_thread(void *p) {
  long t = (long)p;
  int made = 0, got = 0;
  for (int i = 0; i < g_pipelen; i++) {
    int op = g_pipeop[t][i], to = op >> 1 ? 7 : THREAD_QUEUE_WAIT_INFINITE;
    if (!(op & 1)) {
      int id = (int)t * 8 + made;
      vt::data_write(&g_pay[id], 8);
      g_pay[id] = id * 111;
      int r = thread_queue_produce(&Z2.q[t], &g_pay[id], to);
      if (!r) MC_CHECK(to >= 0, "infinite-timeout", "produce without timeout gives up"); else made++;
    } else {
      long *v = (long *)thread_queue_consume(&Z2.q[1 - t], to);
      if (!v) { MC_CHECK(to >= 0, "infinite-timeout", "consume without timeout gives up"); continue; }
      int id = (int)(1 - t) * 8 + got++;
      MC_CHECK(v == &g_pay[id], "not-fifo", "consume returns an element other than the next one of this queue");
      vt::data_read(v, 8);
      MC_CHECK(*v == id * 111, "not-published", "the consumed element is not completely written");
    }
  }
  return 0;
}
static void pipes(Chooser &c) {
  vt::Options o;
  o.por = true;
  vt::reset(c, o);
  memset((void *)&Z2, 0x77, sizeof Z2);
  for (int q = 0; q < 2; q++) for (int i = 0; i < 4; i++) g_slots2[q][i] = (void *)0x5555;
  for (int i = 0; i < 16; i++) g_pay[i] = -1;
  int size[2] = {1 + c.choose(2), 1};
  g_pipelen = mc::thorough() ? 3 : 2;
  for (int t = 0; t < 2; t++) for (int i = 0; i < g_pipelen; i++) g_pipeop[t][i] = c.choose(i == 0 ? 4 : 2) ^ (t && i == 0);
  for (int q = 0; q < 2; q++) thread_queue_init(&Z2.q[q], size[q], &g_slots2[q][1], 0);
  for (long t = 0; t < 2; t++) vt::spawn(pipe_thread, (void *)t);
  // blocking forever is legal here exactly if somebody waits for what nobody does; other scenarios judge that
  bool all = vt::run();
  for (int q = 0; q < 2; q++) {
    MC_CHECK(g_slots2[q][0] == (void *)0x5555 && g_slots2[q][3] == (void *)0x5555 && (size[q] == 2 || g_slots2[q][2] == (void *)0x5555), "outside", "a slot outside the array is written");
    if (all) thread_queue_term(&Z2.q[q]);
  }
  if (all) vt::check_no_lock_held();
  for (int i = 0; i < 16; i++) MC_CHECK(Z2.pre[i] == 0x77 && Z2.post[i] == 0x77, "neighbour", "memory next to the queues was changed");
  c.outcome((uint64_t)all);
  mc::nontrivial();
}
// One thread alone: every sequence of produce/consume/count with timeout 0 or 3 ms up to a depth.
static int g_seq[16], g_seqlen;
static void *alone(void *) {
  FifoModel m;
  m.n = g_init; m.stuck_p = m.stuck_c = 0;
  for (int i = 0; i < g_init; i++) m.v[i] = i + 1;
  int next = g_init + 1;
  for (int i = 0; i < g_seqlen; i++) {
    int op = g_seq[i], to = op & 1 ? 3 : 0;
    vt_ns t0 = vt::clock_now();
    if (op < 2) {
      int id = (next - 1) % 15 + 1;
      g_pay[id] = id * 111;
      int r = thread_queue_produce(&Z.q, &g_pay[id], to);
      vt_ns dt = vt::clock_now() - t0;
      bool full = m.n == g_size;
      MC_CHECK((r != 0) == !full, "produce", "produce(timeout %d) on a queue with %d of %d elements returns %d", to, m.n, g_size, r);
      if (full) { MC_CHECK(dt >= (vt_ns)to * 1000000 - 1000, "early-timeout", "produce(%d ms) gives up after %lld us", to, (long long)(dt / 1000)); }
      else { m.v[m.n++] = id; next++; MC_CHECK(dt < 1000000, "slow", "produce into a queue with room sleeps"); }
    } else if (op < 4) {
      long *v = (long *)thread_queue_consume(&Z.q, to);
      vt_ns dt = vt::clock_now() - t0;
      long id = v ? v - g_pay : 0;
      if (m.n == 0) {
        MC_CHECK(!v, "consume", "consume(timeout %d) on an empty queue returns element %ld", to, id);
        MC_CHECK(dt >= (vt_ns)to * 1000000 - 1000, "early-timeout", "consume(%d ms) gives up after %lld us", to, (long long)(dt / 1000));
      } else {
        MC_CHECK(v && id == m.v[0], "consume", "consume returns element %ld instead of %d", id, m.v[0]);
        for (int j = 1; j < m.n; j++) m.v[j - 1] = m.v[j];
        m.n--;
        MC_CHECK(dt < 1000000, "slow", "consume from a queue with elements sleeps");
      }
    }
    int n = thread_queue_count(&Z.q);
    MC_CHECK(n == m.n, "count", "count is %d instead of %d", n, m.n);
  }
  for (int i = 0; i < 8; i++) if (i < 2 || i >= 2 + g_size) MC_CHECK(g_slots[i] == (void *)0x5555, "outside", "a slot outside the array is written");
  vt::g_c->outcome((uint64_t)m.n);
  return 0;
}
static void qseq(Chooser &c, int depth) {
  vt::Options o;
  vt::reset(c, o);
  g_size = 1 + c.choose(3);
  g_init = c.choose(g_size + 2);  // one more than fits: the rest is ignored
  g_seqlen = depth;
  for (int i = 0; i < depth; i++) g_seq[i] = c.choose(4);
  memset((void *)&Z, 0x77, sizeof Z);
  for (int i = 0; i < 8; i++) g_slots[i] = (void *)0x5555;
  for (int i = 1; i <= g_init && i <= g_size; i++) { g_pay[i] = i * 111; g_slots[2 + i - 1] = &g_pay[i]; }
  thread_queue_init(&Z.q, g_size, &g_slots[2], g_init);
  if (g_init > g_size) g_init = g_size;
  MC_CHECK(thread_queue_count(&Z.q) == g_init, "count", "initial count is %d instead of %d", thread_queue_count(&Z.q), g_init);
  vt::spawn(alone, 0);
  MC_CHECK(vt::run(), "timeout-ignored", "an operation with a timeout never returns");
  thread_queue_term(&Z.q);
  mc::nontrivial();
}
static void qseq_q(Chooser &c) { qseq(c, mc::thorough() ? 9 : 7); }
static void setup() {
  mc::tree("sequences", qseq_q, "one thread, sizes 1-3, every sequence of produce/consume with timeout 0 or 3 ms (depth 7; thorough 9)", false);
  mc::tree("count", qcount, "1 produce, 1 consume, count from either side or a third thread", false);
  mc::tree("pipes", pipes, "2 threads, a queue in each direction (sizes 1-2, 1), 2 (thorough 3) operations each: produce or consume, the first one timed or not", false);
  mc::tree("queue_1x1", q11, "sizes 1-2, any initial fill, 1 produce, 1 consume, timeouts {infinite,0,7ms}, 1 spurious wakeup", false);
  mc::tree("queue_2x1", q21, "sizes 1-2, 2 produce, 1 consume, timeouts {infinite,0,7ms}", false);
  mc::tree("queue_1x2", q12, "sizes 1-2, 1 produce, 2 consume, timeouts {infinite,0,7ms}", false);
  mc::tree("queue_3x3", q33, "sizes 1-2, 3 produce, 3 consume, infinite", false);
  mc::tree("queue_2x2", q22, "sizes 1-2, 2 produce, 2 consume, timeouts {infinite,0,7ms}", false);
#ifndef NDEBUG
  if (mc::thorough()) {
    mc::tree("queue_2x2s", q22s, "sizes 1-3, 2 produce, 2 consume, 1 spurious wakeup", false);
    mc::tree("queue_2x3", q23, "sizes 1-2, 2 produce, 3 consume", false);
    mc::tree("queue_3x2", q32, "sizes 1-2, 3 produce, 2 consume", false);
    mc::tree("queue_4x3", q44, "sizes 1-2, 4 produce, 3 consume, infinite", false);
  }
#endif
}

// ===========================================================================
#elif PART == 5  // threads
static int g_mode[3], g_code[3], g_n, g_rets[3], g_self[3], g_who[3];
static long g_in[3], g_out[3];
static thread_id_t g_ids[3];
static const char *g_nm;
static void nested(int code) { thread_exit(code); }
static int proc(void *p) {
  long i = (long *)p - g_in;
  MC_CHECK(i >= 0 && i < 3, "user-data", "the thread procedure gets a wrong user_data pointer");
  vt::data_read(&g_in[i], 8);
  MC_CHECK(g_in[i] == 1000 + i, "user-data", "data written before thread_create is not seen");
  g_ids[i] = thread_current_thread_id();
  g_who[i]++;
  vt::point("work");
  MC_CHECK(thread_current_thread_id() == g_ids[i], "thread-id", "the identifier of a running thread changes");
  vt::data_write(&g_out[i], 8);
  g_out[i] = 2000 + i;
  if (g_mode[i] == 1) thread_exit(g_code[i]);
  if (g_mode[i] == 2) nested(g_code[i]);
  if (g_mode[i] == 3) { thread_yield(); thread_set_high_priority(); }
  return g_code[i];
}
static int g_order, g_kill;
static void *creator(void *) {
  thread_ptr_t h[3];
  thread_id_t me = thread_current_thread_id();
  for (int i = 0; i < g_n; i++) {
    vt::data_write(&g_in[i], 8);
    g_in[i] = 1000 + i;
    h[i] = thread_create(proc, &g_in[i], g_nm, i == 1 ? 65536 : THREAD_STACK_SIZE_DEFAULT);
    g_self[i] = h[i] != 0;
  }
  for (int q = 0; q < g_n; q++) {
    int i = g_order ? g_n - 1 - q : q;
    if (!h[i]) { vt::point("failed"); MC_CHECK(g_who[i] == 0, "create-null", "thread_create returned NULL but the procedure ran"); continue; }
    if (g_kill & (1 << i)) {
      thread_destroy(h[i]);
    } else {
      int r = thread_join(h[i]);
      MC_CHECK(r == g_code[i], "return-code", "thread_join returns %d instead of %d", r, g_code[i]);
    }
    MC_CHECK(g_who[i] == 1, "runs-once", "the procedure ran %d times", g_who[i]);
    vt::data_read(&g_out[i], 8);
    MC_CHECK(g_out[i] == 2000 + i, "join", "the thread was still running after join/destroy");
    MC_CHECK(g_ids[i] != me, "thread-id", "two threads have the same identifier");
  }
  if (g_n == 2 && g_self[0] && g_self[1]) MC_CHECK(g_ids[0] != g_ids[1], "thread-id", "two live threads have the same identifier");
  MC_CHECK(thread_current_thread_id() == me, "thread-id", "the identifier of a running thread changes");
  return 0;
}
static void threads(Chooser &c) {
  static const int CODES[] = {0, 1, -1, INT_MAX, INT_MIN, 256, 0x12345678};
  static const char *NAMES[] = {0, "", "worker", "exactly15chars!", "a name that is longer than sixteen bytes"};
  vt::Options o;
  o.create_fail = c.choose(2);
  vt::reset(c, o);
  memset(g_who, 0, sizeof g_who);
  memset(g_out, 0, sizeof g_out);
  memset(g_ids, 0, sizeof g_ids);
  g_n = 1 + c.choose(mc::thorough() ? 3 : 2);
  int ci = c.choose(7);
  g_nm = NAMES[c.choose(5)];
  for (int i = 0; i < g_n; i++) { g_mode[i] = c.choose(4); g_code[i] = CODES[(ci + i) % 7]; }
  g_order = c.choose(2);
  g_kill = g_n > 1 ? c.choose(4) : c.choose(2);
  vt::spawn(creator, 0);
  MC_CHECK(vt::run(), "deadlock", "join or destroy blocks although every thread finishes");
  for (int f = 1; f < vt::kF; f++)
    if (vt::g_f[f].used && vt::g_f[f].real) {
      MC_CHECK(vt::g_f[f].joined, "not-joined", "a thread is never joined: its resources are not released");
      if (g_nm && strlen(g_nm) <= 15) MC_CHECK(!strcmp(vt::g_f[f].name, g_nm), "name", "the thread is named '%s' instead of '%s'", vt::g_f[f].name, g_nm);
    }
  c.outcome((uint64_t)(g_n * 100 + g_self[0] * 10 + g_kill));
  mc::nontrivial();
}
// threads that create and join threads of their own, at the same time; handles given to another thread
static int g_shape, g_leaf[2], g_leafcode[2];
static thread_ptr_t g_hand[2];
static int leaf(void *p) {
  long i = (long)p - 70;
  MC_CHECK(i == 0 || i == 1, "user-data", "the thread procedure gets a wrong user_data pointer");
  g_leaf[i]++;
  vt::point("leaf");
  vt::data_write(&g_out[i], 8);
  g_out[i] = 3000 + i;
  if (g_mode[i]) thread_exit(g_leafcode[i]);
  return g_leafcode[i];
}
static void reap(long i, thread_ptr_t h) {
  if ((g_kill >> i) & 1) thread_destroy(h);
  else {
    int r = thread_join(h);
    MC_CHECK(r == g_leafcode[i], "return-code", "thread_join returns %d instead of %d", r, g_leafcode[i]);
  }
  MC_CHECK(g_leaf[i] == 1, "runs-once", "the procedure ran %d times", g_leaf[i]);
  vt::data_read(&g_out[i], 8);
  MC_CHECK(g_out[i] == 3000 + i, "join", "the thread was still running after join/destroy");
}
static int parent(void *p) {
  long i = (long)p;
  thread_ptr_t h = thread_create(leaf, (void *)(70 + i), g_nm, THREAD_STACK_SIZE_DEFAULT);
  g_self[i] = h != 0;
  if (!h) { vt::point("failed"); MC_CHECK(g_leaf[i] == 0, "create-null", "thread_create returned NULL but the procedure ran"); return 0; }
  if (g_shape == 1) { vt::data_write(&g_hand[i], sizeof h); g_hand[i] = h; }
  else reap(i, h);
  return 40 + (int)i;
}
static void *fiber_parent(void *p) { parent(p); return 0; }
static void *boss(void *) {  // two library threads, each with a child; handles of the children come back
  thread_ptr_t h[2];
  for (long i = 0; i < 2; i++) h[i] = thread_create(parent, (void *)i, "parent", THREAD_STACK_SIZE_DEFAULT);
  for (long i = 0; i < 2; i++) {
    if (!h[i]) continue;
    int r = thread_join(h[i]);
    MC_CHECK(r == (g_self[i] ? 40 + i : 0), "return-code", "thread_join returns %d instead of %ld", r, g_self[i] ? 40 + i : 0);
    if (g_shape == 1 && g_self[i]) { vt::data_read(&g_hand[i], sizeof h[0]); reap(i, g_hand[i]); }
  }
  return 0;
}
static void family(Chooser &c) {
  static const int CODES[] = {0, -1, INT_MIN, 77};
  vt::Options o;
  o.create_fail = c.choose(2);
  vt::reset(c, o);
  memset(g_leaf, 0, sizeof g_leaf);
  memset(g_self, 0, sizeof g_self);
  memset(g_out, 0, sizeof g_out);
  g_shape = c.choose(3);  // children joined by their parents, by the boss; parents that are not library threads
  g_nm = c.choose(2) ? "leaf" : 0;
  g_kill = c.choose(4);
  int ci = c.choose(4);
  for (int i = 0; i < 2; i++) { g_mode[i] = i == 0 ? c.choose(2) : 1 - g_mode[0]; g_leafcode[i] = CODES[(ci + i) % 4]; }
  if (g_shape == 2) { vt::spawn(fiber_parent, (void *)0); vt::spawn(fiber_parent, (void *)1); }
  else vt::spawn(boss, 0);
  MC_CHECK(vt::run(), "deadlock", "join or destroy blocks although every thread finishes");
  for (int f = 1; f < vt::kF; f++)
    if (vt::g_f[f].used && vt::g_f[f].real) MC_CHECK(vt::g_f[f].joined, "not-joined", "a thread is never joined: its resources are not released");
  c.outcome((uint64_t)(g_shape * 100 + g_self[0] * 10 + g_self[1]));
  mc::nontrivial();
}
// the usage of the documentation: join, then destroy
static int trivial(void *) { return 3; }
static void *doc_thread(void *) {
  thread_ptr_t h = thread_create(trivial, 0, "doc", THREAD_STACK_SIZE_DEFAULT);
  int r = thread_join(h);
  MC_CHECK(r == 3, "return-code", "thread_join returns %d", r);
  thread_destroy(h);
  return 0;
}
static void join_then_destroy(Chooser &c) {
  vt::Options o;
  vt::reset(c, o);
  vt::spawn(doc_thread, 0);
  MC_CHECK(vt::run(), "deadlock", "blocked");
  mc::nontrivial();
}
static void setup() {
  mc::tree("create_join", threads, "1-2 threads (thorough 3), 7 return codes, 4 ways to end, names, order of joins, join or destroy, failing creation", false);
  mc::tree("family", family, "two threads creating a thread each at the same time, themselves created by the library or not; children reaped by their creator or by a third thread; failing creation", false);
  mc::tree("join_then_destroy", join_then_destroy, "one thread, joined and then destroyed", false);
}

// ===========================================================================
#elif PART == 6  // thread-local storage
static thread_tls_t g_key[4];
static int g_prog[3][4], g_len;
static int g_nk;
static void *tls_thread(void *p) {
  long t = (long)p;
  void *mine[4] = {0, 0, 0, 0};
  for (int i = 0; i < g_len; i++) {
    int op = g_prog[t][i];
    int k = op % g_nk;
    if (op / g_nk == 0) {
      void *v = thread_tls_get(g_key[k]);
      MC_CHECK(v == mine[k], "tls-value", "thread %ld reads %p from key %d instead of its own value %p", t, v, k, mine[k]);
    } else {
      mine[k] = op / g_nk == 1 ? PTR(t * 10 + k + 1) : 0;
      thread_tls_set(g_key[k], mine[k]);
    }
  }
  for (int k = 0; k < g_nk; k++) {
    void *v = thread_tls_get(g_key[k]);
    MC_CHECK(v == mine[k], "tls-value", "thread %ld reads %p from key %d instead of its own value %p", t, v, k, mine[k]);
  }
  return 0;
}
static void tls_prog(Chooser &c, int nt, int len, int nk, bool por) {
  vt::Options o;
  o.por = por;
  vt::reset(c, o);
  g_nk = nk;
  g_len = len;
  for (int t = 0; t < nt; t++) for (int i = 0; i < len; i++) g_prog[t][i] = c.choose(3 * nk);
  for (int k = 0; k < nk; k++) {
    g_key[k] = thread_tls_create();
    MC_CHECK(g_key[k] != 0, "tls-null", "thread_tls_create returns NULL although a key is available");
    for (int j = 0; j < k; j++) MC_CHECK(g_key[k] != g_key[j], "tls-alias", "two live keys are the same");
  }
  thread_tls_set(g_key[0], PTR(99));
  for (long t = 0; t < nt; t++) vt::spawn(tls_thread, (void *)t);
  MC_CHECK(vt::run(), "deadlock", "blocked");
  MC_CHECK(thread_tls_get(g_key[0]) == PTR(99), "tls-value", "another thread changed this thread's value");
  for (int k = 0; k < nk; k++) thread_tls_destroy(g_key[k]);
  c.outcome((uint64_t)nk);
  mc::nontrivial();
}
static void t2x2(Chooser &c) { tls_prog(c, 2, 2, 1 + c.choose(2), false); }
static void t2x3(Chooser &c) { tls_prog(c, 2, 3, 1 + c.choose(2), true); }
static void t3x2(Chooser &c) { tls_prog(c, 3, 2, 2, true); }
// one thread: every sequence of create / destroy / set / get over three slots
static void life(Chooser &c) {
  vt::Options o;
  o.create_fail = c.choose(2);
  vt::reset(c, o);
  thread_tls_t key[3] = {0, 0, 0};
  void *val[3] = {0, 0, 0};
  int depth = mc::thorough() ? 6 : 5;
  for (int i = 0; i < depth; i++) {
    int op = c.choose(9), k = op % 3;
    if (op < 3) {  // create or destroy
      if (!key[k]) {
        int before = vt::g_o.create_fail;
        key[k] = thread_tls_create();
        bool failed = vt::g_o.create_fail != before;
        MC_CHECK((key[k] == 0) == failed, "tls-null", failed ? "a failed creation is not reported" : "thread_tls_create returns NULL although a key is available");
        val[k] = 0;
        for (int j = 0; j < 3; j++) if (j != k && key[j]) MC_CHECK(key[j] != key[k], "tls-alias", "two live keys are the same");
      } else { thread_tls_destroy(key[k]); key[k] = 0; }
    } else if (op < 6) { if (key[k]) { val[k] = PTR(i + 1); thread_tls_set(key[k], val[k]); } }
    for (int j = 0; j < 3; j++)
      if (key[j]) MC_CHECK(thread_tls_get(key[j]) == val[j], "tls-value", "key %d holds %p instead of %p", j, thread_tls_get(key[j]), val[j]);
  }
  mc::nontrivial();
}
// threads that create and destroy keys of their own at the same time
static thread_tls_t g_live[2][2];
static void *dyn_thread(void *p) {
  long t = (long)p;
  void *val[2] = {0, 0};
  for (int i = 0; i < g_len; i++) {
    int op = g_prog[t][i], k = op & 1;
    thread_tls_t &key = g_live[t][k];
    if (op < 2) {
      if (key) { thread_tls_t old = key; key = 0; thread_tls_destroy(old); }
      else {
        thread_tls_t n = thread_tls_create();
        MC_CHECK(n != 0, "tls-null", "thread_tls_create returns NULL although a key is available");
        for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) MC_CHECK(g_live[a][b] != n, "tls-alias", "a new key is the same as a live one");
        key = n;
        val[k] = 0;
      }
    } else if (key) { val[k] = PTR(t * 100 + i + 1); thread_tls_set(key, val[k]); }
    for (int j = 0; j < 2; j++)
      if (g_live[t][j]) {
        void *v = thread_tls_get(g_live[t][j]);
        MC_CHECK(v == val[j], "tls-value", "thread %ld reads %p from its key %d instead of its own value %p", t, v, j, val[j]);
      }
  }
  return 0;
}
static void dyn(Chooser &c) {
  vt::Options o;
  vt::reset(c, o);
  g_len = mc::thorough() ? 4 : 3;
  memset(g_live, 0, sizeof g_live);
  for (int t = 0; t < 2; t++) {
    g_prog[t][0] = 0;
    for (int i = 1; i < g_len; i++) g_prog[t][i] = c.choose(4);
  }
  for (long t = 0; t < 2; t++) vt::spawn(dyn_thread, (void *)t);
  MC_CHECK(vt::run(), "deadlock", "blocked");
  mc::nontrivial();
}
static void setup() {
  mc::tree("keys_2x3", dyn, "2 threads x 3 (thorough 4) operations creating, destroying, storing and reading keys of their own", false);
  mc::tree("life", life, "one thread, 3 keys, every sequence of create/destroy/set of depth 5 (thorough 6), failing creation", false);
  mc::tree("tls_3x2", t3x2, "3 threads x 2 operations, 2 keys, one interleaving per trace", false);
  mc::tree("tls_2x2", t2x2, "2 threads x 2 operations, 1-2 keys, all interleavings", false);
  mc::tree("tls_2x3", t2x3, "2 threads x 3 operations, 1-2 keys, one interleaving per trace", false);
}

// ===========================================================================
#elif PART == 7  // timer
static THREAD_U64 g_req;
static vt_ns g_took[2];
static void *sleeper(void *p) {
  thread_timer_t t;
  memset((void *)&t, 0x77, sizeof t);
  thread_timer_init(&t);
  vt_ns t0 = vt::clock_now();
  thread_timer_wait(&t, g_req);
  g_took[(long)p] = vt::clock_now() - t0;
  thread_timer_term(&t);
  return 0;
}
static const unsigned long long NS[] = {0, 1, 2, 999, 1000, 999999, 1000000, 999999999, 1000000000, 1000000001, 1500000000, 1999999999, 2000000000,
  2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 4294967297ull, 5000000000ull, 10000000001ull, 86400000000000ull,
  999999999999999999ull, 1000000000000000000ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull};
static void wait1(Chooser &c) {
  vt::Options o;
  o.eintr = c.choose(4);
  vt::reset(c, o);
  g_req = NS[c.choose(sizeof NS / sizeof *NS)];
  vt::spawn(sleeper, 0);
  MC_CHECK(vt::run(), "never-ends", "timer wait never returns");
  MC_CHECK(g_took[0] >= (vt_ns)g_req, "short-sleep", "wait of %llu ns lasts only %lld ns", g_req, (long long)g_took[0]);
  MC_CHECK(g_took[0] <= (vt_ns)g_req + 1000000, "long-sleep", "wait of %llu ns lasts %llu ns", g_req, (unsigned long long)g_took[0]);
  c.outcome((uint64_t)g_req);
  mc::nontrivial();
}
// every combination of seconds and nanoseconds on a grid
static void grid(Chooser &c) {
  static const unsigned long long SEC[] = {0, 1, 2, 3, 4, 5, 9, 10, 59, 60, 3599, 86400, 4294967, 2147483648ull, 4294967296ull, 18446744073ull};
  static const unsigned long long SUB[] = {0, 1, 9, 999, 1000, 1001, 12345678, 499999999, 500000000, 709551615, 999999998, 999999999};
  vt::Options o;
  o.eintr = c.choose(3);
  vt::reset(c, o);
  unsigned long long s = SEC[c.choose(16)], n = SUB[c.choose(12)];
  if (s == 18446744073ull && n > 709551615) n = 709551615;
  g_req = s * 1000000000ull + n;
  vt::spawn(sleeper, 0);
  MC_CHECK(vt::run(), "never-ends", "timer wait never returns");
  MC_CHECK(g_took[0] >= (vt_ns)g_req, "short-sleep", "wait of %llu ns lasts only %lld ns", g_req, (long long)g_took[0]);
  MC_CHECK(g_took[0] <= (vt_ns)g_req + 1000000, "long-sleep", "wait of %llu ns lasts %llu ns", g_req, (unsigned long long)g_took[0]);
  mc::nontrivial();
}
static void two(Chooser &c) {
  vt::Options o;
  o.eintr = c.choose(3);
  vt::reset(c, o);
  g_req = NS[c.choose(16)];
  vt::spawn(sleeper, 0);
  vt::spawn(sleeper, (void *)1);
  MC_CHECK(vt::run(), "never-ends", "timer wait never returns");
  for (int i = 0; i < 2; i++) MC_CHECK(g_took[i] >= (vt_ns)g_req, "short-sleep", "wait of %llu ns lasts only %lld ns", g_req, (long long)g_took[i]);
  mc::nontrivial();
}
static void setup() {
  mc::tree("wait", wait1, "26 durations up to 2^64-1 ns, up to 3 interruptions at 3 positions", false);
  mc::tree("grid", grid, "16 x 12 durations, up to 2 interruptions", false);
  mc::tree("two_threads", two, "2 threads, 16 durations, up to 2 interruptions, all interleavings", false);
}
#endif
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
