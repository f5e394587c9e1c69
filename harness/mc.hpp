// Bounded exhaustive exploration of real code ("stateless model checking").
//
// A *tree* scenario is a function body(Chooser&) that asks choose(n) for every
// nondeterministic decision (operation, argument, environment answer, fault
// position).  The explorer re-executes the body from scratch for every choice
// sequence, depth first, until the tree is exhausted.  A *range* scenario is a
// function of one 64-bit index, executed for every index in [lo,hi).
//
// Work is distributed over forked workers; a worker that dies (sanitizer
// report, signal) or stops making progress leaves its current choice sequence
// in shared memory.  Every failure is replayed alone, in a fresh process,
// before it is reported.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=4:"
         "malloc_context_size=6";
}
#endif

namespace mc {

static const int kMaxDepth = 4096;

struct Fail {
  std::string sig, msg;
};
struct Cut {};
struct Prune {};

struct Shm {
  // per-run statistics (atomically updated)
  volatile uint64_t execs, steps, states, pruned, choicepoints, outcomes;
  volatile uint64_t next_item;
  volatile uint64_t capped;
  volatile uint64_t nontrivial;
};
struct Slot {  // per worker
  volatile uint64_t beat;
  volatile int mode;  // 0 idle, 1 tree, 2 range
  volatile uint64_t index;
  volatile int depth;
  volatile int choices[kMaxDepth];
};

static const uint64_t kTableBits = 24;
static Shm *g_shm;
static Slot *g_slots;
static Slot *g_slot;
static uint64_t *g_states;    // observed states  (56-bit hash, 8-bit remaining depth + 1)
static uint64_t *g_outcomes;  // observed outcomes

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 31;
  h *= 0xd6e8feb86659fd93ull;
  h ^= h >> 29;
  return h;
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *s = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) h = mix(h, s[i]);
  return mix(h, n);
}

// Inserts a hash; returns true when it was not there (or only with a smaller `rem`).
static inline bool table_insert(uint64_t *tab, uint64_t h, unsigned rem, bool *fresh) {
  uint64_t key = h & ~0xffull;
  if (!key) key = 0x100;
  uint64_t mask = (1ull << kTableBits) - 1;
  uint64_t i = (h >> 20) & mask;
  uint64_t want = key | (rem + 1 > 255 ? 255 : rem + 1);
  for (int probe = 0; probe < 512; probe++, i = (i + 1) & mask) {
    uint64_t cur = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
    while (true) {
      if (cur == 0) {
        if (__atomic_compare_exchange_n(&tab[i], &cur, want, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
          *fresh = true;
          return true;
        }
        continue;
      }
      if ((cur & ~0xffull) != key) break;
      *fresh = false;
      if ((cur & 0xff) >= (want & 0xff)) return false;
      if (__atomic_compare_exchange_n(&tab[i], &cur, want, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
    }
  }
  __atomic_store_n(&g_shm->capped, 1, __ATOMIC_RELAXED);
  *fresh = false;
  return true;  // table full: never prune
}

static long g_alloc_balance;
static bool g_hooks;
#ifdef MC_ASAN
static void malloc_hook(const volatile void *p, size_t) { if (p) g_alloc_balance++; }
static void free_hook(const volatile void *p) { if (p) g_alloc_balance--; }
#endif

struct Chooser {
  int forced_n;
  const int *forced;
  int depth;
  int cut_at;  // -1: never
  int choice[kMaxDepth], width[kMaxDepth];
  bool verbose;
  std::string *trace;

  Chooser() : forced_n(0), forced(0), depth(0), cut_at(-1), verbose(false), trace(0) {}

  int choose(int n) {
    if (n <= 0) { fprintf(stderr, "MC: choose(%d)\n", n); abort(); }
    if (depth >= kMaxDepth) { fprintf(stderr, "MC: depth overflow\n"); _exit(3); }
    if (cut_at >= 0 && depth >= cut_at) throw Cut();
    int c = 0;
    if (depth < forced_n) {
      c = forced[depth];
      if (c < 0 || c >= n) { fprintf(stderr, "MC: replay divergence at %d: %d of %d\n", depth, c, n); _exit(3); }
    }
    choice[depth] = c;
    width[depth] = n;
    g_slot->choices[depth] = c;
    depth++;
    g_slot->depth = depth;
    return c;
  }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    printf("    %s\n", buf);
    fflush(stdout);
  }
  void step() { nsteps++; }
  // Record a distinct (abstract) state for the coverage report.
  void state(uint64_t h) {
    bool fresh = false;
    table_insert(g_states, mix(h, 0x9e37), 0, &fresh);
    if (fresh) __atomic_fetch_add(&g_shm->states, 1, __ATOMIC_RELAXED);
  }
  // Stateful search: give up this execution when the state was already
  // explored with at least `remaining` further steps.
  void state_or_prune(uint64_t h, unsigned remaining) {
    if (noprune) return;  // prefix collection and replay do not claim states
    bool fresh = false;
    bool go = table_insert(g_states, h, remaining, &fresh);
    if (fresh) __atomic_fetch_add(&g_shm->states, 1, __ATOMIC_RELAXED);
    // Only prune beyond the forced prefix, otherwise re-execution of a prefix
    // would prune itself.
    if (!go && depth >= forced_n) {
      __atomic_fetch_add(&g_shm->pruned, 1, __ATOMIC_RELAXED);
      throw Prune();
    }
  }
  void outcome(uint64_t h) {
    bool fresh = false;
    table_insert(g_outcomes, mix(h, 0x9e37), 0, &fresh);
    if (fresh) __atomic_fetch_add(&g_shm->outcomes, 1, __ATOMIC_RELAXED);
  }
  uint64_t nsteps;
  bool noprune;
};

static void fail(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
static void fail(const std::string &sig, const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  Fail f;
  f.sig = sig;
  f.msg = buf;
  throw f;
}
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) ::mc::fail(sig, __VA_ARGS__); } while (0)

typedef void (*TreeFn)(Chooser &);
typedef void (*RangeFn)(uint64_t);

struct Scenario {
  std::string name;
  int kind;  // 1 tree, 2 range
  TreeFn tree;
  RangeFn range;
  uint64_t lo, hi;
  std::string bound;
  double max_exec_s;  // one execution (tree) or one chunk (range) longer than this is a hang
  bool leakcheck;
};
struct Config {
  bool thorough;
  int workers;
  double budget_s;
};
static Config g_cfg = {false, 8, 840};
static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
static void tree(const std::string &name, TreeFn fn, const std::string &bound, bool leakcheck = true, double max_exec_s = 20) {
  Scenario s; s.name = name; s.kind = 1; s.tree = fn; s.range = 0; s.lo = s.hi = 0; s.bound = bound; s.max_exec_s = max_exec_s; s.leakcheck = leakcheck;
  scenarios().push_back(s);
}
static void range(const std::string &name, RangeFn fn, uint64_t lo, uint64_t hi, const std::string &bound, double max_exec_s = 60) {
  Scenario s; s.name = name; s.kind = 2; s.tree = 0; s.range = fn; s.lo = lo; s.hi = hi; s.bound = bound; s.max_exec_s = max_exec_s; s.leakcheck = false;
  scenarios().push_back(s);
}
static inline bool thorough() { return g_cfg.thorough; }
static uint64_t g_nontrivial;  // worker-local, flushed at the end
static inline void nontrivial(uint64_t n = 1) { g_nontrivial += n; }
static bool g_verbose;  // replay mode
static void say(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void say(const char *fmt, ...) {
  if (!g_verbose) return;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  printf("    %s\n", buf);
  fflush(stdout);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static Chooser g_ch;
static bool g_sampling;
static int g_report_fd = -1;  // worker -> parent
static std::set<std::string> *g_seen_sigs;

static void report(const Scenario &s, const std::string &sig, const std::string &choices, const std::string &msg) {
  std::string key = s.name + "\t" + sig;
  if (!g_seen_sigs) g_seen_sigs = new std::set<std::string>();
  if (g_seen_sigs->count(key)) return;
  if (g_seen_sigs->size() > 200) return;
  g_seen_sigs->insert(key);
  std::string m = msg;
  for (size_t i = 0; i < m.size(); i++) if (m[i] == '\n' || m[i] == '\t') m[i] = ' ';
  std::string line = s.name + "\t" + sig + "\t" + choices + "\t" + m + "\n";
  if (line.size() > 4000) line = line.substr(0, 3999) + "\n";
  ssize_t r = write(g_report_fd, line.data(), line.size());
  (void)r;
}

static int exec_raw(const Scenario &s, const int *forced, int n, int cut, bool verbose, Fail *out, long *balance) {
  g_ch.forced = forced; g_ch.forced_n = n; g_ch.cut_at = cut; g_ch.depth = 0; g_ch.verbose = verbose; g_ch.nsteps = 0;
  g_slot->depth = 0;
  int res = 0;
  long bal = g_alloc_balance;
  try {
    s.tree(g_ch);
  } catch (Cut &) { res = 1;
  } catch (Prune &) { res = 2;
  } catch (Fail &f) { *out = f; res = 3; }
  g_slot->beat++;
  if (res != 3 && s.leakcheck && g_hooks && g_alloc_balance != bal) res += 16;
  *balance = g_alloc_balance - bal;
  return res;
}

// Runs one execution.  Returns 0 completed, 1 cut, 2 pruned, 3 failed.
static int exec_once(const Scenario &s, const int *forced, int n, int cut, bool verbose, Fail *out) {
  long balance = 0;
  int r = exec_raw(s, forced, n, cut, verbose, out, &balance);
  if (r < 16) return r;
  // Heap balance differs: could be a lazily built one-time object, so ask again.
  static int again[kMaxDepth];
  int d = g_ch.depth;
  for (int i = 0; i < d; i++) again[i] = g_ch.choice[i];
  bool np = g_ch.noprune;
  g_ch.noprune = true;
  int r2 = exec_raw(s, again, d, (r & 15) == 0 ? -1 : d, false, out, &balance);
  g_ch.noprune = np;
  g_ch.depth = d;
  if (r2 < 16) return (r2 == 3) ? 3 : (r & 15);
  char buf[100];
  snprintf(buf, sizeof buf, "%ld heap block(s) still allocated after everything was destroyed", balance);
  out->sig = balance > 0 ? "leak" : "alloc-imbalance";
  out->msg = buf;
  return 3;
}

static std::string choices_str(const int *c, int n) {
  std::string r;
  char b[16];
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", c[i]); r += b; }
  return r;
}

struct WorkerStats { uint64_t execs, steps, cps; };

static void explore_subtree(const Scenario &s, const std::vector<int> &prefix, WorkerStats &ws, double deadline) {
  static int cur[kMaxDepth];
  int n = (int)prefix.size();
  int base = n;
  for (int i = 0; i < n; i++) cur[i] = prefix[i];
  Fail f;
  while (true) {
    int r = exec_once(s, cur, n, -1, false, &f);
    ws.execs++;
    ws.steps += g_ch.nsteps;
    ws.cps += g_ch.depth >= n ? g_ch.depth - n + 1 : 1;
    if (g_sampling && (ws.execs == 1 || ws.execs == 1000 || ws.execs == 50000)) {
      std::string sm = choices_str(g_ch.choice, g_ch.depth);
      g_seen_sigs ? (void)0 : (void)(g_seen_sigs = new std::set<std::string>());
      std::string line = s.name + "\t#sample\t" + sm + "\t\n";
      if (line.size() < 3000) { ssize_t q = write(g_report_fd, line.data(), line.size()); (void)q; }
    }
    if (r == 3) report(s, f.sig, choices_str(g_ch.choice, g_ch.depth), f.msg);
    int d = g_ch.depth;
    int i = d - 1;
    while (i >= base && g_ch.choice[i] + 1 >= g_ch.width[i]) i--;
    if (i < base) return;
    for (int j = 0; j < i; j++) cur[j] = g_ch.choice[j];
    cur[i] = g_ch.choice[i] + 1;
    n = i + 1;
    if ((ws.execs & 255) == 0 && now() > deadline) { g_shm->capped = 2; return; }
  }
}

// all choice prefixes of length <= k
static void gather(const Scenario &s, int k, std::vector<std::vector<int> > &items, size_t limit) {
  static int cur[kMaxDepth];
  int n = 0;
  Fail f;
  items.clear();
  while (items.size() < limit) {
    g_ch.noprune = true;
    exec_once(s, cur, n, k, false, &f);
    g_ch.noprune = false;
    int d = g_ch.depth;
    items.push_back(std::vector<int>(g_ch.choice, g_ch.choice + d));
    int i = d - 1;
    while (i >= 0 && g_ch.choice[i] + 1 >= g_ch.width[i]) i--;
    if (i < 0) return;
    for (int j = 0; j < i; j++) cur[j] = g_ch.choice[j];
    cur[i] = g_ch.choice[i] + 1;
    n = i + 1;
  }
}

static void worker(const Scenario &s, double deadline) {
  WorkerStats ws = {0, 0, 0};
  if (s.kind == 1) {
    g_slot->mode = 1;
    std::vector<std::vector<int> > items;
    size_t last = 0;
    for (int k = 1; k <= 12; k++) {
      gather(s, k, items, 20000);
      if (items.size() >= 400) break;
      bool cut = false;
      for (size_t i = 0; i < items.size(); i++) cut |= (int)items[i].size() >= k;
      if (!cut) break;  // no execution has more choices than these
      if (k > 3 && items.size() == last) break;
      last = items.size();
    }
    if (items.size() >= 20000) {  // too wide: fall back to one level less
      gather(s, 1, items, 1u << 30);
    }
    while (true) {
      uint64_t i = __atomic_fetch_add(&g_shm->next_item, 1, __ATOMIC_RELAXED);
      if (i >= items.size()) break;
      explore_subtree(s, items[i], ws, deadline);
      if (g_shm->capped == 2) break;
    }
  } else {
    g_slot->mode = 2;
    uint64_t total = s.hi - s.lo;
    uint64_t chunk = total / (uint64_t(g_cfg.workers) * 64) + 1;
    if (chunk > 4096 * 16) chunk = 4096 * 16;
    while (true) {
      uint64_t b = __atomic_fetch_add(&g_shm->next_item, chunk, __ATOMIC_RELAXED);
      if (b >= total) break;
      uint64_t e = b + chunk < total ? b + chunk : total;
      for (uint64_t i = b; i < e; i++) {
        g_slot->index = s.lo + i;
        try {
          s.range(s.lo + i);
        } catch (Fail &f) {
          char buf[40];
          snprintf(buf, sizeof buf, "@%llu", (unsigned long long)(s.lo + i));
          report(s, f.sig, buf, f.msg);
        }
      }
      ws.execs += e - b;
      g_slot->beat++;
      if (now() > deadline) { g_shm->capped = 2; break; }
    }
    ws.steps = ws.execs;
  }
  __atomic_fetch_add(&g_shm->execs, ws.execs, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_shm->steps, ws.steps, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_shm->choicepoints, ws.cps, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_shm->nontrivial, g_nontrivial, __ATOMIC_RELAXED);
}

static void silence_stderr() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static void child_setup(int w) {
  g_slot = &g_slots[w];
#ifdef MC_ASAN
  if (!g_hooks) { __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook); g_hooks = true; }
#endif
}

struct Found { std::string scen, sig, choices, msg; };

static int replay_child(const Scenario &s, const std::string &choices, bool quiet) {
  // exit code: 0 no failure, 10 failed (message on stdout), other: crash
  child_setup(0);
  g_verbose = !quiet;
  Fail f;
  if (!choices.empty() && choices[0] == '@') {
    uint64_t i = strtoull(choices.c_str() + 1, 0, 10);
    try { s.range(i); } catch (Fail &e) {
      if (!quiet) printf("  FAILED [%s] %s\n", e.sig.c_str(), e.msg.c_str());
      fflush(stdout);
      return 10;
    }
    return 0;
  }
  std::vector<int> c;
  const char *p = choices.c_str();
  while (*p) { char *q; c.push_back((int)strtol(p, &q, 10)); p = q; if (*p == ',') p++; else break; }
  g_ch.noprune = true;
  int r = exec_once(s, c.data(), (int)c.size(), -1, !quiet, &f);
  if (r == 3) { if (!quiet) printf("  FAILED [%s] %s\n", f.sig.c_str(), f.msg.c_str()); fflush(stdout); return 10; }
  return 0;
}

// returns: 0 passes, 1 fails, 2 crash, 3 hang, 4 divergence
static int replay(const Scenario &s, const std::string &choices, bool quiet, double limit) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    if (quiet) silence_stderr();
    int rc = replay_child(s, choices, quiet);
    _exit(rc);
  }
  double t0 = now();
  int st;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 3; }
    usleep(2000);
  }
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 0) return 0;
    if (WEXITSTATUS(st) == 10) return 1;
    if (WEXITSTATUS(st) == 3) return 4;
  }
  return 2;
}

static void fresh_tables() {
  size_t tb = sizeof(uint64_t) << kTableBits;
  if (g_states) { munmap(g_states, tb); munmap(g_outcomes, tb); }
  g_states = (uint64_t *)mmap(0, tb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_outcomes = (uint64_t *)mmap(0, tb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static std::string sample_index(const Scenario &s) {
  char b[40];
  snprintf(b, sizeof b, "@%llu", (unsigned long long)(s.lo + (s.hi - s.lo) / 3));
  return b;
}

static bool g_hung;  // an endless execution was confirmed: the other scenarios would only wait as well
static void run_scenario(const Scenario &s, std::vector<Found> &found, FILE *js, bool first, bool &error) {
  memset((void *)g_shm, 0, sizeof *g_shm);
  fresh_tables();
  double t0 = now();
  double deadline = t0 + g_cfg.budget_s;
  int W = g_cfg.workers;
  std::vector<pid_t> pid(W);
  std::vector<int> rfd(W);
  std::vector<uint64_t> beat(W, 0);
  std::vector<double> beat_t(W, t0);
  std::vector<std::string> buf(W);
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    g_slots[w].beat = 0; g_slots[w].mode = 0; g_slots[w].depth = 0;
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); exit(2); }
    pid[w] = fork();
    if (pid[w] < 0) { perror("fork"); exit(2); }
    if (pid[w] == 0) {
      close(pfd[0]);
      g_report_fd = pfd[1];
      silence_stderr();
      child_setup(w);
      g_sampling = w == 0;
      worker(s, deadline);
      _exit(0);
    }
    close(pfd[1]);
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    rfd[w] = pfd[0];
  }
  std::vector<Found> mine;
  std::vector<std::string> samples;
  int alive = W;
  while (alive > 0) {
    usleep(3000);
    for (int w = 0; w < W; w++) {
      if (pid[w] == 0) continue;
      char b[65536];
      ssize_t r;
      while ((r = read(rfd[w], b, sizeof b)) > 0) buf[w].append(b, r);
      int st;
      pid_t q = waitpid(pid[w], &st, WNOHANG);
      bool dead = q == pid[w];
      bool hang = false;
      if (!dead) {
        if (g_slots[w].beat != beat[w]) { beat[w] = g_slots[w].beat; beat_t[w] = now(); }
        else if (now() - beat_t[w] > s.max_exec_s) { hang = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = true; }
      }
      if (dead) {
        while ((r = read(rfd[w], b, sizeof b)) > 0) buf[w].append(b, r);
        close(rfd[w]);
        pid[w] = 0;
        alive--;
        if (hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { error = true; fprintf(stderr, "MC: internal error in worker (%s)\n", s.name.c_str()); }
          Found f;
          f.scen = s.name;
          f.sig = hang ? "hang" : "crash";
          Slot &sl = g_slots[w];
          if (sl.mode == 2) { char t[40]; snprintf(t, sizeof t, "@%llu", (unsigned long long)sl.index); f.choices = t; }
          else { f.choices = choices_str(const_cast<const int *>(sl.choices), sl.depth); }
          f.msg = hang ? "execution does not terminate" : (WIFSIGNALED(st) ? "killed by signal / abnormal termination" : "sanitizer report or abnormal exit");
          if (hang) { g_shm->capped = 3; }
          else { g_shm->capped = 3; }
          mine.push_back(f);
        }
      }
    }
  }
  for (int w = 0; w < W; w++) {
    size_t p = 0;
    while (p < buf[w].size()) {
      size_t e = buf[w].find('\n', p);
      if (e == std::string::npos) break;
      std::string line = buf[w].substr(p, e - p);
      p = e + 1;
      std::vector<std::string> col;
      size_t a = 0;
      for (int k = 0; k < 3; k++) { size_t t = line.find('\t', a); if (t == std::string::npos) break; col.push_back(line.substr(a, t - a)); a = t + 1; }
      if (col.size() < 3) continue;
      if (col[1] == "#sample") { samples.push_back(col[2]); continue; }
      Found f; f.scen = col[0]; f.sig = col[1]; f.choices = col[2]; f.msg = line.substr(a);
      mine.push_back(f);
    }
  }
  // one per signature: shortest trace
  std::map<std::string, Found> best;
  for (size_t i = 0; i < mine.size(); i++) {
    std::map<std::string, Found>::iterator it = best.find(mine[i].sig);
    if (it == best.end() || mine[i].choices.size() < it->second.choices.size() ||
        (mine[i].choices.size() == it->second.choices.size() && mine[i].choices < it->second.choices))
      best[mine[i].sig] = mine[i];
  }
  int nrep = 0;
  for (std::map<std::string, Found>::iterator it = best.begin(); it != best.end(); ++it) {
    if (nrep++ >= 12) break;
    Found f = it->second;
    int r = replay(s, f.choices, true, f.sig == "hang" ? s.max_exec_s : s.max_exec_s * 3 + 10);
    int r2 = r == 0 || r == 3 ? r : replay(s, f.choices, true, s.max_exec_s * 3 + 10);
    if (r == 3) g_hung = true;
    if (r == 0 || r == 4 || r != r2) {
      fprintf(stderr, "MC: scenario %s: failure [%s] %s does not replay deterministically (%d,%d)\n", s.name.c_str(), f.sig.c_str(), f.choices.c_str(), r, r2);
      error = true;
      continue;
    }
    found.push_back(f);
  }
  double dt = now() - t0;
  printf("  %-34s execs=%llu steps=%llu states=%llu outcomes=%llu pruned=%llu %.1fs%s\n", s.name.c_str(),
         (unsigned long long)g_shm->execs, (unsigned long long)g_shm->steps, (unsigned long long)g_shm->states,
         (unsigned long long)g_shm->outcomes, (unsigned long long)g_shm->pruned, dt,
         g_shm->capped == 2 ? "  [TIME CAP]" : g_shm->capped == 3 ? "  [INTERRUPTED BY FAILURE]" : g_shm->capped == 1 ? "  [TABLE FULL]" : "");
  fflush(stdout);
  fprintf(js, "%s{\"name\":\"%s\",\"bound\":\"%s\",\"execs\":%llu,\"steps\":%llu,\"states\":%llu,\"outcomes\":%llu,\"pruned\":%llu,\"choicepoints\":%llu,\"nontrivial\":%llu,\"exhausted\":%s,\"wall_s\":%.3f,\"kind\":%d,\"sample\":\"%s\"}",
          first ? "" : ",\n", s.name.c_str(), s.bound.c_str(), (unsigned long long)g_shm->execs, (unsigned long long)g_shm->steps,
          (unsigned long long)g_shm->states, (unsigned long long)g_shm->outcomes, (unsigned long long)g_shm->pruned,
          (unsigned long long)g_shm->choicepoints, (unsigned long long)g_shm->nontrivial,
          (g_shm->capped >= 2 ? "false" : "true"), dt, s.kind,
          s.kind == 2 ? sample_index(s).c_str() : samples.empty() ? "" : samples.back().c_str());
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

// usage: prog --tier quick|thorough --out FILE [--workers N] [--only NAME]
//        prog --tier T --replay SCENARIO CHOICES
static int run_main(int argc, char **argv, void (*setup)()) {
  std::string out, only, rs, rc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") g_cfg.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") g_cfg.workers = atoi(argv[++i]);
    else if (a == "--budget") g_cfg.budget_s = atof(argv[++i]);
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { rs = argv[++i]; rc = argv[++i]; }
  }
  g_shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_slots = (Slot *)mmap(0, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fresh_tables();
  g_slot = &g_slots[0];
  signal(SIGPIPE, SIG_IGN);
  setup();
  if (!rs.empty()) {
    for (size_t i = 0; i < scenarios().size(); i++)
      if (scenarios()[i].name == rs) {
        printf("replay of scenario %s, choices %s\n", rs.c_str(), rc.c_str());
        int r = replay(scenarios()[i], rc, false, 120);
        printf("replay result: %s\n", r == 0 ? "passes" : r == 1 ? "FAILS" : r == 2 ? "CRASHES" : r == 3 ? "HANGS" : "DIVERGES");
        return r ? 1 : 0;
      }
    fprintf(stderr, "no such scenario\n");
    return 2;
  }
  FILE *js = fopen(out.empty() ? "/dev/null" : out.c_str(), "w");
  if (!js) { perror("out"); return 2; }
  fprintf(js, "{\"scenarios\":[\n");
  std::vector<Found> found;
  bool error = false, first = true;
  double t0 = now();
  double total = g_cfg.budget_s;
  for (size_t i = 0; i < scenarios().size(); i++) {
    if (!only.empty() && scenarios()[i].name != only) continue;
    if (g_hung) { printf("  %s not run (an execution does not end)\n", scenarios()[i].name.c_str()); continue; }
    g_cfg.budget_s = total - (now() - t0);
    if (g_cfg.budget_s < 1) g_cfg.budget_s = 1;
    run_scenario(scenarios()[i], found, js, first, error);
    first = false;
  }
  fprintf(js, "],\n\"failures\":[\n");
  for (size_t i = 0; i < found.size(); i++)
    fprintf(js, "%s{\"scenario\":\"%s\",\"sig\":\"%s\",\"choices\":\"%s\",\"msg\":\"%s\"}", i ? ",\n" : "", jesc(found[i].scen).c_str(),
            jesc(found[i].sig).c_str(), found[i].choices.c_str(), jesc(found[i].msg).c_str());
  fprintf(js, "],\n\"error\":%s}\n", error ? "true" : "false");
  fclose(js);
  return found.empty() ? (error ? 2 : 0) : 1;
}

}  // namespace mc
#endif
