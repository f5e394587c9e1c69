// Thread-local keys, natively: every number of keys up to what the system provides, used by two threads in turn.
#include "mc.hpp"
#include <pthread.h>
#include <set>
#include <vector>
#include "libs_thread.h"
static std::vector<thread_tls_t> g_keys;
static uintptr_t g_base;
static const char *g_err;
static void fill(uintptr_t base) {
  for (size_t i = 0; i < g_keys.size(); i++) if (thread_tls_get(g_keys[i])) g_err = "a value is visible that this thread never stored";
  for (size_t i = 0; i < g_keys.size(); i++) thread_tls_set(g_keys[i], (void *)(base + i));
  for (size_t i = 0; i < g_keys.size(); i++) if (thread_tls_get(g_keys[i]) != (void *)(base + i)) g_err = "a value is not the one stored under the key";
  for (size_t i = 0; i < g_keys.size(); i += 2) thread_tls_set(g_keys[i], 0);
  for (size_t i = 0; i < g_keys.size(); i++) if (thread_tls_get(g_keys[i]) != (i % 2 ? (void *)(base + i) : 0)) g_err = "storing under one key changed another";
}
static void *other(void *) { fill(g_base + 0x100000); return 0; }
static void many(uint64_t n) {
  mc::say("%d keys", (int)n);
  g_keys.clear(); g_err = 0; g_base = 0x1000000;
  for (uint64_t i = 0; i < n; i++) {
    thread_tls_t k = thread_tls_create();
    MC_CHECK(k, "create", "creating key %d fails", (int)i);
    g_keys.push_back(k);
  }
  MC_CHECK(std::set<void *>(g_keys.begin(), g_keys.end()).size() == n, "distinct", "two of %d keys are the same", (int)n);
  fill(g_base);
  MC_CHECK(!g_err, "values", "%d keys: %s", (int)n, g_err);
  pthread_t t;
  if (pthread_create(&t, 0, other, 0)) { mc::fail("thread", "no thread"); return; }
  pthread_join(t, 0);
  MC_CHECK(!g_err, "values", "%d keys, second thread: %s", (int)n, g_err);
  for (size_t i = 0; i < n; i++) MC_CHECK(thread_tls_get(g_keys[i]) == (i % 2 ? (void *)(g_base + i) : 0), "isolation", "%d keys: another thread changed the value under key %d", (int)n, (int)i);
  // destroyed keys can be created again and start out empty; the others keep their values
  for (size_t i = 0; i < n; i += 3) thread_tls_destroy(g_keys[i]);
  for (size_t i = 0; i < n; i += 3) { g_keys[i] = thread_tls_create(); MC_CHECK(g_keys[i], "create", "re-creating key %d fails", (int)i); }
  for (size_t i = 0; i < n; i++) MC_CHECK(thread_tls_get(g_keys[i]) == (i % 3 && i % 2 ? (void *)(g_base + i) : 0), "recreate", "%d keys: after re-creating others key %d holds another value", (int)n, (int)i);
  for (size_t i = 0; i < n; i++) thread_tls_destroy(g_keys[i]);
  mc::nontrivial(n);
}
// more keys than there are: creation fails, reported as such, and nothing else breaks
static void exhaust(uint64_t) {
  std::vector<thread_tls_t> k;
  for (int i = 0; i < 5000; i++) { thread_tls_t t = thread_tls_create(); if (!t) break; thread_tls_set(t, (void *)(uintptr_t)(i + 1)); k.push_back(t); }
  MC_CHECK(k.size() >= 128 && k.size() < 5000, "exhaust", "%d keys could be created", (int)k.size());
  MC_CHECK(std::set<void *>(k.begin(), k.end()).size() == k.size(), "distinct", "two of %d keys are the same", (int)k.size());
  for (size_t i = 0; i < k.size(); i++) MC_CHECK(thread_tls_get(k[i]) == (void *)(uintptr_t)(i + 1), "values", "key %d of %d holds another value", (int)i, (int)k.size());
  for (int r = 0; r < 3; r++) MC_CHECK(!thread_tls_create(), "exhaust", "a key is created although none is left");
  thread_tls_destroy(k[k.size() / 2]);
  thread_tls_t t = thread_tls_create();
  MC_CHECK(t && !thread_tls_get(t), "recreate", "a key that was given back cannot be created again, or is not empty");
  k[k.size() / 2] = t;
  for (size_t i = 0; i < k.size(); i++) thread_tls_destroy(k[i]);
  mc::say("%d keys", (int)k.size()); mc::nontrivial(1);
}
static void setup() {
  mc::range("many_keys", many, 0, mc::thorough() ? 1001 : 601, "every number of keys up to 600 (thorough 1000), two threads in turn");
  mc::range("all_keys", exhaust, 0, 1, "every key the system provides, and one more");
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
