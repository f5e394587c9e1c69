// Histories of the thread queue on one thread, run natively: large queues, many laps, and one history longer
// than 2^31 operations (the library's own counters must survive it).
#include "mc.hpp"
#include <pthread.h>
#include <vector>
#include "libs_thread.h"
// a single thread: locks never contend and nobody waits (both are explored by h_thread.cc), so these need no work
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t *) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
int pthread_cond_signal(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_broadcast(pthread_cond_t *) noexcept { return 0; }
}
static struct { void *pre[4]; void *slot[4]; void *post[4]; } A;
static uint64_t run(int size, int fill, uint64_t rounds) {
  thread_queue_t q;
  for (int i = 0; i < 4; i++) A.pre[i] = A.post[i] = (void *)0x5555;
  for (int i = 0; i < 4; i++) A.slot[i] = 0;
  thread_queue_init(&q, size, A.slot, 0);
  for (int i = 0; i < fill; i++) MC_CHECK(thread_queue_produce(&q, (void *)(uintptr_t)(i + 1), 0), "produce", "no room in an empty queue");
  uint64_t next = (uint64_t)fill, out = 0;
  for (uint64_t r = 0; r < rounds; r++) {
    int ok = thread_queue_produce(&q, (void *)(uintptr_t)(++next), 0);
    void *v = thread_queue_consume(&q, 0);
    ++out;
    if (!ok || v != (void *)(uintptr_t)out) mc::fail("long-history", "operation %llu: produce returns %d, consume returns %llu instead of %llu", (unsigned long long)r, ok, (unsigned long long)(uintptr_t)v, (unsigned long long)out);
    if ((r & 0xfffff) == 0) mc::g_slot->beat++;
  }
  for (int i = 0; i < 4; i++) MC_CHECK(A.pre[i] == (void *)0x5555 && A.post[i] == (void *)0x5555, "outside", "a slot outside the array is written");
  MC_CHECK(thread_queue_count(&q) == fill, "count", "count is %d instead of %d", thread_queue_count(&q), fill);
  thread_queue_term(&q);
  mc::nontrivial(rounds);
  return out;
}
static void longrun(uint64_t) {
  int k = 0;
  static const int SIZE[1] = {3}, FILL[1] = {1};
  run(SIZE[k], FILL[k], (1ull << 31) + 1000);
}
// large queues: filled from every kind of initial content, overfull, emptied, refilled across the wrap
static const int kBig[] = {1, 2, 3, 7, 64, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 200000, 1048577};
static void large(uint64_t x) {
  int size = kBig[x / 5], how = (int)(x % 5), start = how == 0 ? 0 : how == 1 ? 1 : how == 2 ? size / 2 : how == 3 ? size - 1 : size;
  mc::say("queue of %d slots, %d of them filled at the start", size, start);
  std::vector<void *> mem(size + 2, (void *)0x5555);
  void **slot = &mem[1];
  uintptr_t in = 0, out = 0;
  for (int i = 0; i < start; i++) slot[i] = (void *)++in;
  thread_queue_t q;
  thread_queue_init(&q, size, slot, start);
  for (int lap = 0; lap < 3; lap++) {
    while (in - out < (uintptr_t)size) {
      int ok = thread_queue_produce(&q, (void *)++in, 0);
      MC_CHECK(ok, "large:produce", "no room although %llu of %d slots are in use", (unsigned long long)(in - 1 - out), size);
      MC_CHECK(thread_queue_count(&q) == (int)(in - out), "large:count", "count is %d with %llu elements", thread_queue_count(&q), (unsigned long long)(in - out));
    }
    MC_CHECK(!thread_queue_produce(&q, (void *)0x77, 0), "large:full", "a full queue of %d accepts another element", size);
    int left = lap == 0 ? 0 : lap == 1 ? size / 2 : size / 3;  // the next lap starts in the middle of the slots
    while (in - out > (uintptr_t)left) {
      void *v = thread_queue_consume(&q, 0);
      MC_CHECK(v == (void *)++out, "large:order", "element %llu of a queue of %d arrives as %llu", (unsigned long long)out, size, (unsigned long long)(uintptr_t)v);
    }
    if (!left) MC_CHECK(thread_queue_consume(&q, 0) == 0, "large:empty", "an empty queue of %d yields an element", size);
    MC_CHECK(thread_queue_count(&q) == left, "large:count", "count is %d with %d elements", thread_queue_count(&q), left);
  }
  MC_CHECK(mem[0] == (void *)0x5555 && mem[size + 1] == (void *)0x5555, "outside", "a slot outside the array is written");
  thread_queue_term(&q);
  mc::nontrivial(size);
}
// small queues: many more operations than any narrow counter can count
static void laps(uint64_t x) {
  int size = 1 + (int)(x / 4), fill = (int)(x % 4);
  if (fill >= size) return;
  mc::say("queue of %d holding %d, 2^18 produce/consume pairs", size, fill);
  run(size, fill, 1u << 18);
}
static void setup() {
  mc::range("large", large, 0, 5 * (sizeof kBig / sizeof kBig[0]), "27 sizes up to 2^20+1 x 5 initial contents, three laps of filling and draining");
  mc::range("laps", laps, 0, 16, "sizes 1-4 x every smaller content, 2^18 produce/consume pairs");
  if (mc::thorough()) mc::range("history_2_31", longrun, 0, 1, "2^31+1000 produce/consume pairs, queue size 3 holding 1", 700);
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, setup); }
