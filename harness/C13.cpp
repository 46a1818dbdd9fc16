// Grouping with many threads under perturbed schedules.
#include "common.hpp"
#include <atomic>
#include <cstdlib>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
using namespace vh;

static std::atomic<uint64_t> gPerturb{0};   // 0: off, otherwise seed
static std::atomic<int> gThreadNo{0};
static thread_local uint64_t tState = 0;

static void maybeDelay(int oneIn) {
  uint64_t p = gPerturb.load(std::memory_order_relaxed);
  if (!p) return;
  if (!tState) tState = p * 0x9e3779b97f4a7c15ULL + 0x1234567ULL * (1 + gThreadNo.fetch_add(1, std::memory_order_relaxed));
  tState ^= tState << 13; tState ^= tState >> 7; tState ^= tState << 17;
  if (tState % oneIn) return;
  uint64_t k = (tState >> 20) % 8;
  if (k < 5) { sched_yield(); return; }
  struct timespec ts = {0, (long)((tState >> 30) % 400000)};
  nanosleep(&ts, nullptr);
}

void* operator new(size_t n) { maybeDelay(97); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { maybeDelay(97); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

#ifndef __SANITIZE_THREAD__
// delays around the synchronization of the worker pool
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  maybeDelay(6);
  return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int rc = real(m);
  maybeDelay(6);
  return rc;
}
extern "C" int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*) = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  maybeDelay(2);
  return real(cv, m);
}
#endif

void vh::runCase(Ctx& c) {
  Rng& r = c.rng;
  TableSpec sp;
  sp.minRows = 2; sp.maxRows = r.chance(0.2) ? 20 : 7; sp.minLen = 1; sp.maxLen = r.chance(0.3) ? 40 : 14;
  Table t = genTable(r, sp);
  if (t.maxLen() < 3) t.rows[0] = {1, 2, 3, 4, 5, 6};
  genex::GenexAPI api;
  loadTable(c, api, "d", t);
  int rounds = r.range(1, 4);
  for (int k = 0; k < rounds; k++) {
    int metric = r.range(0, METRICS - 1);
    double T = r.range(0, 40) / 32.0;
    bool whole = r.chance(0.1);
    int threads = r.chance(0.2) ? r.range(9, 64) : r.range(2, 8);
    // make the time-dependent path run in the workers, too
    if (r.chance(0.3)) gClockStepSeconds = r.range(0, 12);
    std::ostringstream cs;
    cs << kMetricName[metric] << " T=" << T << " threads=" << threads << (whole ? " whole" : "") << ": " << describe(t);
    gPerturb = r.next() | 1;
    int many = api.groupDataset("d", T, kMetricName[metric], threads, whole);
    gPerturb = 0;
    gClockStepSeconds = 0;
    string a = groupText(api, "d", c.file("a"));
    int one = api.groupDataset("d", T, kMetricName[metric], 1, whole);
    string b = groupText(api, "d", c.file("b"));
    REQ(c, many == one, "par-count", threads << " threads give " << many << " groups, one thread gives " << one << "; " << cs.str());
    REQ(c, a == b, "par-groups", "groups differ from those of one thread: " << firstDiff(b, a) << "; " << cs.str());
    c.count("schedules_compared");
    c.input(mix(hashTable(t), hashStr(cs.str())), t.maxLen() > 2);
    if (k == 0) c.sample(cs.str());
  }
}
