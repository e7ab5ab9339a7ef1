// See common/sched.hpp. Wraps the synchronisation entry points the C++ library uses.
#include "common/sched.hpp"
#include "common/vh.hpp"
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <sched.h>
namespace sched {
static std::atomic<uint64_t> gSeed{1}, gSig{0}, gPoints{0}, gDelays{0}, gProgress{0}, gEpoch{0};
static std::atomic<int> gLevel{0}, gAuto{-1};
static thread_local uint64_t tSeed = 0, tEpoch = ~0ull; static thread_local int tId = -1;
void reset(uint64_t seed, int level) { if (gAuto >= 0) gAuto = 0; gSeed = seed; gLevel = level; gSig = 0; gEpoch++; }
void enter(int t) { tId = t; tSeed = vh::mix64(gSeed ^ (uint64_t) (t + 1)); }
void autoIds() { gAuto = 0; }
void progress() { gProgress.fetch_add(1, std::memory_order_relaxed); }
uint64_t progressed() { return gProgress.load(std::memory_order_relaxed); }
uint64_t signature() { return gSig; }
uint64_t points() { return gPoints; }
uint64_t delays() { return gDelays; }
static void point(int kind, unsigned weight) {
    if (tId < 0) { if (gAuto < 0) return; enter(gAuto++); }
    gPoints.fetch_add(1, std::memory_order_relaxed);
    uint64_t o = gSig.load(std::memory_order_relaxed);
    gSig.store((o ^ (uint64_t) (tId * 8 + kind + 1)) * 0x100000001b3ull, std::memory_order_relaxed);   // approximate order, no synchronisation added
    int level = gLevel.load(std::memory_order_relaxed); if (!level) return;
    tSeed = vh::mix64(tSeed); uint64_t r = tSeed;
    if (r % 8 >= weight) return;
    gDelays.fetch_add(1, std::memory_order_relaxed);
    r >>= 8;
    if (level == 1) sched_yield();
    else {
        uint64_t us = level == 2 ? r % 20 : r % 200;
        auto t = std::chrono::steady_clock::now() + std::chrono::microseconds(us);
        if (us > 50) std::this_thread::sleep_for(std::chrono::microseconds(us)); else while (std::chrono::steady_clock::now() < t) sched_yield();
    }
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { sched::point(0, 2); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); sched::point(1, 2); return r; }
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, void *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void *l) { sched::point(2, 4); __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); }
void __real__ZNSt18condition_variable10notify_oneEv(void *);
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) { sched::point(3, 3); __real__ZNSt18condition_variable10notify_oneEv(c); sched::point(4, 2); }
void __real__ZNSt18condition_variable10notify_allEv(void *);
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) { sched::point(3, 3); __real__ZNSt18condition_variable10notify_allEv(c); sched::point(4, 2); }
}
