// Seeded delays at the synchronisation points of C++ threads. Linked with
// -Wl,--wrap of the mutex and condition-variable entry points (see plans.py); SCHED_IMPL in one object.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <functional>
#include <thread>
namespace sched {
void reset(uint64_t seed, int level);       // level 0 none, 1 yields, 2 short delays, 3 long delays at waits and notifications
void enter(int thread);
void autoIds();                             // threads nobody registered get numbers of their own
void progress();
uint64_t progressed();
uint64_t signature();                       // hash of the order in which threads passed synchronisation points
uint64_t points();
uint64_t delays();
// waits for the condition; false once nothing has made progress for a long time
template<class F> bool await(F done) {
    uint64_t last = progressed(); auto t = std::chrono::steady_clock::now();
    for (int spin = 0; !done(); spin++) {
        if (spin < 200) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(200));
        uint64_t p = progressed(); auto n = std::chrono::steady_clock::now();
        if (p != last) { last = p; t = n; }
        else if (n - t > std::chrono::seconds(30)) return false;
    }
    return true;
}
}
