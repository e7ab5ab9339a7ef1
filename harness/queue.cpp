// The concurrent queue and the capacity gate of the parallel generator under hostile schedules.
// Built once per PART (1 queue, 2 gate, 0 main with the schedule injection).
#if PART == 1
#include "PaRMAT/src/threadsafe_queue.hpp"
#elif PART == 2
#include "PaRMAT/src/capacity_controller.hpp"
#endif
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <sched.h>
#include "common/vh.hpp"
#include "common/sched.hpp"
using namespace vh;

#if PART == 1
namespace {
struct Item {                       // knows whether it was moved from
    long id = -1; std::unique_ptr<long> p;
    Item() {}
    explicit Item(long i) : id(i), p(new long(i)) {}
    Item(Item &&o) noexcept : id(o.id), p(std::move(o.p)) {}
    Item &operator=(Item &&o) noexcept { id = o.id; p = std::move(o.p); return *this; }
    bool ok() const { return p && *p == id; }
};
struct Heavy {
    std::vector<long> v; long id = -1;
    Heavy() {}
    explicit Heavy(long i) : v(1 + i % 50, i), id(i) {}
    bool ok() const { if (v.size() != (size_t) (1 + id % 50)) return false; for (long x : v) if (x != id) return false; return true; }
};
struct Plain { long id = -1; Plain() {} explicit Plain(long i) : id(i) {} bool ok() const { return true; } };

template<class T> auto isEmpty(threadsafe_queue<T> &q, int) -> decltype((bool) q.empty()) { return q.empty(); }
template<class T> long popOnce(threadsafe_queue<T> &q, int form) {      // id, -1 nothing, -2 damaged
    if (form == 0) { auto p = q.try_pop(); return !p ? -1 : p->ok() ? p->id : -2; }
    if (form == 1) { T v; if (!q.try_pop(v)) return -1; return v.ok() ? v.id : -2; }
    if (form == 2) { auto p = q.wait_and_pop(); return !p ? -2 : p->ok() ? p->id : -2; }
    T v; q.wait_and_pop(v); return v.ok() ? v.id : -2;
}
template<class T> void sequential(const char *ty, long idx, Rng &g) {
    int steps = (int) g.below(g.chance(1, 4) ? 4000 : 60);
    int bias = (int) g.below(5);
    setCase("idx=%ld alg=queue-history %s steps=%d bias=%d", idx, ty, steps, bias);
    std::deque<long> model; long id = 0; size_t most = 0, popped = 0;
    {
        threadsafe_queue<T> q;
        for (int s = 0; s < steps; s++) {
            int op = (int) g.below(10);
            if (op < 3 + bias) { q.push(T(id)); model.push_back(id++); most = std::max(most, model.size()); }
            else if (op == 9) { if (isEmpty(q, 0) != model.empty()) { fail("queue:empty", "step %d: empty() is wrong with %zu elements", s, model.size()); break; } }
            else {
                int form = (int) g.below(model.empty() ? 2 : 4);
                long r = popOnce(q, form), e = model.empty() ? -1 : model.front();
                if (r != e) { fail("queue:sequential", "step %d: form %d gave %ld, expected %ld", s, form, r, e); break; }
                if (!model.empty()) { model.pop_front(); popped++; }
            }
        }
        count("elements.left.at.destruction", model.size());
    }
    count("operations", steps); count("histories.sequential"); maxi("queue.length", most);
    evaluation(mix64(idx) ^ steps, popped > 2);
}
template<class T> void destroyLong(const char *ty, long idx, Rng &g) {
    size_t n = 200000 + g.below(200000);
    setCase("idx=%ld alg=queue-destroy %s elements=%zu", idx, ty, n);
    {
        threadsafe_queue<T> q;
        for (size_t i = 0; i < n; i++) q.push(T((long) i));
    }
    count("queues.destroyed.long"); maxi("queue.length", n); evaluation(mix64(idx) ^ n, true);
}
struct Op { long id; uint64_t s, e; };
template<class T> void concurrent(const char *ty, long idx, Rng &g) {
    int P = 1 + (int) g.below(4), C = 1 + (int) g.below(4), per = 1 + (int) g.below(g.chance(1, 5) ? 400 : 24);
    int style = (int) g.below(4);               // 0 waiting consumers, 1 polling, 2 mixed, 3 slow producers
    setCase("idx=%ld alg=queue-concurrent %s producers=%d consumers=%d each=%d style=%d", idx, ty, P, C, per, style);
    sched::reset(mix64(opt().seed ^ (idx * 77)), style == 3 ? 3 : (int) g.below(4));
    // heap: kept alive if a thread never comes back
    struct State { threadsafe_queue<T> q; std::vector<std::vector<Op>> push, pop; std::vector<std::vector<Op>> none; std::atomic<long> got{0}, clock{0}, damaged{0}; std::atomic<int> running{0}; };
    auto *S = new State; S->push.resize(P); S->pop.resize(C); S->none.resize(C);
    long total = (long) P * per;
    std::vector<long> quota(C, total / C); for (long r = total % C, i = 0; i < r; i++) quota[i]++;
    std::vector<std::thread> th; S->running = P + C;
    uint64_t sd = g.next();
    for (int p = 0; p < P; p++) th.emplace_back([=] {
        Rng r(sd + p); sched::enter(p);
        for (int i = 0; i < per; i++) {
            if (style == 3 && r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
            long id = (long) p * per + i; uint64_t s = S->clock++; S->q.push(T(id)); uint64_t e = S->clock++;
            S->push[p].push_back({id, s, e}); sched::progress();
        }
        S->running--;
    });
    for (int c = 0; c < C; c++) th.emplace_back([=] {
        Rng r(sd + 100 + c); sched::enter(P + c);
        bool polling = style == 1 || (style == 2 && c % 2);
        for (long left = quota[c]; left > 0;) {
            int form = (int) r.below(2) + (polling || (style == 2 && r.chance(1, 3)) ? 0 : 2);
            uint64_t s = S->clock++; long id = popOnce(S->q, form); uint64_t e = S->clock++;
            if (id == -2) { S->damaged++; left--; continue; }
            if (id == -1) { if (S->none[c].size() < 2000) S->none[c].push_back({-1, s, e}); sched_yield(); continue; }
            S->pop[c].push_back({id, s, e}); left--; sched::progress();
        }
        S->running--;
    });
    if (!sched::await([&] { return S->running == 0; })) {
        long in = 0, out = 0; (void) in; (void) out;
        fail("queue:hang", "no operation completes any more: %d threads are stuck although every element was or will be pushed", (int) S->running);
        writeStats(); fflush(stdout); _exit(3);
    }
    for (auto &t : th) t.join();
    if (S->damaged) fail("queue:damaged", "%ld elements arrived damaged", (long) S->damaged);
    std::vector<Op> pu(total, Op{-1, 0, 0}), po(total, Op{-1, 0, 0});
    for (auto &v : S->push) for (auto &o : v) pu[o.id] = o;
    size_t npop = 0;
    for (auto &v : S->pop) for (auto &o : v) {
        if (o.id < 0 || o.id >= total) { fail("queue:invented", "element %ld was never pushed", o.id); continue; }
        if (po[o.id].id >= 0) fail("queue:twice", "element %ld came out twice", o.id);
        if (o.e < pu[o.id].s) fail("queue:early", "element %ld came out before it went in", o.id);
        po[o.id] = o; npop++;
    }
    if ((long) npop != total) fail("queue:lost", "%zu of %ld elements came out", npop, total);
    else {
        // order: a entirely pushed before b => b is not entirely popped before a
        std::vector<int> byPush(total); for (long i = 0; i < total; i++) byPush[i] = (int) i;
        std::sort(byPush.begin(), byPush.end(), [&](int a, int b) { return pu[a].s < pu[b].s; });
        std::vector<int> byEnd(byPush); std::sort(byEnd.begin(), byEnd.end(), [&](int a, int b) { return pu[a].e < pu[b].e; });
        uint64_t latest = 0; long who = -1; size_t k = 0;       // latest pop start among pushes that ended before b started
        for (int b : byPush) {
            while (k < byEnd.size() && pu[byEnd[k]].e < pu[b].s) { if (po[byEnd[k]].s >= latest) { latest = po[byEnd[k]].s; who = byEnd[k]; } k++; }
            if (who >= 0 && po[b].e < latest) { fail("queue:order", "element %d overtook element %ld", b, who); break; }
        }
        // an unsuccessful try needs an instant at which the queue may be empty
        std::vector<std::pair<uint64_t, uint64_t>> in;
        for (long i = 0; i < total; i++) if (pu[i].e < po[i].s) in.push_back({pu[i].e, po[i].s});
        std::sort(in.begin(), in.end());
        std::vector<std::pair<uint64_t, uint64_t>> un;
        for (auto &x : in) if (!un.empty() && x.first <= un.back().second) un.back().second = std::max(un.back().second, x.second); else un.push_back(x);
        size_t nn = 0;
        for (auto &v : S->none) for (auto &o : v) {
            nn++;
            auto it = std::upper_bound(un.begin(), un.end(), std::make_pair(o.s, ~(uint64_t) 0));
            if (it != un.begin() && (--it)->first <= o.s && it->second >= o.e) { fail("queue:false-empty", "a try found nothing although elements were in the queue throughout"); break; }
        }
        count("tries.on.empty", nn);
    }
    if (!isEmpty(S->q, 0)) fail("queue:empty", "not empty after everything came out");
    count("operations", 2 * total); count("histories.concurrent"); maxi("threads", P + C);
    seen("interleavings", sched::signature());
    evaluation(sched::signature(), P + C > 2 && total > 2);
    delete S;
}
}
void queue_part_1(long idx, Rng &g) {
    if (idx % 400 == 399) return idx / 400 % 2 ? destroyLong<Plain>("plain", idx, g) : destroyLong<Item>("move-only", idx, g);
    switch (idx % 6) {
        case 0: return sequential<Item>("move-only", idx, g);
        case 1: return concurrent<Item>("move-only", idx, g);
        case 2: return sequential<Heavy>("vector", idx, g);
        case 3: return concurrent<Heavy>("vector", idx, g);
        default: return concurrent<Plain>("plain", idx, g);
    }
}
#elif PART == 2
namespace {
template<class T> void gate(const char *ty, long idx, Rng &g) {
    int N = 2 + (int) g.below(6), rounds = 1 + (int) g.below(30);
    long cap = 1 + (long) g.below(g.chance(1, 2) ? 8 : 1000), init = g.chance(1, 4) ? (long) g.below(cap + 1) : 0;
    int style = (int) g.below(3);               // 0 any share, 1 everybody asks for all, 2 big and small
    setCase("idx=%ld alg=capacity %s threads=%d rounds=%d capacity=%ld initial=%ld style=%d", idx, ty, N, rounds, cap, init, style);
    sched::reset(mix64(opt().seed ^ (idx * 131)), (int) g.below(4));
    struct State { capacity_controller<T> c; std::atomic<long> held, most{0}; std::atomic<int> running{0}; State(T m, T i) : c(m, i), held(i) {} };
    auto *S = new State((T) cap, (T) init); S->running = N + (init ? 1 : 0);
    uint64_t sd = g.next();
    std::vector<std::thread> th;
    for (int t = 0; t < N; t++) th.emplace_back([=] {
        Rng r(sd + t); sched::enter(t);
        for (int i = 0; i < rounds; i++) {
            long k = style == 1 ? cap : style == 2 ? (r.chance(1, 2) ? cap : 1) : (long) r.below(cap + 1);
            S->c.accumulate((T) k); sched::progress();
            long h = S->held += k, m = S->most; while (h > m && !S->most.compare_exchange_weak(m, h)) {}
            if (r.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
            S->held -= k;
            S->c.dissipate((T) k);
        }
        S->running--;
    });
    if (init) th.emplace_back([=] { sched::enter(N); std::this_thread::sleep_for(std::chrono::microseconds(50)); S->held -= init; S->c.dissipate((T) init); S->running--; });
    if (!sched::await([&] { return S->running == 0; })) {
        fail("capacity:hang", "%d threads wait although the capacity held is %ld of %ld and no request exceeds it", (int) S->running, (long) S->held, cap);
        writeStats(); fflush(stdout); _exit(3);
    }
    for (auto &t : th) t.join();
    if (S->most > cap) fail("capacity:exceeded", "%ld of %ld was held at once", (long) S->most, cap);
    count("grants", (uint64_t) N * rounds); count("gates"); if (S->most == cap) count("gates.filled"); maxi("threads", N);
    seen("interleavings", sched::signature());
    evaluation(sched::signature(), N > 1 && rounds > 2);
    delete S;
}
// Capacity comes back in steps, and what was granted stays granted: once nothing moves, no waiting request may fit.
template<class T> void handover(const char *ty, long idx, Rng &g) {
    int N = 2 + (int) g.below(6); long cap = 2 + (long) g.below(g.chance(1, 2) ? 10 : 1000);
    setCase("idx=%ld alg=capacity-steps %s threads=%d capacity=%ld", idx, ty, N, cap);
    sched::reset(mix64(opt().seed ^ (idx * 137)), (int) g.below(4));
    struct State { capacity_controller<T> c; std::vector<long> ask; std::vector<std::atomic<int>> st; std::atomic<int> running, arrived{0}; State(T m, T i, int n) : c(m, i), ask(n), st(n), running(n) {} };
    long mine = g.chance(1, 4) ? (long) g.below(cap + 1) : cap;           // what this thread holds
    auto *S = new State((T) cap, (T) mine, N);
    for (int i = 0; i < N; i++) S->ask[i] = g.chance(1, 2) ? 1 + (long) g.below(cap) : g.chance(1, 2) ? 1 : cap;
    std::vector<std::thread> th; uint64_t sd = g.next();
    for (int t = 0; t < N; t++) th.emplace_back([=] {      // st: 0 asking, 1 granted, 2 told to give back, 3 gone
        Rng r(sd + t); sched::enter(t);
        if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(80)));
        S->arrived++; S->c.accumulate((T) S->ask[t]); S->st[t] = 1; sched::progress();
        while (S->st[t] == 1) std::this_thread::sleep_for(std::chrono::microseconds(20));
        S->c.dissipate((T) S->ask[t]); S->st[t] = 3; S->running--;
    });
    auto settled = [&] {
        long held = mine; int waiting = 0; long least = cap + 1;
        for (int t = 0; t < N; t++) { int s = S->st[t]; if (s == 1) held += S->ask[t]; if (s == 2) return false; if (s == 0) { waiting++; least = std::min(least, S->ask[t]); } }
        return !waiting || held + least > cap;
    };
    if (g.chance(3, 4)) { while (S->arrived < N) sched_yield(); std::this_thread::sleep_for(std::chrono::microseconds(g.below(300))); }
    uint64_t steps = 0;
    while (S->running) {
        if (!sched::await(settled)) {
            fail("capacity:not-woken", "after %lu steps a thread still waits although its request fits into the %ld of capacity", (unsigned long) steps, cap);
            writeStats(); fflush(stdout); _exit(3);
        }
        long held = mine; for (int t = 0; t < N; t++) if (S->st[t] == 1) held += S->ask[t];
        if (held > cap) { fail("capacity:exceeded", "%ld of %ld is held at once", held, cap); break; }
        std::vector<int> in; for (int t = 0; t < N; t++) if (S->st[t] == 1) in.push_back(t);
        steps++;
        if (mine && (in.empty() || g.chance(1, 2))) { long k = 1 + (long) g.below(g.chance(1, 3) ? mine : std::min(mine, 2L)); mine -= k; S->c.dissipate((T) k); }
        else if (!in.empty()) S->st[in[g.below(in.size())]] = 2;
        sched::progress();
    }
    for (auto &t : th) t.join();
    count("steps", steps); count("step.gates"); count("grants", N); maxi("threads", N);
    seen("interleavings", sched::signature());
    evaluation(sched::signature(), N > 1);
    delete S;
}
}
void queue_part_2(long idx, Rng &g) {
    switch (idx % 6) {
        case 3: return handover<long long>("long long", idx, g);
        case 4: return handover<int>("int", idx, g);
        case 5: return handover<long>("long", idx, g);
        case 0: return gate<long long>("long long", idx, g);
        case 1: return gate<int>("int", idx, g);
        default: return gate<long>("long", idx, g);
    }
}
#else
#define D(n) void queue_part_##n(long, Rng &) __attribute__((weak));
D(1) D(2)
int main(int argc, char **argv) {
    vh::init(argc, argv);
    void (*f[])(long, Rng &) = {queue_part_1, queue_part_1, queue_part_2};
    long step = opt().num("stride", 1);
    for (long idx = opt().from; idx < opt().cases; idx += step) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        if (auto p = f[idx % 3]) p(idx / 3, g);
        if (idx % 300 < 3) sample(currentCase());
    }
    count("schedule.points", sched::points()); count("schedule.delays", sched::delays());
    return vh::finish();
}
#endif
