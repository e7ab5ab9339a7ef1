// A stand-in for the part of libgomp's ABI that g++ -fopenmp code uses, on plain pthreads.
//  * every happens-before edge it creates is a pthread edge that ThreadSanitizer sees, and it
//    creates no edge that OpenMP does not promise (fork, join, barrier, critical);
//  * it can delay threads at random, or run them one at a time in a seeded order;
//  * it records the order in which threads pass synchronisation points.
// Compiled without -fsanitize=thread (its pthread calls are intercepted all the same).
#include "ompshim.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace {
const int MAXT = 256, RING = 64, MAXEV = 1 << 16;

uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

int gMode = 0;
uint64_t gSeed = 1, gRegion = 0;
std::atomic<uint64_t> cRegions{0}, cEvents{0}, cMaxTeam{0}, gOrder{0};
std::set<uint64_t> gOrders;
pthread_mutex_t ordersMu = PTHREAD_MUTEX_INITIALIZER;

struct Barrier {     // sense-reversing, on a mutex+cond so that TSan sees it
    pthread_mutex_t m; pthread_cond_t c; int n = 0, cnt = 0; unsigned gen = 0;
    void init(int k) { pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); n = k; cnt = 0; }
    void wait() {
        pthread_mutex_lock(&m);
        unsigned g = gen;
        if (++cnt == n) { cnt = 0; gen++; pthread_cond_broadcast(&c); }
        else while (g == gen) pthread_cond_wait(&c, &m);
        pthread_mutex_unlock(&m);
    }
    void destroy() { pthread_mutex_destroy(&m); pthread_cond_destroy(&c); }
};

struct Ws { std::atomic<long> next{0}; std::atomic<int> done{0}; };

struct Team {
    int n = 1; void (*fn)(void *) = nullptr; void *data = nullptr;
    Barrier bar;
    std::atomic<long> single{0};
    Ws ws[RING];
    std::atomic<uint32_t> evn{0};
    std::vector<uint16_t> ev;
    // token passing
    bool token = false;
    pthread_mutex_t tm; pthread_cond_t tc[MAXT];
    int state[MAXT];        // 0 runnable, 1 at barrier, 2 finished, 3 waiting for critical
    int current = -1, arrived = 0, started = 0;
    uint64_t rng = 1;
    uint64_t seed = 1;
};

struct Tls {
    Team *team = nullptr; int id = 0; long singleSeq = 0, wsSeq = 0; int level = 0; int nthreads = 0;
    long lstart = 0, lend = 0, lincr = 1, lchunk = 1; bool guided = false; uint64_t rng = 1;
};
thread_local Tls T;

int defaultThreads() {
    static int d = [] { const char *e = getenv("OMP_NUM_THREADS"); int v = e ? atoi(e) : 0; if (v <= 0) v = (int) sysconf(_SC_NPROCESSORS_ONLN); return v < 1 ? 1 : (v > MAXT ? MAXT : v); }();
    return d;
}

void event(int kind) {
    Team *t = T.team;
    if (!t || t->n < 2) return;
    uint32_t i = t->evn.fetch_add(1, std::memory_order_relaxed);
    if (i < t->ev.size()) t->ev[i] = (uint16_t) (kind * 256 + T.id);
}

void delay() {
    if (gMode != 1) return;
    T.rng = mix(T.rng);
    unsigned r = T.rng % 16;
    if (r < 6) return;
    if (r < 10) { sched_yield(); return; }
    if (r < 14) { for (volatile int i = 0, n = (int) ((T.rng >> 8) % 3000); i < n; i++) {} return; }
    struct timespec ts = {0, (long) ((T.rng >> 8) % 60000)};
    nanosleep(&ts, nullptr);
}

// ---- token passing ----------------------------------------------------------
void passToken(Team *t) {              // tm held; choose the next runnable thread
    int cand[MAXT], k = 0;
    for (int i = 0; i < t->n; i++) if (t->state[i] == 0) cand[k++] = i;
    if (k == 0) { t->current = -1; return; }
    t->rng = mix(t->rng);
    t->current = cand[t->rng % k];
    pthread_cond_signal(&t->tc[t->current]);
}
void awaitToken(Team *t, int id) { while (t->current != id) pthread_cond_wait(&t->tc[id], &t->tm); }
void yieldPoint() {
    Team *t = T.team;
    if (!t || !t->token) return;
    pthread_mutex_lock(&t->tm);
    passToken(t);
    awaitToken(t, T.id);
    pthread_mutex_unlock(&t->tm);
}

void teamBarrier() {
    Team *t = T.team;
    if (!t || t->n == 1) return;
    event(1);
    if (!t->token) { delay(); t->bar.wait(); delay(); return; }
    pthread_mutex_lock(&t->tm);
    t->state[T.id] = 1; t->arrived++;
    int live = 0;
    for (int i = 0; i < t->n; i++) if (t->state[i] != 2) live++;
    if (t->arrived == live) { t->arrived = 0; for (int i = 0; i < t->n; i++) if (t->state[i] == 1) t->state[i] = 0; }
    passToken(t);
    awaitToken(t, T.id);
    pthread_mutex_unlock(&t->tm);
}

void runMember(Team *t, int id) {
    Tls saved = T;
    T.team = t; T.id = id; T.singleSeq = 0; T.wsSeq = 0; T.level = saved.level + 1; T.rng = mix(t->seed * 977 + id);
    if (t->n > 1) {
        if (t->token) {
            pthread_mutex_lock(&t->tm);
            if (++t->started == t->n) passToken(t);
            awaitToken(t, id);
            pthread_mutex_unlock(&t->tm);
        } else delay();
        event(0);
    }
    t->fn(t->data);
    if (t->n > 1) {
        event(2);
        if (t->token) {
            pthread_mutex_lock(&t->tm);
            t->state[id] = 2;
            passToken(t);
            pthread_mutex_unlock(&t->tm);
        } else delay();
    }
    T = saved;
}

// ---- persistent workers -----------------------------------------------------
struct Worker { pthread_t th; pthread_mutex_t m; pthread_cond_t c; Team *job = nullptr; int id = 0; bool busy = false; };
std::vector<Worker *> *pool;
void *workerMain(void *p) {
    Worker *w = (Worker *) p;
    pthread_mutex_lock(&w->m);
    for (;;) {
        while (!w->job) pthread_cond_wait(&w->c, &w->m);
        Team *t = w->job; int id = w->id;
        pthread_mutex_unlock(&w->m);
        runMember(t, id);
        pthread_mutex_lock(&w->m);
        w->job = nullptr; w->busy = false;
        pthread_cond_broadcast(&w->c);
    }
    return nullptr;
}
pthread_mutex_t poolMu = PTHREAD_MUTEX_INITIALIZER;
bool poolTaken = false;     // a second root thread forks its own short-lived threads

void finishRegion(Team *t) {
    if (t->n < 2) return;
    uint32_t k = t->evn.load(std::memory_order_relaxed);
    uint64_t h = mix(t->n);
    for (uint32_t i = 0; i < k && i < t->ev.size(); i++) h = mix(h ^ t->ev[i]);
    cEvents.fetch_add(k, std::memory_order_relaxed);
    gOrder.store(mix(gOrder.load(std::memory_order_relaxed) ^ h), std::memory_order_relaxed);
    pthread_mutex_lock(&ordersMu);
    if (gOrders.size() < 2000000) gOrders.insert(h);
    pthread_mutex_unlock(&ordersMu);
}

struct OwnArg { Team *t; int id; };
void *ownMain(void *p) { OwnArg a = *(OwnArg *) p; runMember(a.t, a.id); return nullptr; }

void parallel(void (*fn)(void *), void *data, unsigned num) {
    int n = num ? (int) num : (T.nthreads ? T.nthreads : defaultThreads());
    if (T.level >= 1) n = 1;                       // nested regions are serialised, as in libgomp's default
    if (n > MAXT) n = MAXT;
    Team *t = new Team;
    t->n = n; t->fn = fn; t->data = data;
    t->seed = mix(gSeed ^ (n > 1 ? ++gRegion : 0) * 0x9e37ull);
    t->rng = t->seed;
    if (n == 1) { runMember(t, 0); delete t; return; }
    cRegions.fetch_add(1, std::memory_order_relaxed);
    if ((uint64_t) n > cMaxTeam.load(std::memory_order_relaxed)) cMaxTeam.store(n, std::memory_order_relaxed);
    t->ev.resize(4096);
    t->bar.init(n);
    t->token = gMode == 2;
    pthread_mutex_init(&t->tm, 0);
    for (int i = 0; i < n; i++) { pthread_cond_init(&t->tc[i], 0); t->state[i] = 0; }
    pthread_mutex_lock(&poolMu);
    bool mine = !poolTaken; if (mine) poolTaken = true;
    pthread_mutex_unlock(&poolMu);
    if (mine) {
        if (!pool) pool = new std::vector<Worker *>;
        while ((int) pool->size() < n - 1) {
            Worker *w = new Worker;
            pthread_mutex_init(&w->m, 0); pthread_cond_init(&w->c, 0);
            pool->push_back(w);
            pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
            if (pthread_create(&w->th, &at, workerMain, w)) { perror("pthread_create"); abort(); }
            pthread_attr_destroy(&at);
        }
        // wake the team in a seeded order
        std::vector<int> ord(n - 1);
        for (int i = 0; i < n - 1; i++) ord[i] = i;
        uint64_t r = t->seed;
        if (gMode) for (int i = n - 2; i > 0; i--) { r = mix(r); std::swap(ord[i], ord[r % (i + 1)]); }
        for (int i : ord) {
            Worker *w = (*pool)[i];
            pthread_mutex_lock(&w->m);
            w->id = i + 1; w->job = t; w->busy = true;
            pthread_cond_broadcast(&w->c);
            pthread_mutex_unlock(&w->m);
        }
        runMember(t, 0);
        for (int i = 0; i < n - 1; i++) {
            Worker *w = (*pool)[i];
            pthread_mutex_lock(&w->m);
            while (w->busy) pthread_cond_wait(&w->c, &w->m);
            pthread_mutex_unlock(&w->m);
        }
        pthread_mutex_lock(&poolMu); poolTaken = false; pthread_mutex_unlock(&poolMu);
    } else {
        std::vector<pthread_t> th(n - 1); std::vector<OwnArg> args(n - 1);
        for (int i = 0; i < n - 1; i++) { args[i] = {t, i + 1}; if (pthread_create(&th[i], 0, ownMain, &args[i])) abort(); }
        runMember(t, 0);
        for (auto &x : th) pthread_join(x, nullptr);
    }
    finishRegion(t);
    t->bar.destroy();
    pthread_mutex_destroy(&t->tm);
    for (int i = 0; i < n; i++) pthread_cond_destroy(&t->tc[i]);
    delete t;
}

// ---- work sharing -----------------------------------------------------------
long iterations() { if (T.lincr > 0) return T.lend <= T.lstart ? 0 : (T.lend - T.lstart + T.lincr - 1) / T.lincr; return T.lend >= T.lstart ? 0 : (T.lstart - T.lend - T.lincr - 1) / -T.lincr; }
bool loopNext(long *is, long *ie) {
    Team *t = T.team;
    yieldPoint(); delay();
    long n = iterations(), c = T.lchunk < 1 ? 1 : T.lchunk, b, e;
    if (!t || t->n == 1) {
        static thread_local Ws own;
        Ws &w = t ? t->ws[T.wsSeq % RING] : own;
        b = w.next.load(std::memory_order_relaxed); if (b >= n) return false; e = n; w.next.store(n, std::memory_order_relaxed);
    } else {
        Ws &w = t->ws[T.wsSeq % RING];
        if (T.guided) {
            for (;;) {
                b = w.next.load(std::memory_order_relaxed); if (b >= n) return false;
                long k = (n - b + t->n - 1) / t->n; if (k < c) k = c; e = b + k < n ? b + k : n;
                if (w.next.compare_exchange_weak(b, e, std::memory_order_relaxed)) break;
            }
        } else { b = w.next.fetch_add(c, std::memory_order_relaxed); if (b >= n) return false; e = b + c < n ? b + c : n; }
        event(3);
    }
    *is = T.lstart + b * T.lincr; *ie = T.lstart + e * T.lincr;
    return true;
}
bool loopStart(long s, long e, long inc, long chunk, bool guided, long *is, long *ie) {
    T.lstart = s; T.lend = e; T.lincr = inc; T.lchunk = chunk; T.guided = guided;
    return loopNext(is, ie);
}
void loopEnd() {
    Team *t = T.team;
    if (t) {
        Ws &w = t->ws[T.wsSeq % RING];
        if (w.done.fetch_add(1, std::memory_order_relaxed) == t->n - 1) { w.next.store(0, std::memory_order_relaxed); w.done.store(0, std::memory_order_relaxed); }
        T.wsSeq++;
    }
}
pthread_mutex_t critMu = PTHREAD_MUTEX_INITIALIZER, atomMu = PTHREAD_MUTEX_INITIALIZER;
void lockToken(pthread_mutex_t *m) {
    Team *t = T.team;
    if (t && t->token) {          // one thread runs at a time: retry after others ran
        while (pthread_mutex_trylock(m)) yieldPoint();
        return;
    }
    delay(); pthread_mutex_lock(m);
}
} // namespace

extern "C" {
void shim_config(int mode, uint64_t seed) { gMode = mode; gSeed = seed; gRegion = 0; gOrder.store(seed * 0, std::memory_order_relaxed); }
void shim_stats(uint64_t *r, uint64_t *e, uint64_t *d, uint64_t *m) { *r = cRegions; *e = cEvents; *d = gOrders.size(); *m = cMaxTeam; }
uint64_t shim_last_order() { return gOrder.load(std::memory_order_relaxed); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() { teamBarrier(); }
bool GOMP_single_start() {
    Team *t = T.team;
    if (!t) return true;
    yieldPoint();
    long s = T.singleSeq++;
    long want = s;
    return t->single.compare_exchange_strong(want, s + 1, std::memory_order_relaxed);
}
void GOMP_critical_start() { yieldPoint(); event(4); lockToken(&critMu); }
void GOMP_critical_end() { pthread_mutex_unlock(&critMu); yieldPoint(); }
void GOMP_critical_name_start(void **p) {
    yieldPoint(); event(4);
    static pthread_mutex_t g = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&g);
    if (!*p) { pthread_mutex_t *m = (pthread_mutex_t *) malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(m, 0); *p = m; }
    pthread_mutex_t *m = (pthread_mutex_t *) *p;
    pthread_mutex_unlock(&g);
    lockToken(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *) *p); yieldPoint(); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomMu); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomMu); }

#define LOOPS(NAME, GUIDED) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loopStart(s, e, i, c, GUIDED, is, ie); } \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loopNext(is, ie); }
LOOPS(dynamic, false)
LOOPS(guided, true)
LOOPS(nonmonotonic_dynamic, false)
LOOPS(nonmonotonic_guided, true)
LOOPS(static, false)
void GOMP_loop_end() { loopEnd(); teamBarrier(); }
void GOMP_loop_end_nowait() { loopEnd(); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loopStart(s, e, i, 1, false, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return loopNext(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loopStart(s, e, i, 1, false, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loopNext(is, ie); }

struct PLoop { void (*fn)(void *); void *data; long s, e, i, c; bool guided; };
static void ploop(void *p) {
    PLoop *l = (PLoop *) p;
    T.lstart = l->s; T.lend = l->e; T.lincr = l->i; T.lchunk = l->c; T.guided = l->guided;
    l->fn(l->data);
}
#define PLOOPS(NAME, GUIDED) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { PLoop l{fn, data, s, e, i, c, GUIDED}; parallel(ploop, &l, n); }
PLOOPS(dynamic, false)
PLOOPS(guided, true)
PLOOPS(nonmonotonic_dynamic, false)
PLOOPS(nonmonotonic_guided, true)
PLOOPS(static, false)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { PLoop l{fn, data, s, e, i, 1, false}; parallel(ploop, &l, n); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { PLoop l{fn, data, s, e, i, 1, false}; parallel(ploop, &l, n); }

// loops over 64-bit unsigned ranges: run as loops over iteration numbers
typedef unsigned long long ull;
static thread_local ull uStart, uIncr;
static bool ullConv(bool ok, long b, long e, ull *is, ull *ie) { if (ok) { *is = uStart + (ull) b * uIncr; *ie = uStart + (ull) e * uIncr; } return ok; }
static bool ullStart(bool up, ull s, ull e, ull inc, ull chunk, bool guided, ull *is, ull *ie) {
    uStart = s; uIncr = inc;
    ull n = up ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (0 - inc) - 1) / (0 - inc) : 0);
    long b = 0, x = 0;
    return ullConv(loopStart(0, (long) n, 1, (long) chunk, guided, &b, &x), b, x, is, ie);
}
static bool ullNext(ull *is, ull *ie) { long b = 0, x = 0; return ullConv(loopNext(&b, &x), b, x, is, ie); }
#define ULOOPS(NAME, GUIDED) \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return ullStart(up, s, e, i, c, GUIDED, is, ie); } \
    bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return ullNext(is, ie); }
ULOOPS(dynamic, false)
ULOOPS(guided, true)
ULOOPS(nonmonotonic_dynamic, false)
ULOOPS(nonmonotonic_guided, true)
ULOOPS(static, false)
bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull i, ull *is, ull *ie) { return ullStart(up, s, e, i, 1, false, is, ie); }
bool GOMP_loop_ull_runtime_next(ull *is, ull *ie) { return ullNext(is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull i, ull *is, ull *ie) { return ullStart(up, s, e, i, 1, false, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull *is, ull *ie) { return ullNext(is, ie); }
// sections are loops over section numbers 1..count
unsigned GOMP_sections_start(unsigned count) { long b = 0, e = 0; return loopStart(1, (long) count + 1, 1, 1, false, &b, &e) ? (unsigned) b : 0; }
unsigned GOMP_sections_next() { long b = 0, e = 0; return loopNext(&b, &e) ? (unsigned) b : 0; }
void GOMP_sections_end() { loopEnd(); teamBarrier(); }
void GOMP_sections_end_nowait() { loopEnd(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) { PLoop l{fn, data, 1, (long) count + 1, 1, 1, false}; parallel(ploop, &l, n); }
// tasks run at once in the thread that creates them
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (!cpy) { fn(data); return; }
    char *buf = (char *) malloc(size + align), *arg = (char *) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1));
    cpy(arg, data); fn(arg); free(buf);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { yieldPoint(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return T.team ? T.id : 0; }
int omp_get_num_threads() { return T.team ? T.team->n : 1; }
int omp_get_max_threads() { return T.nthreads ? T.nthreads : defaultThreads(); }
int omp_get_num_procs() { return (int) sysconf(_SC_NPROCESSORS_ONLN); }
void omp_set_num_threads(int n) { T.nthreads = n < 1 ? 1 : n; }
int omp_in_parallel() { return T.team && T.team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return T.level; }
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
}
