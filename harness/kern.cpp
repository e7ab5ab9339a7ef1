// Workload driver + monitors for all masked/unmasked product kernels of one
// (index,value) type pair.  Registration functions come from -DREGS="X(reg_a) X(reg_b)".
#include <numeric>
#include "CSC.h"
#include "CSR.h"
#include "common/algs.hpp"
#include "common/repo_mat.hpp"
#include <omp.h>
#include <atomic>
#include <thread>
#ifdef OMPSHIM
#include "ompshim/ompshim.h"
#endif
using namespace vh;
typedef VIT I_; typedef VNT N_;
typedef CSR<I_, N_> Csr; typedef CSC<I_, N_> Csc;
#define X(f) void f(AlgList<I_, N_> &);
REGS
#undef X

static AlgList<I_, N_> L;

static const int TH[] = {1, 2, 3, 4, 5, 7, 8, 13, 16, 0};
static int pickThreads(Rng &g) {
    if (opt().threads) return opt().threads;
    if (g.chance(1, 90)) return (int) g.range(33, 140);        // far more threads than processors
    return TH[g.below(10)];
}

// place ids far apart: exercises hashing of large keys (no kernel that is O(columns))
static Case<N_> hugeCase(u64 seed) {
    Rng g(seed);
    Case<N_> c = makeCase<N_>(g.next(), g.chance(1, 2) ? FAM_SMALL : (g.chance(1, 2) ? FAM_COLLIDE : FAM_UNSORTED));
    int64_t lim = sizeof(I_) >= 8 ? ((int64_t) 1 << 46) : (int64_t) std::numeric_limits<int32_t>::max() - 1;
    int64_t n = c.B.cols, maxStride = lim / (n + 1), stride = maxStride;
    if (g.chance(1, 2)) { stride = 1; while (stride * 2 <= maxStride && g.chance(9, 10)) stride *= 2; }
    int64_t off = g.chance(1, 2) ? lim - stride * n : 0;
    auto f = [&](Mat<N_> &a) { a.cols = lim; for (auto &r : a.r) for (auto &e : r) e.first = e.first * stride + off; };
    f(c.B); f(c.M);
    c.family = "hugeids"; c.sig = mix64(c.sig + stride);
    return c;
}
static Case<N_> manyRows(u64 seed) {
    Rng g(seed);
    Case<N_> c; c.family = "manyrows";
    int64_t m = g.range(131000, 150000), k = g.range(2, 9), n = g.range(3, 20);
    c.A = rndMat<N_>(g, m, k, 0.2, 1); c.B = rndMat<N_>(g, k, n, 0.4, 0); c.M = rndMat<N_>(g, m, n, 0.15, 1);
    c.sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ hashMat(c.M);
    return c;
}
static Case<N_> wordRows(u64 seed) {   // single rows with thousands of operands: inspection thresholds
    Rng g(seed);
    Case<N_> c; c.family = "deep";
    int64_t k = g.range(3000, 6000), n = g.range(3000, 9000);
    c.A = rndMat<N_>(g, 2, k, 0.9, 0); c.B = rndMat<N_>(g, k, n, 1.5 / n, 0); c.M = rndMat<N_>(g, 2, n, g.chance(1, 2) ? 0.9 : 0.3, 0);
    c.sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ hashMat(c.M);
    return c;
}

static Case<N_> vastRows(u64 seed) {   // rows with more entries than 16 bits can count
    Rng g(seed);
    Case<N_> c; c.family = "vast";
    int64_t w = 65530 + g.below(g.chance(1, 2) ? 12 : 3000), m = g.range(1, 3); double most = g.chance(1, 2) ? 1 : .999;
    if (g.chance(1, 2)) { int64_t k = g.range(1, 3); c.A = rndMat<N_>(g, m, k, .9, 0); c.B = rndMat<N_>(g, k, w, most, 0); c.M = rndMat<N_>(g, m, w, g.chance(1, 2) ? most : .01, 0); }
    else { int64_t n = g.range(1, 12); c.A = rndMat<N_>(g, m, w, most, 0); c.B = rndMat<N_>(g, w, n, g.chance(1, 2) ? 1.0 / n : .01, 0); c.M = rndMat<N_>(g, m, n, .5, 0); }
    c.sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ hashMat(c.M);
    return c;
}
static Case<N_> broadRows(u64 seed) {   // result rows of many thousand entries that arrive out of order
    Rng g(seed);
    Case<N_> c; c.family = "broad";
    int64_t w = g.chance(1, 3) ? g.range(9000, 40000) : g.chance(2, 3) ? g.range(100000, 200000) : g.range(300000, 600000);
    int64_t m = g.range(1, 2), k = g.range(2, 5); double d = g.chance(1, 2) ? .5 : .3;
    c.A = rndMat<N_>(g, m, k, .9, 0); c.B = rndMat<N_>(g, k, w, d, 0);
    c.M = rndMat<N_>(g, m, w, g.chance(1, 2) ? .001 : .1, 0);
    c.sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ hashMat(c.M);
    return c;
}
#ifdef BIGIDS
// rows and columns that agree in their low 12, 16 or 20 bits
static Case<N_> bigIds(u64 seed) {
    Rng g(seed);
    Case<N_> c; c.family = "bigids";
    int64_t k = g.range(1, 12), m = g.chance(1, 4) ? g.range(1, 60) : g.range(4000, 140000), n = g.chance(1, 3) ? g.range(1, 60) : g.range(60000, 5000000);
    auto ids = [&](int64_t lim, int64_t count) { std::set<int64_t> s; int64_t base = g.below(lim); for (int64_t i = 0; i < count; i++) {
        static const int sh[] = {0, 12, 15, 16, 20}; int64_t x = base + ((int64_t) g.below(9) - 4) * ((int64_t) 1 << sh[g.below(5)]); s.insert(x < 0 || x >= lim ? g.below(lim) : x); } return s; };
    c.A = Mat<N_>(m, k); c.B = Mat<N_>(k, n); c.M = Mat<N_>(m, n);
    for (auto i : ids(m, g.range(1, 40))) for (auto x : pick(g, k, g.range(0, k))) c.A.r[i].push_back({x, rndVal<N_>(g)});
    for (auto &r : c.A.r) std::sort(r.begin(), r.end(), [](auto &x, auto &y) { return x.first < y.first; });
    auto cols = ids(n, g.range(1, 30));
    for (auto &r : c.B.r) for (auto j : cols) if (g.chance(2, 3)) r.push_back({j, rndVal<N_>(g)});
    c.sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ hashMat(c.M);
    return c;
}
#endif
static Case<N_> nthCase(long idx, bool dense) {
    u64 seed = mix64(opt().seed * 1000003 + idx);
    long slot = idx % 64;
#ifdef BIGIDS
    if (slot % 5 == 4) return bigIds(seed);
#endif
    if (dense) {
        if (slot == 60 && opt().num("manyrows", 1) && (idx / 64) % 3 == 0) return manyRows(seed);
        if (slot == 46 && (idx / 64) % 3 == 1) return broadRows(seed);
        if (slot == 61) return makeCase<N_>(seed, FAM_WIDECOLS);
        if (slot == 62 && (idx / 64) % 2 == 0) return wordRows(seed);
        if (slot == 62 && (idx / 64) % 4 == 1) return vastRows(seed);
        if (slot == 63) return makeCase<N_>(seed, FAM_LONGROWS);
    }
    static const int order[] = {FAM_TINY, FAM_SMALL, FAM_EMPTYROWS, FAM_HUB, FAM_COLLIDE, FAM_TINY, FAM_TALL, FAM_WIDE, FAM_DENSE,
                                FAM_BAND, FAM_UNSORTED, FAM_SMALL, FAM_DEGENERATE, FAM_COLLIDE, FAM_TINY, FAM_MEDIUM};
    if (slot % 16 == 15 && slot / 16 != 1) return makeCase<N_>(seed, slot / 16 == 0 ? FAM_MEDIUM : FAM_SMALL);
    return makeCase<N_>(seed, order[slot % 16]);
}

struct Operands {
    Csr A, B, M; Csc Bc;
    bool haveC = false;
    Operands(const Case<N_> &c, bool csc) {
        fillCSR<I_, N_>(A, c.A); fillCSR<I_, N_>(B, c.B); fillCSR<I_, N_>(M, c.M);
        if (csc) { fillCSC<I_, N_>(Bc, c.B); haveC = true; } else { Bc.rows = Bc.cols = Bc.nnz = 0; }
    }
};
static std::string inputsIntact(const Operands &o, const Case<N_> &c, const Mat<N_> &Bt) {
    std::string s = sameStored<I_, N_>(o.A.rows, o.A.cols, o.A.nnz, o.A.rowptr, o.A.colids, o.A.values, c.A);
    if (!s.empty()) return "left operand: " + s;
    s = sameStored<I_, N_>(o.B.rows, o.B.cols, o.B.nnz, o.B.rowptr, o.B.colids, o.B.values, c.B);
    if (!s.empty()) return "right operand: " + s;
    s = sameStored<I_, N_>(o.M.rows, o.M.cols, o.M.nnz, o.M.rowptr, o.M.colids, o.M.values, c.M);
    if (!s.empty()) return "mask: " + s;
    if (o.haveC) {
        s = sameStored<I_, N_>(o.Bc.cols, o.Bc.rows, o.Bc.nnz, o.Bc.colptr, o.Bc.rowids, o.Bc.values, Bt);
        if (!s.empty()) return "right operand by columns: " + s;
    }
    return "";
}
// every product goes through here; with the shim, each call gets its own schedule
static u64 gCalls = 0;
static void invoke(const Alg<I_, N_> &a, const Csr &A, const Csc &Bc, const Csr &B, Csr &C, const Csr &M, int sr, int th) {
#ifdef OMPSHIM
    static const int sm = (int) opt().num("shim", 0);
    shim_config(sm == 3 ? (gCalls % 2 ? 2 : 1) : sm, mix64(opt().seed * 1315423911u + gCalls));
#endif
    gCalls++;
    if (a.csc) a.fi(A, Bc, C, M, MulOp<N_>{sr}, AddOp<N_>{sr}, (unsigned) th);
    else a.f(A, B, C, M, MulOp<N_>{sr}, AddOp<N_>{sr}, (unsigned) th);
}
static void shimEvidence() {
#ifdef OMPSHIM
    uint64_t r, e, d, m;
    shim_stats(&r, &e, &d, &m);
    count("parallel_regions", r); count("sync_events", e); count("distinct_sync_orders", d); maxi("team_size", m);
#endif
}
static void call(const Alg<I_, N_> &a, const Csr &A, const Operands &o, const Csr &B, Csr &C, const Csr &M, int sr, int th) {
    invoke(a, A, o.Bc, B, C, M, sr, th);
}
static int pickSr(Rng &g, const Alg<I_, N_> &a) {
    if (a.name.find("plustimes") != std::string::npos) return SR_PLUSTIMES;
    if (a.name.find("plusonly") != std::string::npos) { static const int s[] = {SR_HASH, SR_PLUSSECOND, SR_PLUSPAIR, SR_PLUSTIMES, SR_XORHASH}; return s[g.below(5)]; }
    return g.chance(2, 5) ? SR_HASH : (int) g.below(SR_COUNT);
}
static std::string describe(const Case<N_> &c, const RefInfo<N_> &ri) {
    char b[300];
    snprintf(b, sizeof b, "%s %lldx%lld * %lldx%lld mask nnz %zu: %llu candidate products, %llu excluded by the mask, %llu entries, %llu accumulations",
             c.family.c_str(), (long long) c.A.rows, (long long) c.A.cols, (long long) c.B.rows, (long long) c.B.cols, c.M.nnz(),
             (unsigned long long) ri.candidates, (unsigned long long) ri.excluded, (unsigned long long) ri.entries, (unsigned long long) ri.accumulated);
    return b;
}
static bool wanted(const Alg<I_, N_> &a, const Case<N_> &c, bool huge) {
    if (!opt().alg.empty() && opt().alg != a.name) return false;
    if (a.needSorted && !c.sorted) return false;
    if (huge && (a.denseCols || a.csc)) return false;
    return true;
}
// one monitored call; returns false after a failure
static bool monitored(const Alg<I_, N_> &a, const Case<N_> &c, const Csr &C, const Mat<N_> &want, const char *what = "") {
    bool sorted = a.sortedOut && c.sorted;
    std::string s = checkCompressed<I_, N_>(C.rows, C.cols, C.nnz, C.rowptr, C.colids, C.values, want, sorted);
    if (s.empty() && !C.zerobased) s = "base: the result claims to be one-based";
    if (s.empty()) return true;
    fail(a.name + ":" + what + category(s), "%s", s.c_str());
    return false;
}

static void modeProduct() {
    long n = opt().cases;
    for (long idx = opt().from; idx < n; idx++) {
        if (!opt().selected(idx)) continue;
        bool huge = idx % 20 == 19;
        setCase("idx=%ld building", idx);
        Case<N_> c = huge ? hugeCase(mix64(opt().seed * 7919 + idx)) : nthCase(idx, true);
        Rng g(mix64(opt().seed + 77 * idx));
        bool anyCsc = false;
        for (auto &a : L) anyCsc |= a.csc;
        Operands o(c, anyCsc && !huge);
        Mat<N_> Bt = o.haveC ? transpose(c.B) : Mat<N_>();
        std::map<std::pair<int, int>, Mat<N_>> refs;
        Csr reused;       // holds whatever the previous kernel left behind
        for (auto &a : L) {
            if (!wanted(a, c, huge)) { g.next(); continue; }
            Rng ga(g.next());
            int sr = pickSr(ga, a), th = pickThreads(ga);
            int reps = c.A.rows < 3 ? 1 : 1 + (int) ga.below(2);
            auto key = std::make_pair(a.kind, sr);
            RefInfo<N_> ri;
            auto it = refs.find(key);
            if (it == refs.end() || !refs.count(key)) {
                Mat<N_> w = refProduct(c.A, c.B, &c.M, a.kind, MulOp<N_>{sr}, AddOp<N_>{sr}, &ri);
                it = refs.emplace(key, std::move(w)).first;
                evaluation(c.sig ^ mix64(a.kind * 64 + sr), ri.entries > 0 && (a.kind == K_UNMASKED || ri.excluded > 0));
                count(std::string("family.") + c.family);
                count("entries", ri.entries); count("excluded_candidates", ri.excluded); count("accumulations", ri.accumulated);
                maxi("result_nnz", ri.entries); maxi("rows", c.A.rows); maxi("cols", c.B.cols);
                if (ri.excluded > 0 && ri.accumulated > 0 && idx % 37 == 5) sample(describe(c, ri) + " semiring " + srName(sr));
            }
            for (int rep = 0; rep < reps; rep++) {
                int t = rep == 0 ? th : pickThreads(ga);
                setCase("idx=%ld alg=%s family=%s semiring=%s threads=%d dims=%lldx%lldx%lld", idx, a.name.c_str(), c.family.c_str(), srName(sr), t,
                        (long long) c.A.rows, (long long) c.A.cols, (long long) c.B.cols);
                Csr fresh;
                Csr &C = ga.chance(1, 2) && !a.freshOut ? reused : fresh;
                // an earlier result may have been handed over to one-based code before its object is reused
                if (&C == &reused && C.rowptr && ga.chance(1, 6)) { C.ConvertOneBased(); count("reused.one-based"); }
                call(a, o.A, o, o.B, C, o.M, sr, t);
                count("calls." + a.name); count("calls");
                if (!monitored(a, c, C, it->second)) break;
            }
        }
        std::string s = inputsIntact(o, c, Bt);
        if (!s.empty()) fail("inputs", "%s", s.c_str());
    }
}

// structure monitor + chaining: results are fed back as operands and masks of later products
static void modeChain() {
    long n = opt().cases;
    for (long idx = opt().from; idx < n; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 31337 + idx));
        int64_t d = idx % 8 == 7 ? g.range(100, 300) : g.range(2, 40);
        double dens = std::min(1.0, (1.0 + g.below(5)) / d);
        Case<N_> c; c.family = "chain";
        c.A = rndMat<N_>(g, d, d, dens, g.below(5)); c.B = rndMat<N_>(g, d, d, dens, g.below(5)); c.M = rndMat<N_>(g, d, d, std::min(1.0, dens * 4), g.below(4));
        std::vector<Mat<N_>> pool{c.A, c.B, c.M};
        std::vector<Csr *> live;
        std::vector<bool> sorted{true, true, true};
        for (auto &m : pool) { Csr *x = new Csr; fillCSR<I_, N_>(*x, m); live.push_back(x); }
        int steps = 4 + (int) g.below(8);
        u64 sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ hashMat(c.M);
        bool grew = false;
        for (int s = 0; s < steps; s++) {
            const Alg<I_, N_> *a = nullptr;
            int x, y, z;
            for (int tries = 0; tries < 200; tries++) {
                const Alg<I_, N_> &k = L[g.below(L.size())];
                x = g.below(live.size()); y = g.below(live.size()); z = g.below(live.size());
                if (!opt().alg.empty() && opt().alg != k.name) continue;
                if (k.needSorted && !(sorted[x] && sorted[y] && sorted[z])) continue;
                a = &k; break;
            }
            if (!a) break;
            int sr = pickSr(g, *a), th = pickThreads(g);
            setCase("idx=%ld step=%d alg=%s semiring=%s threads=%d operands=%d,%d,%d dim=%lld", idx, s, a->name.c_str(), srName(sr), th, x, y, z, (long long) d);
            Case<N_> cur; cur.A = pool[x]; cur.B = pool[y]; cur.M = pool[z]; cur.sorted = sorted[z];
            Csr *C = new Csr;
            if (a->csc) {
                Csc Bc; fillCSC<I_, N_>(Bc, pool[y]);
                invoke(*a, *live[x], Bc, *live[y], *C, *live[z], sr, th);
            } else { static Csc none; invoke(*a, *live[x], none, *live[y], *C, *live[z], sr, th); }
            RefInfo<N_> ri;
            Mat<N_> want = refProduct(pool[x], pool[y], &pool[z], a->kind, MulOp<N_>{sr}, AddOp<N_>{sr}, &ri);
            count("steps"); count("calls." + a->name); count("entries", ri.entries);
            if (x > 2 || y > 2 || z > 2) { count("steps_on_earlier_results"); if (ri.entries) grew = true; }
            sig = mix64(sig ^ (u64) (s * 131 + x * 17 + y * 5 + z) ^ ri.entries);
            bool sorted_req = a->sortedOut == 1 || (a->sortedOut == 2 && sorted[z]);
            cur.sorted = sorted_req;
            if (!monitored(*a, cur, *C, want, "chain-")) { delete C; break; }
            if (a->kind == K_PLAIN && (size_t) C->nnz > pool[z].nnz()) fail(a->name + ":larger-than-mask", "nnz %lld mask %zu", (long long) C->nnz, pool[z].nnz());
            bool isSorted = true;
            for (I_ i = 0; i < C->rows; i++) for (I_ j = C->rowptr[i]; j + 1 < C->rowptr[i + 1]; j++) if (C->colids[j] >= C->colids[j + 1]) isSorted = false;
            if (sorted_req) count("sorted_results_checked");
            live.push_back(C); pool.push_back(fromCSR<I_, N_>(*C)); sorted.push_back(isSorted);
            if (pool.size() > 12) break;
        }
        evaluation(sig, grew);
        if (idx % 50 == 3) sample("chain of " + std::to_string(pool.size() - 3) + " products on " + std::to_string(d) + "x" + std::to_string(d) + ", last: " + currentCase());
        for (size_t i = 0; i < 3; i++) {
            std::string s = sameStored<I_, N_>(live[i]->rows, live[i]->cols, live[i]->nnz, live[i]->rowptr, live[i]->colids, live[i]->values, pool[i]);
            if (!s.empty()) fail("chain:inputs", "operand %zu: %s", i, s.c_str());
        }
        for (auto p : live) delete p;
    }
}

// output aliases an operand / carries an older result; other operands keep their content
static void modeAlias() {
    long n = opt().cases;
    for (long idx = opt().from; idx < n; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 99991 + idx));
        bool square = true;
        int64_t d = idx % 10 == 9 ? g.range(80, 250) : g.range(1, 30);
        double dens = std::min(1.0, (0.5 + g.below(6)) / d);
        Case<N_> c; c.family = "alias";
        c.A = rndMat<N_>(g, d, d, dens, g.below(5)); c.B = rndMat<N_>(g, d, d, dens, g.below(5)); c.M = rndMat<N_>(g, d, d, std::min(1.0, dens * 3), g.below(5));
        (void) square;
        for (auto &a : L) {
            Rng ga(g.next());
            if (!opt().alg.empty() && opt().alg != a.name) continue;
            int sr = pickSr(ga, a), th = pickThreads(ga);
            // same[]: which parameters share one object. 0: fresh C, 1: C=A, 2: C=B, 3: C=M, 4: A=B, 5: A=B=C, 6: A=M, 7: all the same, 8: C holds stale content
            int pat = (int) ga.below(9);
            if (a.freshOut) { pat = pat % 3 == 0 ? 0 : (pat % 3 == 1 ? 4 : 6); if (a.csc && pat == 4) pat = 6; }
            if (a.csc && (pat == 2 || pat == 4 || pat == 5 || pat == 7)) pat = ga.chance(1, 2) ? 1 : 3;
            const Mat<N_> &mA = c.A, &mB = (pat == 4 || pat == 5 || pat == 7) ? c.A : c.B, &mM = (pat == 6 || pat == 7) ? c.A : c.M;
            RefInfo<N_> ri;
            Mat<N_> want = refProduct(mA, mB, &mM, a.kind, MulOp<N_>{sr}, AddOp<N_>{sr}, &ri);
            static const char *pn[] = {"fresh", "C=A", "C=B", "C=M", "A=B", "C=A=B", "A=M", "C=A=B=M", "stale-C"};
            setCase("idx=%ld alg=%s alias=%s semiring=%s threads=%d dim=%lld", idx, a.name.c_str(), pn[pat], srName(sr), th, (long long) d);
            Csr oA, oB, oM, oC; Csc oBc;
            fillCSR<I_, N_>(oA, mA); fillCSR<I_, N_>(oB, mB); fillCSR<I_, N_>(oM, mM);
            if (a.csc) fillCSC<I_, N_>(oBc, mB); else oBc.rows = oBc.cols = oBc.nnz = 0;
            if (pat == 8) { Rng gs(ga.next()); Mat<N_> st_ = rndMat<N_>(gs, 1 + gs.below(50), 1 + gs.below(50), 0.5, 0); fillCSR<I_, N_>(oC, st_); }
            Csr *pA = &oA, *pB = &oB, *pM = &oM, *pC = &oC;
            switch (pat) {
                case 1: pC = pA; break; case 2: pC = pB; break; case 3: pC = pM; break;
                case 4: pB = pA; break; case 5: pB = pA; pC = pA; break; case 6: pM = pA; break;
                case 7: pB = pM = pC = pA; break; default: break;
            }
            if (pat == 8 && ga.chance(1, 3)) { oC.ConvertOneBased(); count("stale.one-based"); }
            invoke(a, *pA, oBc, *pB, *pC, *pM, sr, th);
            count(std::string("alias.") + pn[pat]); count("calls." + a.name); count("entries", ri.entries);
            evaluation(mix64(hashMat(c.A) + hashMat(c.B) * 3 + hashMat(c.M) * 7) ^ mix64(pat * 1000 + sr * 50 + th) ^ mix64(std::hash<std::string>()(a.name)), ri.entries > 0 && pat != 0);
            if (ri.entries > 3 && idx % 40 == 3) sample(currentCase() + " -> " + std::to_string(ri.entries) + " entries");
            monitored(a, c, *pC, want, (std::string("alias-") + pn[pat] + "-").c_str());
            auto intact = [&](Csr *p, const Mat<N_> &m, const char *who) {
                if (p == pC) return;
                std::string s = sameStored<I_, N_>(p->rows, p->cols, p->nnz, p->rowptr, p->colids, p->values, m);
                if (!s.empty()) fail(a.name + ":operand-modified", "%s: %s", who, s.c_str());
            };
            intact(pA, mA, "left"); intact(pM, mM, "mask");
            if (!a.csc) intact(pB, mB, "right");
            // and the product can be repeated into the same output object
            if (pC == &oC && !a.freshOut && ga.chance(1, 2)) {
                invoke(a, *pA, oBc, *pB, *pC, *pM, sr, th);
                count("repeats");
                monitored(a, c, *pC, want, "repeat-");
            }
        }
    }
}

// identical results whatever the number of threads (and on repetition)
static void modeThreads() {
    long n = opt().cases;
    for (long idx = opt().from; idx < n; idx++) {
        if (!opt().selected(idx)) continue;
        setCase("idx=%ld building", idx);
        Case<N_> c = nthCase(idx, opt().num("dense", 1));
        Rng g(mix64(opt().seed + 177 * idx));
        bool anyCsc = false;
        for (auto &a : L) anyCsc |= a.csc;
        Operands o(c, anyCsc);
        for (auto &a : L) {
            Rng ga(g.next());
            if (!wanted(a, c, false)) continue;
            int sr = pickSr(ga, a);
            Mat<N_> first; bool have = false;
            int k = 3 + (int) ga.below(3);
            if (c.family == "manyrows" || c.family == "widecols" || c.family == "broad") k = 3;
            int used = 0; u64 ents = 0;
            for (int r = 0; r < k; r++) {
                int t = r == 0 ? 1 : (r == 1 ? (int) ga.range(2, 9) : (ga.chance(1, 3) ? (int) std::min<int64_t>(c.A.rows + ga.below(4) + 1, 40) : pickThreads(ga)));
                if (r == 2 && ga.chance(1, 24)) t = (int) ga.range(60, 150);        // far more threads than processors
                setCase("idx=%ld alg=%s family=%s semiring=%s threads=%d dims=%lldx%lldx%lld", idx, a.name.c_str(), c.family.c_str(), srName(sr), t,
                        (long long) c.A.rows, (long long) c.A.cols, (long long) c.B.cols);
                Csr C;
                call(a, o.A, o, o.B, C, o.M, sr, t);
                count("calls"); seen("thread_counts", t); maxi("threads", t);
                used++;
                if (!have) {
                    RefInfo<N_> ri;
                    first = refProduct(c.A, c.B, &c.M, a.kind, MulOp<N_>{sr}, AddOp<N_>{sr}, &ri); have = true; ents = ri.entries;
                }
                if (!monitored(a, c, C, first, "threads-")) break;
            }
            evaluation(c.sig ^ mix64(std::hash<std::string>()(a.name)) ^ sr, ents > 0 && used > 1 && c.A.rows > 1);
            if (ents > 5 && idx % 30 == 4) sample(currentCase());
        }
    }
}

// several callers at the same time, on shared operands, each with its own output: everybody gets what it would get alone
static void modeConcurrent() {
    long n = opt().cases;
    int maxTh = (int) opt().num("team", 1);
    for (long idx = opt().from; idx < n; idx++) {
        if (!opt().selected(idx)) continue;
        setCase("idx=%ld building", idx);
        bool big = opt().num("big", 0);
        auto draw = [&](long i) { return big ? manyRows(mix64(opt().seed * 1000003 + i)) : nthCase(i, opt().num("dense", 1)); };
        Case<N_> c[2] = {draw(2 * idx), draw(2 * idx + 1)};
        Rng g(mix64(opt().seed + 1777 * idx));
        bool anyCsc = false;
        for (auto &a : L) anyCsc |= a.csc;
        Operands o0(c[0], anyCsc), o1(c[1], anyCsc);
        Operands *o[2] = {&o0, &o1};
        Mat<N_> Bt[2];
        for (int k = 0; k < 2; k++) if (o[k]->haveC) Bt[k] = transpose(c[k].B);
        std::vector<const Alg<I_, N_> *> ok[2];
        for (auto &a : L) for (int k = 0; k < 2; k++) if (wanted(a, c[k], false)) ok[k].push_back(&a);
        if (ok[0].empty() && ok[1].empty()) continue;
        long rounds = opt().num("rounds", 6);
        for (long r = 0; r < rounds; r++) {
            struct Job { const Alg<I_, N_> *a; int k, sr, th, reps; Mat<N_> want; u64 entries; std::vector<Csr> out; };
            int callers = (int) g.range(2, 4);
            std::vector<Job> jobs(callers);
            std::string who;
            for (int j = 0; j < callers; j++) {
                Job &J = jobs[j];
                J.k = (int) g.below(2);
                if (ok[J.k].empty()) J.k = 1 - J.k;
                J.a = ok[J.k][g.below(ok[J.k].size())];
                if (j && g.chance(1, 2)) for (int k = 0; k < 2; k++) {      // often the same kernel as the first caller
                    int q = g.chance(1, 3) ? k : 1 - k;
                    for (auto *x : ok[q]) if (x == jobs[0].a) { J.a = x; J.k = q; }
                }
                J.sr = pickSr(g, *J.a); J.th = (int) g.range(1, maxTh); J.reps = big ? 1 : (int) g.range(1, 3);
                RefInfo<N_> ri;
                J.want = refProduct(c[J.k].A, c[J.k].B, &c[J.k].M, J.a->kind, MulOp<N_>{J.sr}, AddOp<N_>{J.sr}, &ri);
                J.entries = ri.entries; J.out.resize(J.reps);
                who += (j ? " | " : "") + J.a->name + "/" + c[J.k].family + "/" + srName(J.sr) + "/" + std::to_string(J.th);
            }
            setCase("idx=%ld round=%ld callers: %s", idx, r, who.c_str());
            std::atomic<int> ready{0};
            std::vector<std::thread> T;
            for (int j = 0; j < callers; j++) T.emplace_back([&, j] {
                Job &J = jobs[j];
                omp_set_dynamic(0); omp_set_num_threads(J.th);
                ready.fetch_add(1); while (ready.load() < callers) {}
                for (int q = 0; q < J.reps; q++) {
                    Operands &p = *o[J.k];
                    if (J.a->csc) J.a->fi(p.A, p.Bc, J.out[q], p.M, MulOp<N_>{J.sr}, AddOp<N_>{J.sr}, (unsigned) J.th);
                    else J.a->f(p.A, p.B, J.out[q], p.M, MulOp<N_>{J.sr}, AddOp<N_>{J.sr}, (unsigned) J.th);
                }
            });
            for (auto &t : T) t.join();
            bool good = true; u64 h = 0, ents = 0;
            for (auto &J : jobs) {
                h = mix64(h + c[J.k].sig + mix64(std::hash<std::string>()(J.a->name)) + J.sr * 64 + J.th);
                count("calls", J.reps); count("calls." + J.a->name, J.reps);
                ents += J.entries;
                for (auto &C : J.out) if (good) good = monitored(*J.a, c[J.k], C, J.want, "concurrent-");
            }
            count("overlapping groups"); maxi("callers", callers);
            evaluation(h, ents > 0);
            if (ents > 5 && idx % 30 == 4) sample(currentCase());
        }
        for (int k = 0; k < 2; k++) { std::string s = inputsIntact(*o[k], c[k], Bt[k]); if (!s.empty()) fail("inputs", "%s", s.c_str()); }
    }
}

int main(int argc, char **argv) {
    vh::init(argc, argv);
    omp_set_dynamic(0);
#define X(f) f(L);
    REGS
#undef X
    std::string m = opt().mode;
    if (m == "chain") modeChain();
    else if (m == "alias") modeAlias();
    else if (m == "threads") modeThreads();
    else if (m == "concurrent") modeConcurrent();
    else modeProduct();
    shimEvidence();
    return vh::finish();
}
