// Prefix sums, work estimates and the partition of rows over threads against their definitions.
// Built once per PART (1 scan of utility.h, 2 spgemm-blocks/scan.h, 3 estimates and partition, 4 binning, 0 main).
#include <map>
#include <numeric>
#include <set>
#include "CSC.h"
#include "CSR.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "BIN.h"
#include "common/algs.hpp"
#include "common/repo_mat.hpp"
using namespace vh;

// exact-size heap array: one element too far is seen by AddressSanitizer
template<class T> struct Arr {
    T *p; size_t n;
    explicit Arr(size_t k) : p((T *) malloc(sizeof(T) * k)), n(k) { memset((void *) p, 0x5A, sizeof(T) * k); }
    ~Arr() { free(p); }
    T &operator[](size_t i) { return p[i]; }
};
template<class T> static T elem(Rng &g, int style) {
    switch (style) {
        case 0: return (T) g.below(5);
        case 1: return (T) (g.chance(1, 10) ? g.below(1000) : 0);
        case 2: return (T) g.below(3000);
        case 4: return sizeof(T) == 8 ? (T) g.below(1ull << 34) : (T) g.below(7);
        default: if (std::is_unsigned<T>::value) return (T) g.next(); return (T) g.range(-700, 700);
    }
}
// every fourth index reaches one part; what a case is follows from the index divided by four
static bool big(long idx) { return idx / 4 % 23 == 5; }

#if PART == 1
template<class T> static void one(const char *ty, long idx, Rng &g) {
    size_t N = big(idx) ? (1u << 17) + (g.chance(1, 3) ? g.below(3) : g.below(40000)) : (g.chance(1, 6) ? (1u << 17) - g.below(2) - 1 : 1 + g.below(g.chance(1, 2) ? 6 : 5000));
    int th = (int) (g.chance(1, 30) ? g.range(60, 250) : g.range(1, 13)), style = (int) g.below(5);
    bool exactIn = g.chance(1, 2);              // callers pass N offsets but may hold only N - 1 counts
    setCase("idx=%ld alg=scan types=%s size=%zu threads=%d values=%d", idx, ty, N, th, style);
    if (N > 1000000 / sizeof(T) && std::is_signed<T>::value && style == 2 && sizeof(T) == 4) style = 0;
    Arr<T> in(exactIn ? std::max<size_t>(N - 1, 1) : N), out(N), out2(N);
    for (size_t i = 0; i < in.n; i++) in[i] = elem<T>(g, style);
    std::vector<T> keep(in.p, in.p + in.n), want(N);
    T run = 0;
    for (size_t i = 0; i < N; i++) { want[i] = run; if (i < in.n) run = wAdd(run, in[i]); }
    omp_set_num_threads(th);
    scan(in.p, out.p, (T) N);
    seq_scan(in.p, out2.p, (T) N);
    for (size_t i = 0; i < N; i++) {
        if (out[i] != want[i]) { fail("scan:value", "element %zu of %zu is %lld, expected %lld", i, N, (long long) out[i], (long long) want[i]); return; }
        if (out2[i] != want[i]) { fail("seq-scan:value", "element %zu of %zu", i, N); return; }
    }
    if (memcmp(keep.data(), in.p, in.n * sizeof(T))) fail("scan:input-modified", "size %zu", N);
    // cumulative sum in place
    Arr<T> cs(in.n);
    memcpy(cs.p, in.p, in.n * sizeof(T));
    T total = CumulativeSum(cs.p, (T) in.n);
    T r2 = 0;
    for (size_t i = 0; i < in.n; i++) { if (cs[i] != r2) { fail("cumulative-sum:value", "element %zu of %zu", i, in.n); return; } r2 = wAdd(r2, in[i]); }
    if (total != r2) fail("cumulative-sum:total", "total %lld, expected %lld", (long long) total, (long long) r2);
    count("elements", 3 * N); count(N < (1u << 17) ? "scans.sequential" : "scans.parallel"); maxi("threads", th);
    evaluation(mix64(idx) ^ N ^ sizeof(T), N > 2);
}
void scan_part_1(long idx, Rng &g) {
    switch (idx / 4 % 4) {
        case 0: one<int32_t>("i32", idx, g); break;
        case 1: one<uint32_t>("u32", idx, g); break;
        case 2: one<int64_t>("i64", idx, g); break;
        default: one<uint64_t>("u64", idx, g); break;
    }
}
#elif PART == 2
template<class T> static void one(const char *ty, long idx, Rng &g) {
    size_t N = big(idx) ? (1u << 17) + g.below(30000) : g.below(g.chance(1, 2) ? 20 : 4000);
    int th = (int) (g.chance(1, 30) ? g.range(60, 250) : g.range(1, 13)), style = (int) g.below(5), form = (int) g.below(3);
    bool incl = g.chance(1, 2);
    setCase("idx=%ld alg=%s types=%s size=%zu threads=%d values=%d form=%d", idx, incl ? "inclusive" : "exclusive", ty, N, th, style, form);
    Arr<T> in(N), out(N);
    for (size_t i = 0; i < N; i++) in[i] = elem<T>(g, style);
    std::vector<T> keep(in.p, in.p + N), want(N);
    T run = 0;
    for (size_t i = 0; i < N; i++) { if (incl) want[i] = run = wAdd(run, in[i]); else { want[i] = run; run = wAdd(run, in[i]); } }
    omp_set_num_threads((int) g.range(1, 8));
    if (form < 2) { if (incl) inclusiveScan(in.p, N, out.p, th); else exclusiveScan(in.p, N, out.p, th); }
    else {
        Arr<T> part(th);
        const T *src = in.p; T *dst = out.p, *ps = part.p;
#pragma omp parallel num_threads(th)
        { if (incl) inclusiveScan(src, N, dst, th, ps); else exclusiveScan(src, N, dst, th, ps); }
    }
    for (size_t i = 0; i < N; i++) if (out[i] != want[i]) { fail(incl ? "inclusive:value" : "exclusive:value", "element %zu of %zu is %lld, expected %lld", i, N, (long long) out[i], (long long) want[i]); return; }
    if (N && memcmp(keep.data(), in.p, N * sizeof(T))) fail("scan:input-modified", "size %zu", N);
    count("elements", N); count(form < 2 ? "scans.whole" : "scans.in-team"); maxi("threads", th);
    evaluation(mix64(idx) ^ N ^ sizeof(T), N > 2 && th > 1);
}
void scan_part_2(long idx, Rng &g) {
    switch (idx / 4 % 5) {
        case 0: one<int32_t>("i32", idx, g); break;
        case 1: one<uint32_t>("u32", idx, g); break;
        case 2: one<int64_t>("i64", idx, g); break;
        case 3: one<size_t>("size_t", idx, g); break;
        default: one<double>("f64", idx, g); break;
    }
}
#elif PART == 3
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    auto c = makeCase<NT>(mix64(opt().seed * 99 + idx), (int) g.below(FAM_COUNT));
    int th = (int) (g.chance(1, 4) ? c.A.rows + g.below(5) : g.chance(1, 30) ? g.range(60, 250) : g.range(1, 14));
    if (th > 250) th = 250;
    setCase("idx=%ld alg=partition types=%s family=%s dims=%lldx%lldx%lld threads=%d", idx, ty, c.family.c_str(), (long long) c.A.rows, (long long) c.A.cols, (long long) c.B.cols, th);
    CSR<IT, NT> A, B, M; CSC<IT, NT> Bc;
    fillCSR<IT, NT>(A, c.A); fillCSR<IT, NT>(B, c.B); fillCSR<IT, NT>(M, c.M); fillCSC<IT, NT>(Bc, c.B);
    int64_t m = c.A.rows;
    std::vector<u64> fl(m), mfl(m), wk(m); u64 tf = 0, tm = 0, tw = 0;
    std::vector<int64_t> clen(c.B.cols);
    for (auto &r : c.B.r) for (auto &e : r) clen[e.first]++;
    for (int64_t i = 0; i < m; i++) {
        for (auto &e : c.A.r[i]) fl[i] += c.B.r[e.first].size();
        mfl[i] = c.M.r[i].empty() ? 0 : fl[i];
        for (auto &e : c.M.r[i]) if (!c.A.r[i].empty() && clen[e.first]) wk[i] += c.A.r[i].size() + clen[e.first];
        tf += fl[i]; tm += mfl[i]; tw += wk[i];
    }
    int pt = (int) g.range(1, 9);
    Arr<IT> f1(m), f2(m), w1(m);
    IT a = calculateFlops(A, B, f1.p, pt), b = calculateFlops(A, B, M, f2.p, pt), d = calculateMultOps(A, B, g.chance(1, 2) ? 0 : pt), e = calculateWork(A, Bc, M, w1.p, pt);
    if ((u64) a != tf || (u64) d != tf) { fail("flops:total", "flops %llu / %llu, expected %llu", (unsigned long long) a, (unsigned long long) d, (unsigned long long) tf); return; }
    if ((u64) b != tm) { fail("flops:masked-total", "%llu, expected %llu", (unsigned long long) b, (unsigned long long) tm); return; }
    if ((u64) e != tw) { fail("work:total", "%llu, expected %llu", (unsigned long long) e, (unsigned long long) tw); return; }
    for (int64_t i = 0; i < m; i++) if ((u64) f1[i] != fl[i] || (u64) f2[i] != mfl[i] || (u64) w1[i] != wk[i]) { fail("flops:row", "row %lld: %llu %llu %llu, expected %llu %llu %llu", (long long) i,
        (unsigned long long) f1[i], (unsigned long long) f2[i], (unsigned long long) w1[i], (unsigned long long) fl[i], (unsigned long long) mfl[i], (unsigned long long) wk[i]); return; }
    // partition: contiguous, complete, balanced
    for (int which = 0; which < 2; which++) {
        auto &per = which ? wk : fl; u64 total = which ? tw : tf, mx = 0;
        Arr<IT> acc(m); IT run = 0;
        for (int64_t i = 0; i < m; i++) { acc[i] = run; run += (IT) per[i]; mx = std::max(mx, per[i]); }
        int64_t next = 0;
        for (int t = 0; t < th; t++) {
            auto [lo, hi] = distributeWork((IT) total, acc.p, (IT) m, th, t);
            if ((int64_t) lo != next || (int64_t) hi < (int64_t) lo || (int64_t) hi > m) { fail("partition:cover", "thread %d of %d owns rows [%lld,%lld), the previous range ended at %lld", t, th, (long long) lo, (long long) hi, (long long) next); return; }
            u64 own = 0; for (int64_t i = lo; i < (int64_t) hi; i++) own += per[i];
            if (own > 2 * (total / th) + mx + 2 * (u64) th) { fail("partition:balance", "thread %d of %d owns %llu of %llu units (heaviest row %llu)", t, th, (unsigned long long) own, (unsigned long long) total, (unsigned long long) mx); return; }
            next = hi;
            if (which == 0) {
                // bounds that size the thread's buffers
                u64 up = 0, upc = 0, ma = 0, mm = 0, mf = 0;
                for (int64_t i = lo; i < (int64_t) hi; i++) {
                    up += std::min<u64>(fl[i], c.M.r[i].size()); upc += fl[i]; ma = std::max<u64>(ma, c.A.r[i].size()); mm = std::max<u64>(mm, c.M.r[i].size()); mf = std::max(mf, fl[i]);
                }
                auto [sC, sA, sM, sF] = scanInputs<false, true, true, true, true>((IT) lo, (IT) hi, f1.p, A, B, M);
                auto [cC, cA, cM, cF] = scanInputs<true, true, false, false, false>((IT) lo, (IT) hi, f1.p, A, B, M);
                if ((u64) sC != up || (u64) sA != ma || (u64) sM != mm || (u64) sF != mf) { fail("bounds:plain", "thread %d: (%llu,%llu,%llu,%llu), expected (%llu,%llu,%llu,%llu)", t, (unsigned long long) sC, (unsigned long long) sA, (unsigned long long) sM, (unsigned long long) sF,
                    (unsigned long long) up, (unsigned long long) ma, (unsigned long long) mm, (unsigned long long) mf); return; }
                if ((u64) cC != upc) { fail("bounds:complement", "thread %d: %llu, expected %llu", t, (unsigned long long) cC, (unsigned long long) upc); return; }
                if ((u64) estimateResultSize((IT) lo, (IT) hi, f1.p, A, B, M) != up) { fail("bounds:estimate", "thread %d", t); return; }
            }
            count("ranges"); if (lo == hi) count("ranges.empty");
        }
        if (next != m) { fail("partition:cover", "rows end at %lld of %lld", (long long) next, (long long) m); return; }
    }
    count("rows", m); maxi("threads", th); seen("thread_counts", th);
    evaluation(c.sig ^ mix64(th), tf > 0 && th > 1 && m > 1);
}
void scan_part_3(long idx, Rng &g) {
    switch (idx / 4 % 3) {
        case 0: one<int32_t, double>("i32f64", idx, g); break;
        case 1: one<uint32_t, int32_t>("u32i32", idx, g); break;
        default: one<int64_t, uint64_t>("i64u64", idx, g); break;
    }
}
#elif PART == 4
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    int fam = (int) g.below(FAM_COUNT);
    auto c = makeCase<NT>(mix64(opt().seed * 101 + idx), fam);
    if (big(idx)) { Rng g2(idx); c.A = rndMat<NT>(g2, 131000 + g2.below(1500), 9, 0.3, 1); c.B = rndMat<NT>(g2, 9, 40, 0.2, 2); }
    int th = (int) (g.chance(1, 30) ? g.range(60, 200) : g.range(1, 12));
    IT ht = (IT) 1 << g.below(6);
    setCase("idx=%ld alg=bin types=%s family=%s dims=%lldx%lldx%lld threads=%d table=%lld", idx, ty, c.family.c_str(), (long long) c.A.rows, (long long) c.A.cols, (long long) c.B.cols, th, (long long) ht);
    CSR<IT, NT> A, B; fillCSR<IT, NT>(A, c.A); fillCSR<IT, NT>(B, c.B);
    int64_t m = c.A.rows, n = c.B.cols;
    std::vector<u64> fl(m); u64 total = 0, mx = 0;
    for (int64_t i = 0; i < m; i++) { for (auto &e : c.A.r[i]) fl[i] += c.B.r[e.first].size(); total += fl[i]; mx = std::max(mx, fl[i]); }
    omp_set_num_threads(th);
    BIN<IT, NT> bin((IT) m, ht, th);
    bin.set_max_bin(A.rowptr, A.colids, B.rowptr, (IT) m, (IT) n);
    if ((u64) bin.total_intprod != total) { fail("bin:total", "%lld, expected %llu", (long long) bin.total_intprod, (unsigned long long) total); return; }
    for (int64_t i = 0; i < m; i++) {
        if ((u64) bin.row_nz[i] != fl[i]) { fail("bin:row", "row %lld: %llu, expected %llu", (long long) i, (unsigned long long) bin.row_nz[i], (unsigned long long) fl[i]); return; }
        u64 need = std::min<u64>(fl[i], n);
        // the table of a row must hold the row, and must not be larger than necessary
        if (need == 0 ? bin.bin_id[i] != 0 : (bin.bin_id[i] < 1 || ((u64) ht << (bin.bin_id[i] - 1)) < need || (bin.bin_id[i] > 1 && ((u64) ht << (bin.bin_id[i] - 2)) >= need))) {
            fail("bin:id", "row %lld with at most %llu ids is in bin %d (smallest table %lld)", (long long) i, (unsigned long long) need, bin.bin_id[i], (long long) ht); return; }
    }
    if (bin.rows_offset[0] != 0 || (int64_t) bin.rows_offset[th] != m) { fail("bin:cover", "offsets from %lld to %lld of %lld", (long long) bin.rows_offset[0], (long long) bin.rows_offset[th], (long long) m); return; }
    for (int t = 0; t < th; t++) {
        int64_t lo = bin.rows_offset[t], hi = bin.rows_offset[t + 1];
        if (hi < lo) { fail("bin:cover", "thread %d owns [%lld,%lld)", t, (long long) lo, (long long) hi); return; }
        u64 own = 0; for (int64_t i = lo; i < hi; i++) own += fl[i];
        if (own > 2 * (total / th + 1) + mx) { fail("bin:balance", "thread %d of %d owns %llu of %llu units (heaviest row %llu)", t, th, (unsigned long long) own, (unsigned long long) total, (unsigned long long) mx); return; }
        if (lo == hi) count("ranges.empty");
        count("ranges");
    }
    bin.create_local_hash_table((IT) n);
    for (int t = 0; t < th; t++) {
        u64 need = 0; for (int64_t i = bin.rows_offset[t]; i < (int64_t) bin.rows_offset[t + 1]; i++) need = std::max<u64>(need, std::min<u64>(fl[i], n));
        // write the whole table: AddressSanitizer decides whether it is large enough
        for (u64 k = 0; k < need; k++) { bin.local_hash_table_id[t][k] = (IT) k; bin.local_hash_table_val[t][k] = NT(); }
        count("table.slots", need);
    }
    evaluation(c.sig ^ mix64(th) ^ (u64) ht, total > 0 && th > 1);
}
void scan_part_4(long idx, Rng &g) {
    switch (idx / 4 % 3) {
        case 0: one<int32_t, double>("i32f64", idx, g); break;
        case 1: one<uint32_t, int32_t>("u32i32", idx, g); break;
        default: one<int64_t, uint64_t>("i64u64", idx, g); break;
    }
}
#else
#include "common/shim_api.hpp"
void scan_part_1(long, Rng &) __attribute__((weak));
void scan_part_2(long, Rng &) __attribute__((weak));
void scan_part_3(long, Rng &) __attribute__((weak));
void scan_part_4(long, Rng &) __attribute__((weak));
int main(int argc, char **argv) {
    vh::init(argc, argv);
    omp_set_dynamic(0);
    shimConfigure();
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        void (*f)(long, Rng &) = idx % 4 == 0 ? scan_part_1 : idx % 4 == 1 ? scan_part_2 : idx % 4 == 2 ? scan_part_3 : scan_part_4;
        shimCase(idx);
        if (f) f(idx, g);
        if (idx % 150 < 4) sample(currentCase());
    }
    shimEvidence();
    return vh::finish();
}
#endif
