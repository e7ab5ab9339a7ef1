// Transposition of compressed matrices and lists of triples (util/). Built once per PART (1 transpose, 2 triples, 0 main).
#include <algorithm>
#include <map>
#include <set>
#include <omp.h>
#include "util/transpose.h"
#include "util/triple-util.h"
#include "common/mat.hpp"
#include "common/shim_api.hpp"
using namespace vh;
template<class T> struct Arr {      // exact-size heap array
    T *p; size_t n;
    explicit Arr(size_t k) : p((T *) malloc(sizeof(T) * k)), n(k) { memset((void *) p, 0x5A, sizeof(T) * k); }
    Arr(const Arr &) = delete;
    ~Arr() { free(p); }
    T &operator[](size_t i) { return p[i]; }
};
template<class NT> static NT token(Rng &g) { if constexpr (std::is_floating_point<NT>::value) return (NT) g.unit() * 1e6; else return (NT) g.next(); }

#if PART == 1
// an entry list by line, lines in any order, entries possibly repeated
template<class IT, class NT> struct Lines { Arr<IT> ptr, ids; Arr<NT> val; Lines(size_t lines, size_t nnz) : ptr(lines + 1), ids(nnz), val(nnz) {} };
template<class IT, class NT> static std::vector<std::vector<std::pair<IT, NT>>> byLine(Lines<IT, NT> &x, IT lines, bool turned, IT other, std::string &bad) {
    std::vector<std::vector<std::pair<IT, NT>>> r(turned ? other : lines);
    if (x.ptr[0] != 0 || x.ptr[lines] != (IT) x.ids.n) { bad = "offsets do not span the entries"; return r; }
    for (IT i = 0; i < lines; i++) {
        if (x.ptr[i + 1] < x.ptr[i] || x.ptr[i + 1] > (IT) x.ids.n) { bad = "offsets not monotone at line " + std::to_string(i); return r; }
        for (IT j = x.ptr[i]; j < x.ptr[i + 1]; j++) {
            if (!(x.ids[j] >= 0 && x.ids[j] < other)) { bad = "id out of range in line " + std::to_string(i); return r; }
            if (turned) r[x.ids[j]].push_back({i, x.val[j]}); else r[i].push_back({x.ids[j], x.val[j]});
        }
    }
    for (auto &l : r) std::sort(l.begin(), l.end());
    return r;
}
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    shimCase(idx);
    bool large = idx % 40 == 7;
    IT m = (IT) (g.chance(1, 12) ? g.below(2) : 1 + g.below(large ? 3000 : 60)), n = (IT) (g.chance(1, 12) ? g.below(2) : 1 + g.below(g.chance(1, 3) ? 4 : large ? 3000 : 60));
    int shape = (int) g.below(5), th = 1 + (int) g.below(12); double density = g.unit() * (large ? .01 : 1);
    bool far = idx % 150 == 77;          // one direction beyond what 16 bits can count
    if (far) { IT l = (IT) (65530 + g.below(g.chance(1, 2) ? 12 : 6000)); bool tall = g.chance(2, 3); m = tall ? l : 1 + (IT) g.below(3); n = tall ? 1 + (IT) g.below(3) : l; shape = 3; density = (tall ? 1.0 / (double) n : 1) * (g.chance(1, 2) ? 1 : 1.02); }
    std::vector<std::vector<IT>> rows(m); size_t nnz = 0;
    for (auto &r : rows) {
        if (!n || (shape == 1 && g.chance(1, 2))) continue;
        size_t k = (size_t) (density * n * (shape == 2 && g.chance(1, 9) ? 3 : 1) + g.unit());
        for (size_t i = 0; i < k; i++) r.push_back((IT) (far ? (n > 3 ? i % n : g.chance(1, 60000) ? g.below(n) : 0) : shape == 3 ? g.below(std::min<IT>(n, 2)) : g.below(n)));       // possibly repeated, any order
        if (shape == 4) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); }
        nnz += r.size();
    }
    setCase("idx=%ld alg=transpose types=%s dims=%lldx%lld nnz=%zu shape=%d threads=%d", idx, ty, (long long) m, (long long) n, nnz, shape, th);
    Lines<IT, NT> a(m, nnz), t(n, nnz), b(m, nnz); size_t p = 0;
    for (IT i = 0; i < m; i++) { a.ptr[i] = (IT) p; for (IT c : rows[i]) { a.ids[p] = c; a.val[p++] = token<NT>(g); } }
    a.ptr[m] = (IT) p;
    std::vector<char> k1((char *) a.ptr.p, (char *) (a.ptr.p + m + 1)), k2((char *) a.ids.p, (char *) (a.ids.p + nnz)), k3((char *) a.val.p, (char *) (a.val.p + nnz));
    omp_set_num_threads(th);
    csr2csc_atomic_nosort<IT, NT>(m, n, (IT) nnz, a.ptr.p, a.ids.p, a.val.p, t.ptr.p, t.ids.p, t.val.p);
    std::string bad;
    auto want = byLine(a, m, true, n, bad), got = byLine(t, n, false, m, bad);
    if (!bad.empty()) { fail("transpose:structure", "%s", bad.c_str()); return; }
    if (want != got) { size_t l = 0; while (want[l] == got[l]) l++; fail("transpose:content", "line %zu of the transpose holds %zu entries, not the %zu of the input column", l, got[l].size(), want[l].size()); }
    csr2csc_atomic_nosort<IT, NT>(n, m, (IT) nnz, t.ptr.p, t.ids.p, t.val.p, b.ptr.p, b.ids.p, b.val.p);
    auto back = byLine(b, m, false, n, bad), orig = byLine(a, m, false, n, bad);
    if (!bad.empty()) fail("transpose:structure", "%s", bad.c_str());
    else if (back != orig) fail("transpose:round-trip", "transposing twice changes the matrix");
    auto same = [](const std::vector<char> &k, const void *x) { return k.empty() || !memcmp(k.data(), x, k.size()); };
    if (!same(k1, a.ptr.p) || !same(k2, a.ids.p) || !same(k3, a.val.p)) fail("transpose:input-modified", "the input changed");
    count("transposes", 2); if (far) count("beyond.16.bits"); count("entries", 2 * nnz); maxi("threads", th);
    evaluation(mix64(idx) ^ nnz, nnz > 2 && m > 1 && n > 1);
    if (idx % 300 < 4) sample(currentCase());
}
void transposes(long from, long to) {
    for (long idx = from; idx < to; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        switch (g.below(3)) { case 0: one<int32_t, double>("i32f64", idx, g); break; case 1: one<int64_t, uint64_t>("i64u64", idx, g); break; default: one<uint32_t, int32_t>("u32i32", idx, g); }
    }
}
#elif PART == 2
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    using T = Triple<IT, NT>;
    size_t n = g.chance(1, 6) ? g.below(3) : g.below(g.chance(1, 60) ? 200000 : g.chance(1, 8) ? 5000 : 60);
    uint64_t R = 1 + g.below(g.chance(1, 2) ? 4 : g.chance(1, 8) ? 3000000 : 200), C = 1 + g.below(g.chance(1, 2) ? 4 : g.chance(1, 8) ? 3000000 : 200);
    int order = (int) g.below(3);
    setCase("idx=%ld alg=triples types=%s size=%zu dims=%llux%llu order=%d", idx, ty, n, (unsigned long long) R, (unsigned long long) C, order);
    Arr<T> a(n); std::map<std::pair<IT, IT>, std::multiset<NT>> all;
    for (size_t i = 0; i < n; i++) { a[i] = T((IT) g.below(R), (IT) g.below(C), token<NT>(g)); }
    auto before = [](const T &x, const T &y) { return x.row < y.row || (x.row == y.row && x.col < y.col); };
    if (order) std::sort(a.p, a.p + n, before);
    if (order == 2) std::reverse(a.p, a.p + n);
    for (size_t i = 0; i < n; i++) all[{a[i].row, a[i].col}].insert(a[i].val);
    IT k = removeDuplicates<IT, NT>((IT) n, a.p);
    if ((size_t) k != all.size()) fail("duplicates:count", "%lld of %zu distinct places kept", (long long) k, all.size());
    else {
        size_t i = 0;
        for (auto &e : all) {
            if (a[i].row != e.first.first || a[i].col != e.first.second) { fail("duplicates:places", "place %zu is (%lld,%lld)", i, (long long) a[i].row, (long long) a[i].col); break; }
            if (!e.second.count(a[i].val)) { fail("duplicates:value", "place %zu holds a value none of its triples has", i); break; }
            i++;
        }
    }
    T *r = nullptr; IT q = generateRandomTriples<IT, NT>((IT) R, (IT) C, (IT) n, r);
    if (!(q >= 0) || (size_t) q > n || (uint64_t) q > R * C || (n > 0 && q < 1)) fail("random:count", "%lld triples of %zu", (long long) q, n);
    else {
        std::set<std::pair<IT, IT>> places;
        for (IT i = 0; i < q; i++) {
            if (!(r[i].row >= 0 && (uint64_t) r[i].row < R && r[i].col >= 0 && (uint64_t) r[i].col < C)) { fail("random:range", "(%lld,%lld)", (long long) r[i].row, (long long) r[i].col); break; }
            if (r[i].val != NT(1)) { fail("random:value", "triple %lld", (long long) i); break; }
            if (i && !before(r[i - 1], r[i])) { fail("random:order", "triple %lld", (long long) i); break; }
            places.insert({r[i].row, r[i].col});
        }
        // n independent draws of R*C places leave one unseen with probability (1-1/(R*C))^n
        if (n > 64 * R * C && places.size() != R * C) fail("random:coverage", "%zu of %llu places after %zu draws", places.size(), (unsigned long long) (R * C), n);
    }
    delete[] r;
    count("triples", 2 * n); evaluation(mix64(idx) ^ n, n > 2);
    if (idx % 300 < 3) sample(currentCase());
}
void triples(long from, long to) {
    for (long idx = from; idx < to; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        switch (g.below(3)) { case 0: one<int32_t, double>("i32f64", idx, g); break; case 1: one<long, unsigned long>("i64u64", idx, g); break; default: one<uint32_t, int32_t>("u32i32", idx, g); }
    }
}
#else
void __attribute__((weak)) transposes(long, long); void __attribute__((weak)) triples(long, long);
int main(int argc, char **argv) {
    vh::init(argc, argv);
    if (transposes) transposes(opt().from, opt().cases);
    if (triples) triples(opt().from + 5000000, opt().cases + 5000000);
    shimEvidence();
    return vh::finish();
}
#endif
