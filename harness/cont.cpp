// Compressed matrices as values: copies, assignment, emptying, comparison, reordering, index base, construction and conversion.
// Built once per PART (1 CSR histories, 2 CSC histories, 3 CSC constructors, 4 conversions, 5 graphs, 0 main).
#include "CSC.h"
#include "CSR.h"
#include "common/mat.hpp"
#include "common/repo_mat.hpp"
#include "common/quiet.hpp"
#include <array>
#include <map>
#include <set>
using namespace vh;

template<class NT> static Mat<NT> small(Rng &g) {
    if (g.chance(1, 150)) {                                            // more lines, or more entries in a line, than 16 bits can count
        bool tall = g.chance(1, 2); int64_t big = g.range(65500, 72000), few = g.range(1, 4);
        count("large.matrices");
        return tall ? rndMat<NT>(g, big, few, g.unit(), 1) : rndMat<NT>(g, few, big, g.chance(1, 2) ? 1.0 : .5, 0);
    }
    if (g.chance(1, 12)) return Mat<NT>(g.below(2) ? g.below(4) : 0, g.below(4));
    int64_t m = 1 + g.below(g.chance(1, 3) ? 3 : 40), n = 1 + g.below(g.chance(1, 3) ? 3 : 40);
    auto a = rndMat<NT>(g, m, n, g.unit() * (g.chance(1, 3) ? 1.0 : 0.25), (int) g.below(6));
    if (g.chance(1, 3)) shuffleRows(g, a);
    return a;
}
template<class NT> static bool sameRow(std::vector<std::pair<int64_t, NT>> a, std::vector<std::pair<int64_t, NT>> b, bool ordered) {
    if (!ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
    return a == b;
}

#if PART == 1 || PART == 2
// One model for both orientations: "major" lines hold (minor id, value) pairs.
#if PART == 1
template<class IT, class NT> using T = CSR<IT, NT>;
#define PTR(c) (c).rowptr
#define IDS(c) (c).colids
#define MAJOR(c) (c).rows
#define MINOR(c) (c).cols
#define NAME "csr"
#else
template<class IT, class NT> using T = CSC<IT, NT>;
#define PTR(c) (c).colptr
#define IDS(c) (c).rowids
#define MAJOR(c) (c).cols
#define MINOR(c) (c).rows
#define NAME "csc"
#endif
template<class NT> struct Model { Mat<NT> a; int base = 0; bool isDefault = false; };

template<class IT, class NT> static void fill(T<IT, NT> &c, const Mat<NT> &a) {
#if PART == 1
    fillCSR<IT, NT>(c, a);
#else
    c.rows = (IT) a.cols; c.cols = (IT) a.rows; c.nnz = (IT) a.nnz();
    c.colptr = my_malloc<IT>(c.cols + 1); c.rowids = my_malloc<IT>(c.nnz); c.values = my_malloc<NT>(c.nnz);
    IT p = 0;
    for (int64_t j = 0; j < a.rows; j++) { c.colptr[j] = p; for (auto &e : a.r[j]) { c.rowids[p] = (IT) e.first; c.values[p++] = e.second; } }
    c.colptr[a.rows] = p;                                         // fillCSC would sort the columns
#endif
}
template<class IT, class NT> static bool matches(const T<IT, NT> &c, const Model<NT> &m, const char *when, const char *what) {
    if ((int64_t) MAJOR(c) != m.a.rows || (int64_t) MINOR(c) != m.a.cols || (size_t) c.nnz != m.a.nnz()) {
        fail(NAME ":shape", "%s: %s is %lldx%lld with %lld entries, expected %lldx%lld with %zu", when, what, (long long) MAJOR(c), (long long) MINOR(c), (long long) c.nnz, (long long) m.a.rows, (long long) m.a.cols, m.a.nnz());
        return false;
    }
    if (m.a.rows == 0) return true;
#if PART == 1
    if (c.zerobased != (m.base == 0)) { fail(NAME ":base", "%s: %s claims the wrong index base", when, what); return false; }
#endif
    IT p = (IT) m.base;
    for (int64_t i = 0; i < m.a.rows; i++) {
        if (PTR(c)[i] != p) { fail(NAME ":offset", "%s: %s line %lld starts at %lld, expected %lld", when, what, (long long) i, (long long) PTR(c)[i], (long long) p); return false; }
        for (auto &e : m.a.r[i]) {
            IT k = p - m.base;
            if ((int64_t) IDS(c)[k] != e.first + m.base || toBits(c.values[k]) != toBits(e.second)) {
                fail(NAME ":entry", "%s: %s line %lld position %lld holds id %lld, expected %lld (or another value)", when, what, (long long) i, (long long) k, (long long) IDS(c)[k], (long long) e.first + m.base); return false; }
            p++;
        }
    }
    if (PTR(c)[m.a.rows] != p) { fail(NAME ":offset", "%s: %s ends at %lld, expected %lld", when, what, (long long) PTR(c)[m.a.rows], (long long) p); return false; }
    return true;
}

template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    const int K = 4;
    int steps = 8 + (int) g.below(24);
    setCase("idx=%ld alg=" NAME "-history types=%s steps=%d", idx, ty, steps);
    omp_set_num_threads((int) g.range(1, 6));
    std::vector<T<IT, NT> *> o(K);
    std::vector<Model<NT>> m(K);
    for (int i = 0; i < K; i++) { o[i] = new T<IT, NT>(); }
    size_t entries = 0; u64 sig = idx;
    static const char *names[] = {"refill", "copy", "assign", "self-assign", "empty", "shuffle", "sort", "base", "compare", "sum", "sorted?", "near miss", "sized", "change value"};
    bool ok = true;
    for (int s = 0; s < steps && ok; s++) {
        int x = (int) g.below(K), y = (int) g.below(K), op = (int) g.below(14);
        sig = mix64(sig ^ (op * 16 + x * 4 + y));
        switch (op) {
            case 0: { m[x].a = small<NT>(g); m[x].base = 0; o[x]->make_empty(); fill<IT, NT>(*o[x], m[x].a); break; }
            case 1: { if (x == y) break; delete o[x]; o[x] = new T<IT, NT>(*o[y]); m[x] = m[y]; break; }
            case 2: { *o[x] = *o[y]; m[x] = m[y]; break; }
            case 3: { auto &self = *o[x]; *o[x] = self; break; }
            case 4: { o[x]->make_empty(); m[x].a = Mat<NT>(); m[x].base = 0;
                      if (PTR(*o[x]) || IDS(*o[x]) || o[x]->values || o[x]->nnz) { fail(NAME ":make-empty", "arrays remain"); ok = false; }
#if PART == 1
                      if (!o[x]->zerobased) fail(NAME ":make-empty-base", "an emptied matrix is still marked one-based");
#endif
                      break; }
            case 5: {
                if (m[x].base || m[x].a.rows == 0) break;
                o[x]->shuffleIds();
                if (o[x]->nnz != (IT) m[x].a.nnz()) { fail(NAME ":shuffle", "entry count changed"); ok = false; break; }
                for (int64_t i = 0; i < m[x].a.rows && ok; i++) {
                    std::vector<std::pair<int64_t, NT>> now;
                    for (size_t k = 0; k < m[x].a.r[i].size(); k++) now.push_back({(int64_t) IDS(*o[x])[PTR(*o[x])[i] + k], o[x]->values[PTR(*o[x])[i] + k]});
                    if (!sameRow<NT>(now, m[x].a.r[i], false)) { fail(NAME ":shuffle", "line %lld no longer holds the same entries", (long long) i); ok = false; }
                    if (now != m[x].a.r[i]) count("lines.reordered");
                    m[x].a.r[i] = now;
                }
                break; }
            case 6: {
#if PART == 1
                if (m[x].base || m[x].a.rows == 0) break;
                o[x]->sortIds();
                for (auto &r : m[x].a.r) std::sort(r.begin(), r.end());
#endif
                break; }
            case 7: {
#if PART == 1
                if (m[x].a.rows == 0) break;
                if (g.chance(1, 2)) { o[x]->ConvertOneBased(); m[x].base = 1; } else { o[x]->ConvertZeroBased(); m[x].base = 0; }
#endif
                break; }
            case 8: {
                if constexpr (!std::is_unsigned<NT>::value) {
                    bool want = m[x].a.rows == m[y].a.rows && m[x].a.cols == m[y].a.cols && m[x].a.nnz() == m[y].a.nnz();
                    for (int64_t i = 0; want && i < m[x].a.rows; i++) want = m[x].a.r[i] == m[y].a.r[i];
                    fflush(stdout);
                    bool got = *o[x] == *o[y];
                    if (got != want) { fail(NAME ":equality", "operator== says %d, the matrices are %s", got, want ? "equal" : "different"); ok = false; }
                    count(want ? "comparisons.equal" : "comparisons.different");
                }
                break; }
            case 9: {
#if PART == 1
                if (std::is_integral<NT>::value && std::is_signed<NT>::value) { __int128 t = 0; for (auto &r : m[x].a.r) for (auto &e : r) t += e.second < NT(0) ? -(__int128) e.second : (__int128) e.second; if (t > (__int128) std::numeric_limits<NT>::max()) break; }
                NT want = NT(); for (auto &r : m[x].a.r) for (auto &e : r) want = wAdd(want, e.second);
                if (std::is_floating_point<NT>::value && o[x]->nnz) {       // fractions must survive
                    NT *v = o[x]->values; v[0] += NT(0.5); want += NT(0.5);
                    if (o[x]->sumall() != want) { fail("csr:sum", "sum is %.17g, expected %.17g", (double) o[x]->sumall(), (double) want); ok = false; }
                    v[0] -= NT(0.5);
                } else if (o[x]->sumall() != want) { fail("csr:sum", "sum differs"); ok = false; }
#endif
                if (o[x]->isEmpty() != (m[x].a.nnz() == 0)) { fail(NAME ":is-empty", "isEmpty is wrong"); ok = false; }
                break; }
            case 10: {
                if (m[x].base || m[x].a.rows == 0) break;
                bool want = true; for (auto &r : m[x].a.r) for (size_t k = 1; k < r.size(); k++) if (r[k].first < r[k - 1].first) want = false;
                CaptureCout cap; o[x]->Sorted();
                if (cap.str().find(want ? ": 1" : ": 0") == std::string::npos) { fail(NAME ":sorted", "Sorted() printed '%s', expected %d", cap.str().c_str(), want); ok = false; }
                break; }
            case 11: {                                        // a matrix that differs in one place only
                if (m[y].base || m[y].a.rows == 0) break;
                auto b = m[y].a; auto &L = b.r;
                size_t i = g.below(L.size()); int kind = (int) g.below(4);
                if (kind == 0 && i + 1 < L.size()) { if (L[i].size()) { L[i + 1].insert(L[i + 1].begin(), L[i].back()); L[i].pop_back(); } else if (L[i + 1].size()) { L[i].push_back(L[i + 1].front()); L[i + 1].erase(L[i + 1].begin()); } }
                else if (L[i].size() && kind == 1) { auto &e = L[i][g.below(L[i].size())]; e.first = (e.first + 1) % b.cols; }
                else if (L[i].size() && kind == 2) { auto &e = L[i][g.below(L[i].size())]; e.second = e.second == NT(1) ? NT(2) : NT(1); }
                else if (kind == 3) { if (g.chance(1, 2)) b.cols++; else { L.push_back({}); b.rows++; } }
                T<IT, NT> near; fill<IT, NT>(near, b);
                bool want = b.rows == m[y].a.rows && b.cols == m[y].a.cols && b.r == m[y].a.r;
                if constexpr (!std::is_unsigned<NT>::value) {
                    bool got = *o[y] == near, back = near == *o[y];
                    if (got != want || back != want) { fail(NAME ":equality", "operator== says %d and %d for matrices that are %s (kind %d, line %zu of %zu)", got, back, want ? "equal" : "different in one place", kind, i, m[y].a.r.size()); ok = false; }
                    count(want ? "comparisons.equal" : "comparisons.different");
                }
                break; }
            case 12: {                                        // made with its sizes, filled by the caller
                if (m[y].base || m[y].a.rows == 0) break;
                size_t nz = m[y].a.nnz();
                delete o[x]; o[x] = nullptr;
#if PART == 1
                o[x] = new T<IT, NT>((IT) nz, (IT) m[y].a.rows, (IT) m[y].a.cols);
#else
                if (!nz) { o[x] = new T<IT, NT>(); if (x != y) { m[x] = Model<NT>(); } else { m[x].a = Mat<NT>(); } break; }
                o[x] = new T<IT, NT>((IT) nz, (IT) m[y].a.cols, (IT) m[y].a.rows, 1);
#endif
                if (x != y) m[x] = m[y];
                IT p = 0;
                for (int64_t i = 0; i < m[x].a.rows; i++) { PTR(*o[x])[i] = p; for (auto &e : m[x].a.r[i]) { IDS(*o[x])[p] = (IT) e.first; o[x]->values[p++] = e.second; } }
                PTR(*o[x])[m[x].a.rows] = p;
                break; }
            default: {                                        // writing through one object must not show in another
                if (!o[x]->nnz) break;
                size_t k = g.below(o[x]->nnz), c = 0;
                NT v = rndVal<NT>(g); o[x]->values[k] = v;
                for (auto &r : m[x].a.r) { if (k < c + r.size()) { r[k - c].second = v; break; } c += r.size(); }
            }
        }
        count(std::string("steps.") + names[op]);
        for (int i = 0; ok && i < K; i++) { char w[32]; snprintf(w, 32, "object %d", i); ok = matches<IT, NT>(*o[i], m[i], names[op], w); entries += m[i].a.nnz(); }
    }
    for (auto p : o) delete p;
    count("entries", entries);
    evaluation(sig, entries > 10);
}
#if PART == 1
void cont_part_1(long idx, Rng &g)
#else
void cont_part_2(long idx, Rng &g)
#endif
{
    switch (idx % 5) {
        case 0: one<int32_t, double>("i32f64", idx, g); break;
        case 1: one<uint32_t, int32_t>("u32i32", idx, g); break;
        case 2: one<int64_t, uint64_t>("i64u64", idx, g); break;
        case 3: one<uint64_t, float>("u64f32", idx, g); break;
        default: one<int64_t, int64_t>("i64i64", idx, g); break;
    }
}
#elif PART == 3
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    int64_t m = 1 + g.below(g.chance(1, 2) ? 4 : 60), n = 1 + g.below(g.chance(1, 2) ? 4 : 60);
    bool dups = g.chance(1, 2), large = g.chance(1, 120);
    if (large) { m = g.chance(1, 2) ? g.range(1, 3) : g.range(60000, 200000); n = g.chance(1, 2) ? g.range(1, 3) : g.range(60000, 200000); count("large.matrices"); }
    size_t k = g.chance(1, 10) ? 0 : g.below(large ? 150000 : g.chance(1, 4) ? 2000 : 2 * m + 3);
    int form = (int) (idx / 5 % 5);
    if (k == 0 && form == 2) k = 1;
    std::vector<std::array<int64_t, 2>> at; std::vector<NT> val;
    std::set<std::pair<int64_t, int64_t>> have;
    for (size_t i = 0; i < k; i++) {
        int64_t r = g.below(m), c = g.below(n);
        if (!dups && !have.insert({r, c}).second) continue;
        at.push_back({r, c}); val.push_back(rndVal<NT>(g));
    }
    k = at.size();
    static const char *fn[] = {"triples", "tuples", "arrays", "pairs", "merge"};
    setCase("idx=%ld alg=csc-from-%s types=%s dims=%lldx%lld triples=%zu duplicates=%d", idx, fn[form], ty, (long long) m, (long long) n, k, dups);
    omp_set_num_threads((int) g.range(1, 8));
    std::vector<std::vector<std::pair<int64_t, NT>>> want(n);
    for (size_t i = 0; i < k; i++) want[at[i][1]].push_back({at[i][0], form == 3 ? NT(1) : val[i]});
    for (auto &w : want) std::sort(w.begin(), w.end());
    int op = (int) g.below(3);                                  // plus, max, first in value order
    auto add = [op](NT a, NT b) -> NT { return op == 0 ? wAdd(a, b) : op == 1 ? std::max(a, b) : std::min(a, b); };
    if (form == 1 || form == 4)
        for (auto &w : want) { std::vector<std::pair<int64_t, NT>> z; for (auto &e : w) if (!z.empty() && z.back().first == e.first) z.back().second = add(z.back().second, e.second); else z.push_back(e); w = z; }
    CSC<IT, NT> *c = nullptr;
    if (form == 0 || form == 4) {
        std::vector<Triple<IT, NT>> t; for (size_t i = 0; i < k; i++) t.push_back({(IT) at[i][0], (IT) at[i][1], val[i]});
        c = new CSC<IT, NT>(t.data(), (IT) k, (IT) m, (IT) n);
        if (form == 4) c->MergeDuplicates(add);
    } else if (form == 1) {
        std::vector<std::tuple<IT, IT, NT>> t; for (size_t i = 0; i < k; i++) t.emplace_back((IT) at[i][0], (IT) at[i][1], val[i]);
        auto keep = t;
        c = new CSC<IT, NT>(t, (IT) m, (IT) n, add);
        if (keep != t) fail("csc-tuples:input-changed", "the tuples were modified");
    } else if (form == 2) {
        std::vector<IT> r, q; for (auto &x : at) { r.push_back((IT) x[0]); q.push_back((IT) x[1]); }
        auto v = val;
        c = new CSC<IT, NT>(r.data(), q.data(), v.data(), (IT) k, (IT) m, (IT) n);
    } else {
        std::vector<std::pair<int64_t, int64_t>> e; for (auto &x : at) e.push_back({x[0], x[1]});
        c = new CSC<IT, NT>(e, (IT) k, (IT) m, (IT) n);
    }
    std::string key = std::string("csc-from-") + fn[form];
    size_t total = 0; for (auto &w : want) total += w.size();
    if ((int64_t) c->rows != m || (int64_t) c->cols != n || (size_t) c->nnz != total) fail(key + ":shape", "%lldx%lld with %lld entries, expected %lldx%lld with %zu", (long long) c->rows, (long long) c->cols, (long long) c->nnz, (long long) m, (long long) n, total);
    else {
        IT p = 0; bool ok = true;
        for (int64_t j = 0; j < n && ok; j++) {
            if (c->colptr[j] != p) { fail(key + ":offset", "column %lld starts at %lld, expected %lld", (long long) j, (long long) c->colptr[j], (long long) p); ok = false; break; }
            for (auto &e : want[j]) {
                if ((int64_t) c->rowids[p] != e.first || toBits(c->values[p]) != toBits(e.second)) { fail(key + ":entry", "column %lld position %lld: row %lld, expected %lld (or another value)", (long long) j, (long long) p, (long long) c->rowids[p], (long long) e.first); ok = false; break; }
                p++;
            }
        }
        if (ok && c->colptr[n] != p) fail(key + ":offset", "ends at %lld, expected %lld", (long long) c->colptr[n], (long long) p);
    }
    delete c;
    count("entries", total); if (total < k) count("duplicates.merged", k - total);
    evaluation(mix64(idx) ^ k ^ m * 977, k > 2);
}
void cont_part_3(long idx, Rng &g) {
    switch (idx % 5) {
        case 0: one<int32_t, double>("i32f64", idx, g); break;
        case 1: one<uint32_t, int32_t>("u32i32", idx, g); break;
        case 2: one<int64_t, uint64_t>("i64u64", idx, g); break;
        case 3: one<uint64_t, float>("u64f32", idx, g); break;
        default: one<int64_t, int64_t>("i64i64", idx, g); break;
    }
}
#elif PART == 4
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    auto a = small<NT>(g);
    if (g.chance(1, 30)) a = rndMat<NT>(g, 400, 500, 0.05, 1);
    bool shuffledIn = g.chance(1, 2);
    int how = (int) g.below(3);
    setCase("idx=%ld alg=csc-to-csr types=%s dims=%lldx%lld nnz=%zu how=%d", idx, ty, (long long) a.rows, (long long) a.cols, a.nnz(), how);
    a.sortRows();
    CSC<IT, NT> c; fillCSC<IT, NT>(c, a);
    if (shuffledIn && c.cols) c.shuffleIds();                                  // order within a column must not matter
    auto t = transpose(a);
    if (how == 2) for (int64_t j = 0; j < t.rows; j++) for (size_t k = 0; k < t.r[j].size(); k++) t.r[j][k] = {(int64_t) c.rowids[c.colptr[j] + k], c.values[c.colptr[j] + k]};
    CSR<IT, NT> *r = how == 0 ? new CSR<IT, NT>(c) : new CSR<IT, NT>(c, how == 2);
    const Mat<NT> &want = how == 2 ? t : a;
    std::string key = how == 2 ? "csr-of-transpose" : "csr-from-csc";
    if ((int64_t) r->rows != want.rows || (int64_t) r->cols != want.cols || (size_t) r->nnz != want.nnz()) fail(key + ":shape", "%lldx%lld with %lld entries", (long long) r->rows, (long long) r->cols, (long long) r->nnz);
    else {
        IT p = 0; bool ok = true;
        for (int64_t i = 0; i < want.rows && ok; i++) {
            if (r->rowptr[i] != p) { fail(key + ":offset", "row %lld starts at %lld, expected %lld", (long long) i, (long long) r->rowptr[i], (long long) p); ok = false; break; }
            for (auto &e : want.r[i]) { if ((int64_t) r->colids[p] != e.first || toBits(r->values[p]) != toBits(e.second)) { fail(key + ":entry", "row %lld position %lld: column %lld, expected %lld (or another value)", (long long) i, (long long) p, (long long) r->colids[p], (long long) e.first); ok = false; break; } p++; }
        }
        if (ok && r->rowptr[want.rows] != p) fail(key + ":offset", "ends at %lld, expected %lld", (long long) r->rowptr[want.rows], (long long) p);
        if (!r->zerobased) fail(key + ":base", "not zero-based");
    }
    // the source is untouched and independent
    if (r->nnz) { NT v = c.values[0]; r->values[0] = wAdd(r->values[0], NT(1)); if (toBits(v) != toBits(c.values[0])) fail(key + ":shared", "result and source share storage"); }
    delete r;
    count("entries", want.nnz());
    evaluation(hashMat(a) ^ how, a.nnz() > 1 && a.rows > 1);
}
void cont_part_4(long idx, Rng &g) {
    switch (idx % 5) {
        case 0: one<int32_t, double>("i32f64", idx, g); break;
        case 1: one<uint32_t, int32_t>("u32i32", idx, g); break;
        case 2: one<int64_t, uint64_t>("i64u64", idx, g); break;
        case 3: one<uint64_t, float>("u64f32", idx, g); break;
        default: one<int64_t, int64_t>("i64i64", idx, g); break;
    }
}
#elif PART == 5
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    int64_t n = 1 + g.below(g.chance(1, 2) ? 5 : 80);
    size_t k = g.chance(1, 10) ? 0 : 1 + g.below(g.chance(1, 3) ? 1500 : 2 * n + 2);
    if (g.chance(1, 120)) { n = g.chance(1, 3) ? g.range(1, 5) : g.range(60000, 140000); k = g.below(100000); count("large.matrices"); }
    setCase("idx=%ld alg=matrix-from-graph types=%s vertices=%lld edges=%zu", idx, ty, (long long) n, k);
    std::vector<std::array<long, 3>> e(k);
    for (auto &x : e) x = {(long) g.below(n), (long) g.below(n), (long) g.range(1, 9)};
    std::stable_sort(e.begin(), e.end(), [](auto &a, auto &b) { return a[0] < b[0]; });
    std::vector<long> s, t, w; for (auto &x : e) { s.push_back(x[0]); t.push_back(x[1]); w.push_back(x[2]); }
    s.shrink_to_fit(); t.shrink_to_fit(); w.shrink_to_fit();
    graph G; G.m = k; G.n = n; G.start = s.data(); G.end = t.data(); G.w = w.data();
    std::map<std::pair<long, long>, NT> want; for (auto &x : e) want[{x[0], x[1]}] += NT(x[2]);
    omp_set_num_threads((int) g.range(1, 6));
    CSR<IT, NT> r(G); CSC<IT, NT> c(G);
    std::map<std::pair<long, long>, NT> gr, gc;
    if ((int64_t) r.rows != n || (int64_t) r.cols != n || (int64_t) c.rows != n || (int64_t) c.cols != n || (size_t) r.nnz != want.size() || (size_t) c.nnz != want.size()) {
        fail("graph:shape", "CSR %lldx%lld/%lld, CSC %lldx%lld/%lld, expected %lld vertices and %zu entries", (long long) r.rows, (long long) r.cols, (long long) r.nnz, (long long) c.rows, (long long) c.cols, (long long) c.nnz, (long long) n, want.size()); return; }
    if (r.rowptr[0] != 0 || c.colptr[0] != 0 || r.rowptr[n] != r.nnz || c.colptr[n] != c.nnz) { fail("graph:offset", "offsets do not span the entries"); return; }
    for (int64_t i = 0; i < n; i++) {
        for (IT j = r.rowptr[i]; j < r.rowptr[i + 1]; j++) { gr[{i, (long) r.colids[j]}] = r.values[j]; if (j > r.rowptr[i] && r.colids[j] <= r.colids[j - 1]) { fail("graph:order", "row %lld is not ascending", (long long) i); return; } }
        for (IT j = c.colptr[i]; j < c.colptr[i + 1]; j++) { gc[{(long) c.rowids[j], i}] = c.values[j]; if (j > c.colptr[i] && c.rowids[j] <= c.rowids[j - 1]) { fail("graph:order", "column %lld is not ascending", (long long) i); return; } }
    }
    if (gr != want) fail("graph:csr", "the rows do not hold the merged edges");
    if (gc != want) fail("graph:csc", "the columns do not hold the merged edges");
    count("edges", k); count("edges.merged", k - want.size());
    evaluation(mix64(idx) ^ k ^ n * 977, k > 2);
}
void cont_part_5(long idx, Rng &g) {
    switch (idx % 3) {
        case 0: one<int32_t, double>("i32f64", idx, g); break;
        case 1: one<uint32_t, int32_t>("u32i32", idx, g); break;
        default: one<int64_t, uint64_t>("i64u64", idx, g); break;
    }
}
#else
#include "common/shim_api.hpp"
#define P(n) void cont_part_##n(long, Rng &) __attribute__((weak));
P(1) P(2) P(3) P(4) P(5)
int main(int argc, char **argv) {
    vh::init(argc, argv);
    omp_set_dynamic(0);
    muteCout();
    void (*f[])(long, Rng &) = {cont_part_1, cont_part_2, cont_part_3, cont_part_4, cont_part_5};
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        shimCase(idx);
        if (f[idx % 5]) f[idx % 5](idx / 5, g);
        if (idx % 150 < 5) sample(currentCase());
    }
    shimEvidence();
    return vh::finish();
}
#endif
