// Reference matrices, hostile workload generators, the reference (definition
// level) sparse products and the structural monitor for CSR/CSC results.
// Independent of /repo's code, except for the CSR/CSC field layout.
#pragma once
#include "vh.hpp"
#include <algorithm>
#include <numeric>
#include <limits>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace vh {

using u64 = uint64_t;

template<class NT>
struct Mat {
    int64_t rows = 0, cols = 0;
    std::vector<std::vector<std::pair<int64_t, NT>>> r;   // per row, in stored order
    Mat() {}
    Mat(int64_t m, int64_t n) : rows(m), cols(n), r(m) {}
    size_t nnz() const { size_t s = 0; for (auto &x : r) s += x.size(); return s; }
    void sortRows() { for (auto &x : r) std::sort(x.begin(), x.end(), [](auto &a, auto &b) { return a.first < b.first; }); }
};

template<class NT> Mat<NT> transpose(const Mat<NT> &a) {
    Mat<NT> t(a.cols, a.rows);
    for (int64_t i = 0; i < a.rows; i++) for (auto &e : a.r[i]) t.r[e.first].push_back({i, e.second});
    return t;
}

template<class NT> u64 toBits(NT v) { u64 b = 0; memcpy(&b, &v, sizeof v); return b; }

template<class NT> u64 hashMat(const Mat<NT> &a) {
    u64 h = mix64(a.rows * 1000003ull + a.cols);
    for (int64_t i = 0; i < a.rows; i++) {
        h = mix64(h ^ (u64) i);
        for (auto &e : a.r[i]) h = mix64(h * 31 + (u64) e.first) ^ toBits(e.second);
    }
    return h;
}

// ---- semirings --------------------------------------------------------------
// All additions are associative and commutative; products need not be.
enum Sr { SR_HASH = 0, SR_MINPLUS, SR_MAXFIRST, SR_PLUSSECOND, SR_XORHASH, SR_PLUSPAIR, SR_PLUSTIMES, SR_ORAND, SR_COUNT };
inline const char *srName(int k) {
    static const char *n[] = {"plus-hash", "min-plus", "max-first", "plus-second", "xor-hash", "plus-pair", "plus-times", "or-and"};
    return n[k];
}
// integer arithmetic wraps (the kernels, not the operators, are under observation)
template<class NT> inline NT wAdd(NT a, NT b) { if constexpr (std::is_integral<NT>::value) { typedef typename std::make_unsigned<NT>::type U; return (NT) (U) ((U) a + (U) b); } else return a + b; }
template<class NT> inline NT wMul(NT a, NT b) { if constexpr (std::is_integral<NT>::value) return (NT) ((u64) a * (u64) b); else return a * b; }
template<class NT> struct MulOp {
    int k;
    inline NT operator()(const NT &a, const NT &b) const {
        switch (k) {
            case SR_HASH: case SR_XORHASH:
                if constexpr (std::is_floating_point<NT>::value) return a * 3 + b * 7 + a * b;      // exact on small integers
                else return (NT) mix64(mix64((u64) a) * 0x9e3779b97f4a7c15ull + (u64) b);
            case SR_MINPLUS: return wAdd(a, b);
            case SR_MAXFIRST: return a;
            case SR_PLUSSECOND: return b;
            case SR_PLUSPAIR: return NT(1);
            case SR_ORAND: if constexpr (std::is_floating_point<NT>::value) return (a != 0 && b != 0) ? NT(1) : NT(0); else return a & b;
            default: return wMul(a, b);
        }
    }
};
template<class NT> struct AddOp {
    int k;
    inline NT operator()(const NT &a, const NT &b) const {
        switch (k) {
            case SR_MINPLUS: return a < b ? a : b;
            case SR_MAXFIRST: return a < b ? b : a;
            case SR_XORHASH: if constexpr (std::is_floating_point<NT>::value) return a + b; else return a ^ b;
            case SR_ORAND: if constexpr (std::is_floating_point<NT>::value) return (a != 0 || b != 0) ? NT(1) : NT(0); else return a | b;
            default: return wAdd(a, b);
        }
    }
};

template<class NT> NT rndVal(Rng &g) {
    if constexpr (std::is_floating_point<NT>::value) {
        int64_t v = g.range(-9, 9);
        return NT(v);                                          // exact zeros are stored entries as well
    } else if constexpr (sizeof(NT) >= 8) {
        if (g.chance(1, 10)) return NT(0);
        if (g.chance(1, 10)) return NT(g.below(4));
        return NT(g.next() >> (g.chance(1, 2) ? 0 : 20) );
    } else if constexpr (std::is_signed<NT>::value) {
        return NT(g.range(-50, 50));                            // no signed overflow in plus/times
    } else return NT(g.below(100));
}

// ---- generators -------------------------------------------------------------
// pick k distinct ids out of [0,n)
inline std::vector<int64_t> pick(Rng &g, int64_t n, int64_t k) {
    if (k > n) k = n;
    std::vector<int64_t> v;
    if (k * 3 >= n) {
        v.resize(n);
        for (int64_t i = 0; i < n; i++) v[i] = i;
        for (int64_t i = 0; i < k; i++) std::swap(v[i], v[i + g.below(n - i)]);
        v.resize(k);
    } else {
        std::unordered_set<int64_t> s;
        while ((int64_t) s.size() < k) { int64_t x = g.below(n); if (s.insert(x).second) v.push_back(x); }
    }
    return v;
}

template<class NT> Mat<NT> rndMat(Rng &g, int64_t m, int64_t n, double density, int shape = 0) {
    // shape: 0 uniform, 1 some rows empty, 2 hubs, 3 banded, 4 column-clustered (hash collisions), 5 few rows filled
    Mat<NT> a(m, n);
    int64_t stride = 1;
    if (shape == 4) { stride = 1; while (stride * 8 < n) stride *= 2; if (g.chance(1, 2) && stride > 8) stride = 64; }
    for (int64_t i = 0; i < m; i++) {
        double d = density;
        if (shape == 1 && g.chance(1, 2)) continue;
        if (shape == 5 && !g.chance(1, 8)) continue;
        if (shape == 2) d = g.chance(1, 8) ? 0.9 : density * 0.5;
        int64_t k = 0;
        double ex = d * n;
        k = (int64_t) ex; if (g.unit() < ex - k) k++;
        if (k > 0 && g.chance(1, 3)) k = g.range(0, 2 * k);
        if (k > n) k = n;
        std::vector<int64_t> ids;
        if (shape == 3) {
            int64_t c = m > 1 ? (i * n) / m : 0, w = std::max<int64_t>(1, 2 * k);
            int64_t lo = std::max<int64_t>(0, c - w), hi = std::min<int64_t>(n, c + w + 1);
            for (auto x : pick(g, hi - lo, k)) ids.push_back(lo + x);
        } else if (shape == 4) {
            int64_t off = g.below(std::min<int64_t>(3, n));
            for (int64_t c = off; c < n && (int64_t) ids.size() < k; c += stride) ids.push_back(c);
            if (g.chance(1, 2)) for (auto x : pick(g, n, k / 4)) if (std::find(ids.begin(), ids.end(), x) == ids.end()) ids.push_back(x);
        } else ids = pick(g, n, k);
        std::sort(ids.begin(), ids.end());
        for (auto x : ids) a.r[i].push_back({x, rndVal<NT>(g)});
    }
    return a;
}

template<class NT> void shuffleRows(Rng &g, Mat<NT> &a) {
    for (auto &x : a.r) for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[g.below(i)]);
}

template<class NT> struct Case {
    Mat<NT> A, B, M;
    std::string family;
    bool sorted = true;
    u64 sig = 0;
};

// Structure-hash row masks etc.  fam picks the hostile family.
enum { FAM_TINY = 0, FAM_SMALL, FAM_EMPTYROWS, FAM_HUB, FAM_COLLIDE, FAM_TALL, FAM_WIDE, FAM_DENSE, FAM_BAND, FAM_UNSORTED,
       FAM_MEDIUM, FAM_LONGROWS, FAM_WIDECOLS, FAM_DEGENERATE, FAM_COUNT };
inline const char *famName(int f) {
    static const char *n[] = {"tiny", "small", "emptyrows", "hub", "collide", "tall", "wide", "dense", "band", "unsorted",
                              "medium", "longrows", "widecols", "degenerate"};
    return n[f];
}

template<class NT> Case<NT> makeCase(u64 seed, int fam) {
    Rng g(seed);
    Case<NT> c;
    c.family = famName(fam);
    int64_t m, k, n;
    double da = 0.3, db = 0.3, dm = 0.3;
    int sa = 0, sb = 0, sm = 0;
    auto D = [&]() { static const double d[] = {0.02, 0.1, 0.2, 0.35, 0.5, 0.8, 1.0}; return d[g.below(7)]; };
    switch (fam) {
        case FAM_TINY: m = g.range(1, 7); k = g.range(1, 7); n = g.range(1, 7); da = D(); db = D(); dm = D();
            sa = g.below(2); sb = g.below(2); sm = g.below(2); break;
        case FAM_SMALL: m = g.range(1, 40); k = g.range(1, 40); n = g.range(1, 40); da = D(); db = D(); dm = D();
            sa = g.below(6); sb = g.below(6); sm = g.below(6); break;
        case FAM_EMPTYROWS: m = g.range(1, 60); k = g.range(1, 30); n = g.range(1, 50); sa = g.chance(1, 2) ? 1 : 5; sb = 1; sm = g.chance(1, 2) ? 1 : 5; dm = D(); break;
        case FAM_HUB: m = g.range(2, 80); k = g.range(2, 80); n = g.range(2, 120); da = 0.05; db = 0.05; dm = 0.1; sa = sb = sm = 2; break;
        case FAM_COLLIDE: m = g.range(1, 20); k = g.range(1, 40); n = (int64_t) 1 << g.range(4, 13); da = 0.3; db = std::min(0.3, 40.0 / n); dm = std::min(0.4, 60.0 / n); sb = 4; sm = 4; break;
        case FAM_TALL: m = g.range(100, 400); k = g.range(1, 6); n = g.range(1, 12); da = D(); db = D(); dm = D(); sa = g.below(2); sm = g.below(2); break;
        case FAM_WIDE: m = g.range(1, 4); k = g.range(1, 60); n = g.range(200, 3000); da = D(); db = g.chance(1, 2) ? 0.02 : 0.2; dm = g.chance(1, 2) ? 0.01 : 0.3; break;
        case FAM_DENSE: m = g.range(1, 24); k = g.range(1, 24); n = g.range(1, 24); da = db = 1.0; dm = g.chance(1, 2) ? 1.0 : 0.5; break;
        case FAM_BAND: m = k = n = g.range(5, 120); da = db = dm = 4.0 / m; sa = sb = sm = 3; break;
        case FAM_UNSORTED: m = g.range(1, 40); k = g.range(1, 40); n = g.range(1, 200); da = D(); db = D() * 0.5; dm = D(); break;
        case FAM_MEDIUM: m = g.range(100, 500); k = g.range(100, 500); n = g.range(100, 500); da = 6.0 / k; db = 6.0 / n; dm = 20.0 / n; sa = g.below(4); sb = g.below(4); sm = g.below(4); break;
        case FAM_LONGROWS: m = g.range(1, 3); k = g.range(1, 2600); n = g.range(600, 6000); da = g.chance(1, 2) ? 0.9 : 0.3; db = 3.0 / n; dm = g.chance(1, 2) ? 0.5 : 0.05; break;
        case FAM_WIDECOLS: m = g.range(1, 12); k = g.range(1, 12); n = g.range(66000, 140000); da = 0.4; db = 60.0 / n; dm = 300.0 / n; break;
        default: // degenerate: at least one operand without entries / 1xN / Nx1
            m = g.chance(1, 2) ? 1 : g.range(1, 20); k = g.chance(1, 2) ? 1 : g.range(1, 20); n = g.chance(1, 2) ? 1 : g.range(1, 20);
            da = g.chance(1, 3) ? 0 : D(); db = g.chance(1, 3) ? 0 : D(); dm = g.chance(1, 3) ? 0 : D(); break;
    }
    c.A = rndMat<NT>(g, m, k, da, sa);
    c.B = rndMat<NT>(g, k, n, db, sb);
    c.M = rndMat<NT>(g, m, n, dm, sm);
    bool tight = (fam == FAM_SMALL || fam == FAM_HUB || fam == FAM_LONGROWS) && g.chance(1, 8);
    if (tight) {
        // no two contributions meet and the mask stores (nearly) everything: results are as large as the estimates allow
        c.family = std::string(famName(fam)) + "-tight";
        std::vector<int64_t> p(n); std::iota(p.begin(), p.end(), 0);
        for (int64_t i = n - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]);
        for (int64_t i = 0; i < k; i++) { c.B.r[i].clear(); if (i < n && !g.chance(1, 12)) c.B.r[i].push_back({p[i], rndVal<NT>(g)}); }
        int holes = (int) g.below(3);
        for (auto &row : c.M.r) { row.clear(); for (int64_t j = 0; j < n; j++) if (!holes || !g.chance(1, 200)) row.push_back({j, rndVal<NT>(g)}); }
    }
    // correlate the mask with the true pattern, so that both members and non-members are hit
    if (!tight && g.chance(1, 2)) {
        for (int64_t i = 0; i < m; i++) {
            if (c.A.r[i].empty() || !g.chance(2, 3)) continue;
            auto &row = c.M.r[i];
            std::set<int64_t> have;
            for (auto &e : row) have.insert(e.first);
            for (auto &a : c.A.r[i]) for (auto &b : c.B.r[a.first])
                if (g.chance(1, 3) && have.size() < 4000 && have.insert(b.first).second) row.push_back({b.first, rndVal<NT>(g)});
            std::sort(row.begin(), row.end(), [](auto &a, auto &b) { return a.first < b.first; });
        }
    }
    if (fam == FAM_UNSORTED) { shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); c.sorted = false; }
    c.sig = hashMat(c.A) ^ mix64(hashMat(c.B)) ^ mix64(mix64(hashMat(c.M)));
    return c;
}

// ---- definition-level products ---------------------------------------------
// mode 0: masked, 1: complemented mask, 2: unmasked
template<class NT> struct RefInfo { u64 candidates = 0, excluded = 0, contributions = 0, entries = 0, accumulated = 0; };

template<class NT, class Mul, class Add>
Mat<NT> refProduct(const Mat<NT> &A, const Mat<NT> &B, const Mat<NT> *M, int mode, Mul mul, Add add, RefInfo<NT> *info = nullptr) {
    Mat<NT> C(A.rows, B.cols);
    std::unordered_map<int64_t, NT> acc;
    std::unordered_set<int64_t> mask;
    RefInfo<NT> ri;
    for (int64_t i = 0; i < A.rows; i++) {
        acc.clear(); mask.clear();
        if (mode != 2) for (auto &e : M->r[i]) mask.insert(e.first);
        for (auto &a : A.r[i])
            for (auto &b : B.r[a.first]) {
                ri.candidates++;
                if (mode == 0 && !mask.count(b.first)) { ri.excluded++; continue; }
                if (mode == 1 && mask.count(b.first)) { ri.excluded++; continue; }
                ri.contributions++;
                NT v = mul(a.second, b.second);
                auto it = acc.find(b.first);
                if (it == acc.end()) acc.emplace(b.first, v);
                else { it->second = add(it->second, v); ri.accumulated++; }
            }
        auto &row = C.r[i];
        row.reserve(acc.size());
        for (auto &e : acc) row.push_back({e.first, e.second});
        std::sort(row.begin(), row.end(), [](auto &x, auto &y) { return x.first < y.first; });
        ri.entries += row.size();
    }
    if (info) *info = ri;
    return C;
}

template<class NT> bool sameVal(NT a, NT b) {
    if constexpr (std::is_floating_point<NT>::value) return a == b;
    else return a == b;
}

// Structural monitor + value oracle over a compressed result.
// ptr/ids/vals have the CSR layout of `rows` lines; want is the reference by line.
// sortedReq: ids in each line must increase strictly.  Empty string: everything holds.
template<class IT, class NT>
std::string checkCompressed(int64_t rows, int64_t cols, int64_t nnz, const IT *ptr, const IT *ids, const NT *vals,
                            const Mat<NT> &want, bool sortedReq, bool structureOnly = false) {
    char b[400];
    if (rows != want.rows || cols != want.cols) {
        snprintf(b, sizeof b, "shape: dimensions %lldx%lld, expected %lldx%lld", (long long) rows, (long long) cols, (long long) want.rows, (long long) want.cols);
        return b;
    }
    if ((int64_t) ptr[0] != 0) { snprintf(b, sizeof b, "offsets: first offset %lld", (long long) ptr[0]); return b; }
    for (int64_t i = 0; i < rows; i++)
        if (ptr[i + 1] < ptr[i] || (int64_t) ptr[i + 1] > nnz || (int64_t) ptr[i + 1] < 0) {
            snprintf(b, sizeof b, "offsets: not monotone at line %lld (%lld -> %lld, nnz %lld)", (long long) i, (long long) ptr[i], (long long) ptr[i + 1], (long long) nnz);
            return b;
        }
    if ((int64_t) ptr[rows] != nnz) { snprintf(b, sizeof b, "offsets: last offset %lld but nnz %lld", (long long) ptr[rows], (long long) nnz); return b; }
    std::vector<std::pair<int64_t, NT>> row;
    for (int64_t i = 0; i < rows; i++) {
        row.clear();
        int64_t prev = -1;
        for (IT j = ptr[i]; j < ptr[i + 1]; j++) {
            int64_t id = (int64_t) ids[j];
            if (id < 0 || id >= cols) { snprintf(b, sizeof b, "range: line %lld holds id %lld of %lld", (long long) i, (long long) id, (long long) cols); return b; }
            if (sortedReq && id <= prev) { snprintf(b, sizeof b, "order: line %lld has id %lld after %lld", (long long) i, (long long) id, (long long) prev); return b; }
            prev = id;
            row.push_back({id, vals[j]});
        }
        std::sort(row.begin(), row.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (size_t j = 1; j < row.size(); j++)
            if (row[j].first == row[j - 1].first) { snprintf(b, sizeof b, "duplicate: line %lld holds id %lld twice", (long long) i, (long long) row[j].first); return b; }
        auto &w = want.r[i];
        size_t x = 0, y = 0;
        while (x < row.size() || y < w.size()) {
            if (y == w.size() || (x < row.size() && row[x].first < w[y].first)) { snprintf(b, sizeof b, "spurious: line %lld holds id %lld, which the definition excludes", (long long) i, (long long) row[x].first); return b; }
            if (x == row.size() || row[x].first > w[y].first) { snprintf(b, sizeof b, "missing: line %lld lacks id %lld", (long long) i, (long long) w[y].first); return b; }
            if (!structureOnly && !sameVal<NT>(row[x].second, w[y].second)) {
                snprintf(b, sizeof b, "value: (%lld,%lld) is %.17g (%llx), expected %.17g (%llx)", (long long) i, (long long) row[x].first, (double) row[x].second,
                         (unsigned long long) toBits(row[x].second), (double) w[y].second, (unsigned long long) toBits(w[y].second));
                return b;
            }
            x++; y++;
        }
    }
    return "";
}

// exact equality of a compressed matrix with a reference in stored order
template<class IT, class NT>
std::string sameStored(int64_t rows, int64_t cols, int64_t nnz, const IT *ptr, const IT *ids, const NT *vals, const Mat<NT> &w) {
    char b[300];
    if (rows != w.rows || cols != w.cols || nnz != (int64_t) w.nnz()) { snprintf(b, sizeof b, "shape or count changed: %lldx%lld nnz %lld", (long long) rows, (long long) cols, (long long) nnz); return b; }
    size_t p = 0;
    for (int64_t i = 0; i < rows; i++) {
        if ((int64_t) ptr[i] != (int64_t) p) { snprintf(b, sizeof b, "offset %lld changed", (long long) i); return b; }
        for (auto &e : w.r[i]) {
            if ((int64_t) ids[p] != e.first || toBits(vals[p]) != toBits(e.second)) { snprintf(b, sizeof b, "entry %zu (line %lld) changed", p, (long long) i); return b; }
            p++;
        }
    }
    if ((int64_t) ptr[rows] != (int64_t) p) return "last offset changed";
    return "";
}

// category of a message ("value", "missing", ...)
inline std::string category(const std::string &s) { auto p = s.find(':'); return p == std::string::npos ? s : s.substr(0, p); }

} // namespace vh
