// Exchange with GraphBLAS and the GraphBLAS utilities of the benchmarks.
// Built once per PART (1 row matrices, 2 column matrices, 3 utilities, 0 main).
#include "CSC.h"
#include "CSR.h"
#include "IO.h"
#include "grb_util.h"
#include "common/mat.hpp"
#include "common/repo_mat.hpp"
#include "common/quiet.hpp"
#include <map>
#include <set>
#include <string>
using namespace vh;
using I = GrB_Index;

#if PART
template<class NT> struct G;
#define GT(T, S) template<> struct G<T> { \
    static GrB_Type type() { return GrB_##S; } \
    static void build(GrB_Matrix A, const I *r, const I *c, const T *v, I n) { GrB_Matrix_build_##S(A, r, c, v, n, GrB_PLUS_##S); } \
    static GrB_Info get(I *r, I *c, T *v, I *n, GrB_Matrix A) { return GrB_Matrix_extractTuples_##S(r, c, v, n, A); } };
GT(uint64_t, UINT64) GT(int64_t, INT64) GT(uint32_t, UINT32) GT(int32_t, INT32) GT(float, FP32) GT(double, FP64)

template<class NT> static GrB_Matrix toGrb(const Mat<NT> &a) {
    std::vector<I> r, c; std::vector<NT> v;
    for (int64_t i = 0; i < a.rows; i++) for (auto &e : a.r[i]) { r.push_back(i); c.push_back(e.first); v.push_back(e.second); }
    GrB_Matrix A = nullptr; GrB_Matrix_new(&A, G<NT>::type(), a.rows, a.cols);
    G<NT>::build(A, r.data(), c.data(), v.data(), r.size());
    return A;
}
template<class NT> static Mat<NT> fromGrb(GrB_Matrix A) {
    I m = 0, n = 0, k = 0; GrB_Matrix_nrows(&m, A); GrB_Matrix_ncols(&n, A); GrB_Matrix_nvals(&k, A);
    std::vector<I> r(k + 1), c(k + 1); std::vector<NT> v(k + 1); I kk = k;
    G<NT>::get(r.data(), c.data(), v.data(), &kk, A);
    Mat<NT> a(m, n); for (I i = 0; i < kk; i++) a.r[r[i]].push_back({(int64_t) c[i], v[i]});
    a.sortRows();
    return a;
}
template<class NT> static bool same(const Mat<NT> &x, const Mat<NT> &y) {
    if (x.rows != y.rows || x.cols != y.cols) return false;
    for (int64_t i = 0; i < x.rows; i++) { if (x.r[i].size() != y.r[i].size()) return false; for (size_t k = 0; k < x.r[i].size(); k++) if (x.r[i][k].first != y.r[i][k].first || toBits(x.r[i][k].second) != toBits(y.r[i][k].second)) return false; }
    return true;
}
template<class NT> static Mat<NT> gen(Rng &g, bool square = false) {
    int64_t m = 1 + g.below(g.chance(1, 3) ? 3 : 50), n = square ? m : 1 + g.below(g.chance(1, 3) ? 3 : 50);
    auto a = rndMat<NT>(g, m, n, g.chance(1, 10) ? 0.0 : g.unit() * (g.chance(1, 3) ? 1.0 : 0.3), (int) g.below(6));
    a.sortRows();
    return a;
}
template<class NT> static size_t distinctVals(const Mat<NT> &a) { std::set<uint64_t> s; for (auto &r : a.r) for (auto &e : r) s.insert((uint64_t) toBits(e.second)); return s.size(); }
#define TYPES(F) switch (idx % 6) { \
        case 0: F<uint64_t>("u64", idx, g); break; case 1: F<int64_t>("i64", idx, g); break; \
        case 2: F<uint32_t>("u32", idx, g); break; case 3: F<int32_t>("i32", idx, g); break; \
        case 4: F<float>("f32", idx, g); break; default: F<double>("f64", idx, g); break; }
#endif

#if PART == 1
template<class NT> static Mat<NT> rowsOf(const CSR<I, NT> &c) { auto a = fromCSR<I, NT>(c); return a; }
template<class IT, class NT> static void copyOut(const char *ty, long idx, Rng &g, const Mat<NT> &a, bool oneBased) {
    CSR<IT, NT> c; fillCSR<IT, NT>(c, a); c.zerobased = true;
    if (oneBased) c.ConvertOneBased();
    CSR<IT, NT> keep(c);
    GrB_Matrix A = nullptr;
    if (g.chance(1, 2)) A = toGrb(gen<NT>(g));                  // an older matrix is replaced
    c.get_grb_mat(&A);
    if (!same(fromGrb<NT>(A), a)) fail("csr-to-graphblas:copy", "the GraphBLAS matrix differs");
    if (c.nnz != keep.nnz || memcmp(c.rowptr, keep.rowptr, (a.rows + 1) * sizeof(IT)) || (a.nnz() && (memcmp(c.colids, keep.colids, a.nnz() * sizeof(IT)) || memcmp(c.values, keep.values, a.nnz() * sizeof(NT))))) fail("csr-to-graphblas:source", "the source changed");
    GrB_Matrix_free(&A);
}
template<class NT> static void one(const char *ty, long idx, Rng &g) {
    auto a = gen<NT>(g);
    int how = (int) (idx / 6 % 6);
    static const char *names[] = {"copy", "pack-unpack", "import", "export", "duplicate", "unpack"};
    bool ob = g.chance(1, 3);
    setCase("idx=%ld alg=csr-graphblas-%s types=%s dims=%lldx%lld nnz=%zu one-based=%d", idx, names[how], ty, (long long) a.rows, (long long) a.cols, a.nnz(), how == 0 && ob);
    if (how == 0) {
        if (g.chance(1, 2)) copyOut<I, NT>(ty, idx, g, a, ob); else copyOut<int32_t, NT>(ty, idx, g, a, ob);
    } else if (how == 1) {
        CSR<I, NT> c; fillCSR<I, NT>(c, a); c.zerobased = true;
        if (g.chance(1, 3)) { CSR<I, NT> d(c); c = d; }
        GrB_Matrix A = toGrb(g.chance(1, 2) ? Mat<NT>(a.rows, a.cols) : rndMat<NT>(g, a.rows, a.cols, 0.2, 1));
        int rounds = 1 + (int) g.below(4);
        for (int k = 0; k < rounds; k++) {
            c.get_grb_mat(A);
            if (!same(fromGrb<NT>(A), a)) { fail("csr-to-graphblas:pack", "round %d: the GraphBLAS matrix differs", k); break; }
            if (c.rowptr || c.colids || c.values) { fail("csr-to-graphblas:pack", "round %d: the arrays were not handed over", k); break; }
            CSR<I, NT> d(A); I left = 1; GrB_Matrix_nvals(&left, A);
            if (left) { fail("csr-from-graphblas:unpack", "%llu entries stay behind", (unsigned long long) left); break; }
            if ((size_t) d.nnz != a.nnz() || !d.zerobased || (int64_t) d.rows != a.rows || (int64_t) d.cols != a.cols || !same(rowsOf(d), a)) { fail("csr-from-graphblas:unpack", "round %d: the matrix differs", k); break; }
            c = d;
        }
        GrB_Matrix_free(&A);
    } else if (how == 2) {
        CSR<I, NT> c; fillCSR<I, NT>(c, a); c.zerobased = true;
        if (!a.nnz()) { c.colids = my_malloc<I>(1); c.values = my_malloc<NT>(1); }
        GrB_Matrix A = nullptr;
        c.get_grb_mat_ptr(&A);
        if (!A) fail("csr-to-graphblas:import", "no matrix was made");
        else { if (!same(fromGrb<NT>(A), a)) fail("csr-to-graphblas:import", "the GraphBLAS matrix differs"); if (c.rowptr || c.colids || c.values) fail("csr-to-graphblas:import", "the arrays were not handed over"); }
        GrB_Matrix_free(&A);
    } else if (how == 5) {
        GrB_Matrix A = toGrb(a);
        bool iso = false; GxB_Matrix_iso(&iso, A); if (iso) count("cases.iso");
        CSR<I, NT> c(A); I left = 1; GrB_Matrix_nvals(&left, A);
        if (left) fail("csr-from-graphblas:unpack", "%llu entries stay behind", (unsigned long long) left);
        if ((size_t) c.nnz != a.nnz() || (int64_t) c.rows != a.rows || (int64_t) c.cols != a.cols || !same(rowsOf(c), a)) fail("csr-from-graphblas:unpack", "the matrix differs");
        GrB_Matrix_free(&A);
    } else {
        GrB_Matrix A = toGrb(a), B = A;
        CSR<I, NT> c(&B, how == 4);
        if (how == 4) { if (!B || !same(fromGrb<NT>(A), a)) fail("csr-from-graphblas:duplicate", "the original changed"); }
        if ((size_t) c.nnz != a.nnz() || (int64_t) c.rows != a.rows || (int64_t) c.cols != a.cols || c.rowptr[a.rows] != a.nnz() || !same(rowsOf(c), a)) fail(how == 4 ? "csr-from-graphblas:duplicate" : "csr-from-graphblas:export", "the matrix differs");
        if (how == 4) GrB_Matrix_free(&A);
    }
    count(std::string("exchanges.") + names[how]); count("entries", a.nnz()); if (distinctVals(a) == 1) count("cases.equal-values");
    evaluation(hashMat(a) ^ how, a.nnz() > 1);
}
void grb_part_1(long idx, Rng &g) { TYPES(one) }
#elif PART == 2
template<class NT> static Mat<NT> colsOf(const CSC<I, NT> &c) {
    Mat<NT> a(c.rows, c.cols);
    for (I j = 0; j < c.cols; j++) for (I k = c.colptr[j]; k < c.colptr[j + 1]; k++) a.r[c.rowids[k]].push_back({(int64_t) j, c.values[k]});
    return a;
}
template<class NT> static void one(const char *ty, long idx, Rng &g) {
    auto a = gen<NT>(g);
    bool byCol = g.chance(1, 2);
    setCase("idx=%ld alg=csc-graphblas types=%s dims=%lldx%lld nnz=%zu by-column=%d", idx, ty, (long long) a.rows, (long long) a.cols, a.nnz(), byCol);
    CSC<I, NT> c; fillCSC<I, NT>(c, a);
    if (g.chance(1, 3)) {
        GrB_Matrix T = toGrb(a); bool iso = false; GxB_Matrix_iso(&iso, T); if (iso) count("cases.iso");
        CSC<I, NT> d(T); if ((size_t) d.nnz != a.nnz() || !same(colsOf(d), a)) fail("csc-from-graphblas:unpack", "the matrix of a fresh GraphBLAS matrix differs");
        GrB_Matrix_free(&T);
    }
    GxB_Format_Value old; GxB_Global_Option_get(GxB_FORMAT, &old);
    if (byCol) GxB_Global_Option_set(GxB_FORMAT, GxB_BY_COL);
    GrB_Matrix A = toGrb(g.chance(1, 2) ? Mat<NT>(a.rows, a.cols) : rndMat<NT>(g, a.rows, a.cols, 0.2, 1));
    GxB_Global_Option_set(GxB_FORMAT, old);
    int rounds = 1 + (int) g.below(4);
    for (int k = 0; k < rounds; k++) {
        c.get_grb_mat(A);
        if (!same(fromGrb<NT>(A), a)) { fail("csc-to-graphblas:pack", "round %d: the GraphBLAS matrix differs", k); break; }
        if (c.colptr || c.rowids || c.values) { fail("csc-to-graphblas:pack", "round %d: the arrays were not handed over", k); break; }
        CSC<I, NT> d(A); I left = 1; GrB_Matrix_nvals(&left, A);
        if (left) { fail("csc-from-graphblas:unpack", "%llu entries stay behind", (unsigned long long) left); break; }
        if ((size_t) d.nnz != a.nnz() || (int64_t) d.rows != a.rows || (int64_t) d.cols != a.cols || !same(colsOf(d), a)) { fail("csc-from-graphblas:unpack", "round %d: the matrix differs", k); break; }
        c = d;
    }
    GrB_Matrix_free(&A);
    count("exchanges.column", rounds); count("entries", a.nnz());
    evaluation(hashMat(a), a.nnz() > 1);
}
void grb_part_2(long idx, Rng &g) { TYPES(one) }
#elif PART == 3
template<class NT> static void one(const char *ty, long idx, Rng &g) {
    int how = (int) (idx / 6 % 5);
    static const char *names[] = {"read", "sort-by-degree", "lower-triangle", "to-columns", "avoid-iso"};
    auto a = gen<NT>(g, how != 3 && how != 4 && !(how == 0));
    setCase("idx=%ld alg=graphblas-%s types=%s dims=%lldx%lld nnz=%zu", idx, names[how], ty, (long long) a.rows, (long long) a.cols, a.nnz());
    if (how == 0) {
        bool sym = g.chance(1, 2), noDiag = g.chance(1, 2), pattern = g.chance(1, 3), rnd = g.chance(1, 4), fileSym = g.chance(1, 3);
        if (sym || fileSym) { Mat<NT> b(std::min(a.rows, a.cols), std::min(a.rows, a.cols)); for (int64_t i = 0; i < b.rows; i++) for (auto &e : a.r[i]) if (e.first < b.cols && (!fileSym || e.first <= i)) b.r[i].push_back(e); a = b; }
        for (auto &r : a.r) for (auto &e : r) e.second = pattern ? NT(1) : NT(1 + g.below(50));
        std::string name = "g" + std::to_string(idx) + ".mtx"; FILE *f = fopen(name.c_str(), "w");
        fprintf(f, "%%%%MatrixMarket matrix coordinate %s %s\n%lld %lld %zu\n", pattern ? "pattern" : "integer", fileSym ? "symmetric" : "general", (long long) a.rows, (long long) a.cols, a.nnz());
        for (int64_t i = 0; i < a.rows; i++) for (auto &e : a.r[i]) if (pattern) fprintf(f, "%lld %lld\n", (long long) i + 1, (long long) e.first + 1); else fprintf(f, "%lld %lld %lld\n", (long long) i + 1, (long long) e.first + 1, (long long) e.second);
        fclose(f);
        GrB_Matrix A = nullptr;
        read_grb_mtx<NT>(&A, (char *) name.c_str(), noDiag, sym, rnd);
        unlink(name.c_str());
        std::map<std::pair<int64_t, int64_t>, NT> w;
        for (int64_t i = 0; i < a.rows; i++) for (auto &e : a.r[i]) if (!(noDiag && e.first == i)) { w[{i, e.first}] += e.second; if (fileSym && e.first != i) w[{e.first, i}] += e.second; }
        if (sym) { auto v = w; for (auto &x : v) w[{x.first.second, x.first.first}] += x.second; }
        Mat<NT> want(a.rows, a.cols); for (auto &x : w) want.r[x.first.first].push_back({x.first.second, x.second});
        auto got = fromGrb<NT>(A);
        if (rnd) { for (auto &r : got.r) for (auto &e : r) { if (!(e.second > NT(0))) fail("graphblas-read:random", "a random value is not positive"); e.second = NT(1); } for (auto &r : want.r) for (auto &e : r) e.second = NT(1); }
        if (!same(got, want)) fail("graphblas-read:content", "the matrix differs from the file (symmetric %d/%d, no diagonal %d)", fileSym, sym, noDiag);
        GrB_Matrix_free(&A);
    } else if (how == 1) {
        NT v = NT(1); for (auto &r : a.r) for (auto &e : r) { e.second = v; v += NT(1); }      // values name the entries
        GrB_Matrix A = toGrb(a);
        sort_by_degree<NT>(&A);
        auto b = fromGrb<NT>(A); GrB_Matrix_free(&A);
        std::map<uint64_t, std::pair<int64_t, int64_t>> at; for (int64_t i = 0; i < a.rows; i++) for (auto &e : a.r[i]) at[(uint64_t) e.second] = {i, e.first};
        std::map<int64_t, int64_t> to, from; bool ok = b.rows == a.rows && b.cols == a.cols && b.nnz() == a.nnz();
        for (int64_t i = 0; ok && i < b.rows; i++) for (auto &e : b.r[i]) {
            auto it = at.find((uint64_t) e.second); if (it == at.end()) { ok = false; break; }
            int64_t o[2] = {it->second.first, it->second.second}, n[2] = {i, e.first};
            for (int k = 0; k < 2; k++) { auto p = to.insert({o[k], n[k]}); auto q = from.insert({n[k], o[k]}); if (p.first->second != n[k] || q.first->second != o[k]) ok = false; }
        }
        if (!ok) fail("sort-by-degree:relabelling", "the result is not a relabelling of the vertices");
        for (int64_t i = 1; i < b.rows; i++) if (b.r[i].size() > b.r[i - 1].size()) { fail("sort-by-degree:order", "vertex %lld has %zu entries, its predecessor %zu", (long long) i, b.r[i].size(), b.r[i - 1].size()); break; }
    } else if (how == 2) {
        GrB_Matrix A = toGrb(a), L = nullptr;
        get_lowtri<NT>(A, &L);
        Mat<NT> want(a.rows, a.cols); for (int64_t i = 0; i < a.rows; i++) for (auto &e : a.r[i]) if (e.first < i) want.r[i].push_back(e);
        if (!same(fromGrb<NT>(L), want)) fail("lower-triangle:content", "not the strictly lower triangle");
        if (!same(fromGrb<NT>(A), a)) fail("lower-triangle:source", "the source changed");
        GrB_Matrix_free(&A); GrB_Matrix_free(&L);
    } else if (how == 3) {
        GrB_Matrix A = toGrb(a), C = nullptr;
        GxB_Format_Value before, after; GxB_Global_Option_get(GxB_FORMAT, &before);
        convert_to_csc<NT>(A, &C);
        GxB_Global_Option_get(GxB_FORMAT, &after);
        GxB_Format_Value f; GxB_Matrix_Option_get(C, GxB_FORMAT, &f);
        if (!same(fromGrb<NT>(C), a)) fail("to-columns:content", "the matrix differs");
        if (!same(fromGrb<NT>(A), a)) fail("to-columns:source", "the source changed");
        if ((a.rows > 1 && a.cols > 1 && f != GxB_BY_COL) || before != after) fail("to-columns:format", "not stored by column, or the global format changed");
        GrB_Matrix_free(&A); GrB_Matrix_free(&C);
    } else {
        if (!a.nnz()) return;
        NT v = NT(1 + g.below(5)); for (auto &r : a.r) for (auto &e : r) e.second = v;
        GrB_Matrix A = toGrb(a);
        int64_t i = 0; while (a.r[i].empty()) i++;
        auto &e = a.r[i][g.below(a.r[i].size())];
        if constexpr (std::is_same<NT, uint64_t>::value || std::is_same<NT, int64_t>::value || std::is_floating_point<NT>::value) avoid_iso<NT>(A, v, i, e.first);
        if (!same(fromGrb<NT>(A), a)) fail("avoid-iso:content", "the matrix changed");
        if constexpr (std::is_same<NT, uint64_t>::value || std::is_same<NT, int64_t>::value || std::is_floating_point<NT>::value) {
            CSR<I, NT> c(A);
            auto b = fromCSR<I, NT>(c); if (!same(b, a)) fail("avoid-iso:unpack", "the unpacked matrix differs");
        }
        GrB_Matrix_free(&A);
    }
    count(std::string("utilities.") + names[how]); count("entries", a.nnz());
    evaluation(hashMat(a) ^ how, a.nnz() > 1);
}
void grb_part_3(long idx, Rng &g) { TYPES(one) }
#else
#define P(n) void grb_part_##n(long, Rng &) __attribute__((weak));
P(1) P(2) P(3)
int main(int argc, char **argv) {
    vh::init(argc, argv);
    muteCout();
    GrB_init(GrB_BLOCKING);
    GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER);
    GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW);
    void (*f[])(long, Rng &) = {grb_part_1, grb_part_2, grb_part_3};
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        if (f[idx % 3]) f[idx % 3](idx / 3, g);
        if (idx % 150 < 3) sample(currentCase());
    }
    GrB_finalize();
    return vh::finish();
}
#endif
