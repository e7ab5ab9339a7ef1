// Element-wise intersection against its definition.
#include <numeric>
#include "CSC.h"
#include "CSR.h"
#include "common/algs.hpp"
#include "common/repo_mat.hpp"
using namespace vh;

template<class IT, class NT> static void run(const char *ty, long from, long n) {
    for (long idx = from; idx < n; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        int64_t m = idx % 40 == 39 ? g.range(132000, 140000) : g.range(1, 60), c = idx % 40 == 39 ? g.range(1, 6) : g.range(1, 90);
        Mat<NT> a = rndMat<NT>(g, m, c, g.unit(), (int) g.below(6)), b = rndMat<NT>(g, m, c, g.unit(), (int) g.below(6));
        int sr = (int) g.below(SR_COUNT), th = (int) g.range(1, 9);
        MulOp<NT> op{sr};
        setCase("idx=%ld alg=intersect types=%s op=%s threads=%d dims=%lldx%lld", idx, ty, srName(sr), th, (long long) m, (long long) c);
        Mat<NT> w(m, c);
        for (int64_t i = 0; i < m; i++) {
            std::map<int64_t, NT> rb;
            for (auto &e : b.r[i]) rb[e.first] = e.second;
            for (auto &e : a.r[i]) { auto it = rb.find(e.first); if (it != rb.end()) w.r[i].push_back({e.first, op(e.second, it->second)}); }
        }
        CSR<IT, NT> A, B; fillCSR<IT, NT>(A, a); fillCSR<IT, NT>(B, b);
        omp_set_num_threads(th);
        CSR<IT, NT> C = Intersect(A, B, op);
        std::string s = checkCompressed<IT, NT>(C.rows, C.cols, C.nnz, C.rowptr, C.colids, C.values, w, true);
        if (!s.empty()) fail("intersect:" + category(s), "%s", s.c_str());
        s = sameStored<IT, NT>(A.rows, A.cols, A.nnz, A.rowptr, A.colids, A.values, a);
        if (s.empty()) s = sameStored<IT, NT>(B.rows, B.cols, B.nnz, B.rowptr, B.colids, B.values, b);
        if (!s.empty()) fail("intersect:operand-modified", "%s", s.c_str());
        count("calls.intersect"); count("entries", w.nnz());
        evaluation(hashMat(a) ^ mix64(hashMat(b)) ^ sr, w.nnz() > 0 && w.nnz() < a.nnz() && w.nnz() < b.nnz());
        if (idx % 100 == 7) sample(currentCase() + " -> " + std::to_string(w.nnz()) + " entries");
    }
}
int main(int argc, char **argv) {
    vh::init(argc, argv);
    run<int32_t, uint64_t>("i32u64", opt().from, opt().cases);
    run<uint64_t, double>("u64f64", opt().from + 500000, opt().cases + 500000);
    return vh::finish();
}
