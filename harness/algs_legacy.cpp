// The stand-alone kernels.  -DLEGACY=n selects one translation unit's worth.
#include <vector>
#include <numeric>
#include <cassert>
#include <cstring>
#include <omp.h>
#include "CSC.h"
#include "CSR.h"
#include "HeapEntry.h"
#if LEGACY == 1
#include "hash_mult_hw.h"
#include "spa_mult.h"
#include "mask_hash_mult.h"
#elif LEGACY == 2 || LEGACY == 3
#include "hash_mult_hw.h"
#include "heap_mult_generic.h"
#elif LEGACY == 4
#include "heap_mult.h"
#elif LEGACY == 5
#include "outer_mult.h"
#elif LEGACY == 6
#include "outer_mult2.h"
#elif LEGACY == 7
#include "inner_mult.h"
#endif
#include "common/algs.hpp"
#include "common/repo_mat.hpp"
using namespace vh;
typedef VIT I_; typedef VNT N_;
typedef CSR<I_, N_> Csr_; typedef CSC<I_, N_> Csc_;
typedef const CSR<I_, N_> &CR; typedef const CSC<I_, N_> &CC; typedef CSR<I_, N_> &OR_;
#define REGF(NAME, KIND, SOUT, DENSE, ...) \
    L.push_back({NAME, KIND, true, SOUT, DENSE, false, [](CR a, CR b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) __VA_ARGS__, nullptr, true});
static unsigned atLeast1(unsigned t) { return t ? t : 4; }
static void toCsc(CR a, Csc_ &c) { Mat<N_> m = fromCSR<I_, N_>(a); fillCSC<I_, N_>(c, m); }
static void fromCsc(const Csc_ &c, OR_ r) {
    // structure-preserving: columns in order, so that rows come out with ascending columns
    Mat<N_> m((int64_t) c.rows, (int64_t) c.cols);
    for (int64_t j = 0; j < (int64_t) c.cols; j++) for (I_ k = c.colptr[j]; k < c.colptr[j + 1]; k++) {
        if (c.rowids[k] >= c.rows || (k > c.colptr[j] && c.rowids[k] <= c.rowids[k - 1])) { fail("cscheap:order", "column %lld row %lld", (long long) j, (long long) c.rowids[k]); return; }
        m.r[c.rowids[k]].push_back({j, c.values[k]});
    }
    r.make_empty();
    fillCSR<I_, N_>(r, m);
}

void REG(AlgList<I_, N_> &L) {
#if LEGACY == 1
    REGF("spa", K_PLAIN, 0, true, { MaskedSPASpGEMM(a, b, c, m, mu, ad, atLeast1(t)); })
    REGF("maskhash", K_PLAIN, 0, false, { mxm_hash_mask(a, b, c, m, mu, ad, atLeast1(t)); })
    REGF("maskhash-wobin", K_PLAIN, 0, false, { mxm_hash_mask_wobin(a, b, c, m, mu, ad, atLeast1(t)); })
#elif LEGACY == 2
#define H(NAME, ALG) REGF(NAME, K_PLAIN, 1, false, { HeapSpGEMM<rowAlg::ALG>(a, b, c, m, mu, ad, t); })
    H("generic-heap0", MaskedHeap_v0) H("generic-heap1", MaskedHeap_v1) H("generic-heap2", MaskedHeap_v2)
    H("generic-mca1", MCA_v1) H("generic-mca2", MCA_v2) H("generic-mca3", MCA_v3)
#elif LEGACY == 3
#define U(NAME, ...) REGF(NAME, K_UNMASKED, 1, false, { HeapSpGEMM<__VA_ARGS__>(a, b, c, mu, ad, t); })
    U("heap", rowAlg::BasicHeap) U("heaplinear0", rowAlg::HeapLinear<0>) U("heaplinear4", rowAlg::HeapLinear<4>) U("heaplinear64", rowAlg::HeapLinear<64>)
    REGF("hash-sorted", K_UNMASKED, 1, false, { HashSpGEMM<true>(a, b, c, mu, ad, atLeast1(t)); })
    REGF("hash-unsorted", K_UNMASKED, 0, false, { HashSpGEMM<false>(a, b, c, mu, ad, atLeast1(t)); })
#elif LEGACY == 4
    REGF("cscheap", K_UNMASKED, 1, true, {
        Csc_ x, y, z; toCsc(a, x); toCsc(b, y);
        int old = omp_get_max_threads(); omp_set_num_threads(atLeast1(t));
        HeapSpGEMM(x, y, z, mu, ad);
        omp_set_num_threads(old);
        fromCsc(z, c);
    })
#elif LEGACY == 5 || LEGACY == 6
    REGF("outer-plustimes", K_UNMASKED, 1, true, {
        Csc_ x; toCsc(a, x);
        int old = omp_get_max_threads(); omp_set_num_threads(atLeast1(t));
        int blocks = 1 + (int) ((a.nnz * 7 + b.nnz) % 9);
        int width = 1 + (int) ((a.nnz + b.nnz * 3) % 40);
#if LEGACY == 5
        OuterSpGEMM(x, b, c, blocks, width, 1);
#else
        OuterSpGEMM(x, b, c, blocks, width);
#endif
        omp_set_num_threads(old);
    })
#elif LEGACY == 7
    L.push_back({"dot-plusonly", K_PLAIN, true, 2, false, true, nullptr, [](CR a, CC b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) {
        innerSpGEMM_nohash<false, true>(a, b, c, m, mu, ad, atLeast1(t)); }, true});
#endif
}
