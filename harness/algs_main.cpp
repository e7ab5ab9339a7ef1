// One instantiation group of the building-block kernels (masked-spgemm.h & co).
// -DGROUP=... -DVIT=... -DVNT=... -DREG=<registration function>
#include <vector>
#include <numeric>
#include "CSC.h"
#include "CSR.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "common/algs.hpp"
using namespace vh;
typedef VIT I_; typedef VNT N_;
typedef const CSR<I_, N_> &CR; typedef const CSC<I_, N_> &CC; typedef CSR<I_, N_> &OR_;

#define REGALG(NAME, KIND, SORTED, SOUT, DENSE, ...) \
    L.push_back({NAME "/1p", KIND, SORTED, SOUT, DENSE, false, [](CR a, CR b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM1p<__VA_ARGS__>(a, b, c, m, mu, ad, t); }, nullptr}); \
    L.push_back({NAME "/2p", KIND, SORTED, SOUT, DENSE, false, [](CR a, CR b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM2p<__VA_ARGS__>(a, b, c, m, mu, ad, t); }, nullptr});

void REG(AlgList<I_, N_> &L) {
#if GROUP == 1
    REGALG("msa1a", K_PLAIN, false, 2, true, MSA1A<false, false>::Impl)
    REGALG("msa2a", K_PLAIN, false, 2, true, MSA2A<false, false>::Impl)
    REGALG("hash", K_PLAIN, false, 2, false, MaskedHash<false, false>::Impl)
    REGALG("mca", K_PLAIN, true, 2, false, MCA<false, false>::Impl)
#elif GROUP == 2
    REGALG("heap0", K_PLAIN, true, 1, false, MaskedHeap<false, true, 0>::Impl)
    REGALG("heap1", K_PLAIN, true, 1, false, MaskedHeap<false, true, 1>::Impl)
    REGALG("heapdot", K_PLAIN, true, 1, false, MaskedHeap<false, true, MaskedHeapDot>::Impl)
#elif GROUP == 3
    REGALG("heap8", K_PLAIN, true, 1, false, MaskedHeap<false, true, 8>::Impl)
    REGALG("heap64", K_PLAIN, true, 1, false, MaskedHeap<false, true, 64>::Impl)
    REGALG("heap512", K_PLAIN, true, 1, false, MaskedHeap<false, true, 512>::Impl)
#elif GROUP == 4
    REGALG("msa1a_old", K_PLAIN, false, 2, true, MSA1A_old)
    REGALG("msa2a_old", K_PLAIN, false, 2, true, MSA2A_old)
    REGALG("heapv0", K_PLAIN, true, 1, false, MaskedHeap_v0)
    REGALG("heapv1", K_PLAIN, true, 1, false, MaskedHeap_v1)
    REGALG("heapv2", K_PLAIN, true, 1, false, MaskedHeap_v2)
    L.push_back({"poly/1p", K_PLAIN, true, 2, true, false, [](CR a, CR b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM1p(a, b, c, m, mu, ad, t); }, nullptr});
#elif GROUP == 5
    REGALG("cmsa1a", K_COMPL, false, 0, true, MSA1A<true, false>::Impl)
    REGALG("cmsa1a-sorted", K_COMPL, false, 1, true, MSA1A<true, true>::Impl)
    REGALG("cmsa2a", K_COMPL, false, 0, true, MSA2A<true, false>::Impl)
    REGALG("cmsa2a-sorted", K_COMPL, false, 1, true, MSA2A<true, true>::Impl)
#elif GROUP == 6
    REGALG("chash", K_COMPL, false, 0, false, MaskedHash<true, false>::Impl)
    REGALG("chash-sorted", K_COMPL, false, 1, false, MaskedHash<true, true>::Impl)
    REGALG("cheap", K_COMPL, true, 1, false, MaskedHeap<true, true, 0>::Impl)
#elif GROUP == 7
    L.push_back({"inner/1p", K_PLAIN, true, 2, false, true, nullptr, [](CR a, CC b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM1p<MaskedInner>(a, b, c, m, mu, ad, t); }});
    L.push_back({"inner/2p", K_PLAIN, true, 2, false, true, nullptr, [](CR a, CC b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM2p<MaskedInner>(a, b, c, m, mu, ad, t); }});
    L.push_back({"innerproduct/1p", K_PLAIN, true, 2, false, true, nullptr, [](CR a, CC b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM1pInnerProduct(a, b, c, m, mu, ad, t); }});
    L.push_back({"innerproduct/2p", K_PLAIN, true, 2, false, true, nullptr, [](CR a, CC b, OR_ c, CR m, MulOp<N_> mu, AddOp<N_> ad, unsigned t) { MaskedSpGEMM2pInnerProduct(a, b, c, m, mu, ad, t); }});
#endif
}
