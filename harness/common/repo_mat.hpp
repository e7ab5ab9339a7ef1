// Bridges between vh::Mat and the repository's CSR/CSC (fields only).
#pragma once
#include "mat.hpp"

namespace vh {
template<class IT, class NT, class CSRT> void fillCSR(CSRT &c, const Mat<NT> &a) {
    c.rows = (IT) a.rows; c.cols = (IT) a.cols; c.nnz = (IT) a.nnz();
    c.rowptr = (IT *) malloc(sizeof(IT) * (a.rows + 1));
    c.colids = (IT *) malloc(sizeof(IT) * std::max<size_t>(a.nnz(), 1));
    c.values = (NT *) malloc(sizeof(NT) * std::max<size_t>(a.nnz(), 1));
    size_t p = 0;
    for (int64_t i = 0; i < a.rows; i++) {
        c.rowptr[i] = (IT) p;
        for (auto &e : a.r[i]) { c.colids[p] = (IT) e.first; c.values[p++] = e.second; }
    }
    c.rowptr[a.rows] = (IT) p;
    if (p == 0) { free(c.colids); free(c.values); c.colids = nullptr; c.values = nullptr; }
}
template<class IT, class NT, class CSCT> void fillCSC(CSCT &c, const Mat<NT> &a) {
    Mat<NT> t = transpose(a);
    c.rows = (IT) a.rows; c.cols = (IT) a.cols; c.nnz = (IT) a.nnz();
    c.colptr = (IT *) malloc(sizeof(IT) * (a.cols + 1));
    c.rowids = (IT *) malloc(sizeof(IT) * std::max<size_t>(a.nnz(), 1));
    c.values = (NT *) malloc(sizeof(NT) * std::max<size_t>(a.nnz(), 1));
    size_t p = 0;
    for (int64_t i = 0; i < a.cols; i++) {
        c.colptr[i] = (IT) p;
        for (auto &e : t.r[i]) { c.rowids[p] = (IT) e.first; c.values[p++] = e.second; }
    }
    c.colptr[a.cols] = (IT) p;
    if (p == 0) { free(c.rowids); free(c.values); c.rowids = nullptr; c.values = nullptr; }
}
template<class IT, class NT, class CSRT> Mat<NT> fromCSR(const CSRT &c) {
    Mat<NT> a(c.rows, c.cols);
    for (int64_t i = 0; i < (int64_t) c.rows; i++) for (IT j = c.rowptr[i]; j < c.rowptr[i + 1]; j++) a.r[i].push_back({(int64_t) c.colids[j], c.values[j]});
    return a;
}
} // namespace vh
