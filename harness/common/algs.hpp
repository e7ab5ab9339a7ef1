#pragma once
#include "mat.hpp"
// repository headers are included by the translation units that need them
template<class IT, class NT> class CSR;
template<class IT, class NT> class CSC;

namespace vh {
enum AlgKind { K_PLAIN = 0, K_COMPL = 1, K_UNMASKED = 2 };
template<class IT, class NT> struct Alg {
    std::string name;
    int kind;                // AlgKind
    bool needSorted;         // operands and mask must have ascending ids
    int sortedOut;           // 0: never promised, 1: always (with sorted mask/inputs), 2: in mask order
    bool denseCols;          // allocates O(columns)
    bool csc;                // takes B by columns
    void (*f)(const CSR<IT, NT> &, const CSR<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, MulOp<NT>, AddOp<NT>, unsigned);
    void (*fi)(const CSR<IT, NT> &, const CSC<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, MulOp<NT>, AddOp<NT>, unsigned);
    bool freshOut = false;   // the output must be a default-constructed matrix
};
template<class IT, class NT> using AlgList = std::vector<Alg<IT, NT>>;
} // namespace vh
