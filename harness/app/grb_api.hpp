// benchmarks/TriCntAllGrb.cpp is written for a GraphBLAS release whose GrB_Matrix_wait takes a pointer to the matrix.
#pragma once
extern "C" {
#include <GraphBLAS.h>
}
static inline GrB_Info vhWait(GrB_Matrix *m) { return GrB_Matrix_wait(*m, GrB_MATERIALIZE); }
static inline GrB_Info vhWait(GrB_Matrix m, int w) { return GrB_Matrix_wait(m, (GrB_WaitMode) w); }
#define GrB_Matrix_wait(...) vhWait(__VA_ARGS__)
