From 85823e3af06e4b928ab4564a1ea5c14dad5ea512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 01/67] fix: complemented masked heap product accepts rows with
 an empty mask

The complement of an empty mask row keeps every product, and both loops
already handle maskIdx == maskEnd; the assertions aborted on such rows.
---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From 1ca070dd3beb13490f5d061bdffe4cc5f31d7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:06 +0000
Subject: [PATCH 02/67] fix: poly masked product records row sizes and gives
 each accumulator its own buffer

Row sizes were never stored for non-empty rows, so the output offsets were
uninitialised memory, and the two accumulators overlapped in one buffer.
---
 spgemm-blocks/masked-spgemm-poly.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..2e41091 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -45,23 +45,12 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         MCA<false, false>::Impl<IT, NT> mca{B.cols, maxRowSizeA, maxRowSizeM, maxRowFlops};
         auto[bufferSizeMCA, bufferAlignmentMCA] = mca.getMemoryRequirement();
 
-        size_t bufferSize = 0;
-//        bufferSize = std::max(bufferSize, bufferSizeHash);
-        bufferSize = std::max(bufferSize, bufferSizeSPA);
-//        bufferSize = std::max(bufferSize, bufferSizeHeap);
-        bufferSize = std::max(bufferSize, bufferSizeMCA);
+        // The two accumulators keep state between rows, so each needs a buffer of its own
+        auto bufferSPA = mallocAligned(bufferSizeSPA, bufferAlignmentSPA);
+        auto bufferMCA = mallocAligned(bufferSizeMCA, bufferAlignmentMCA);
 
-        size_t bufferAlignment = 1;
-//        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentHash);
-        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentSPA);
-//        bufferAlignment = std::lcm(bufferAlignment, bufferSizeHeap);
-        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentMCA);
-
-        auto buffer = mallocAligned(bufferSize, bufferAlignment);
-        size_t dirty = bufferSize;
-
-        spa.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        mca.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
+        spa.getNumericAccumulator().setBuffer(bufferSPA, bufferSizeSPA, bufferSizeSPA);
+        mca.getNumericAccumulator().setBuffer(bufferMCA, bufferSizeMCA, bufferSizeMCA);
 
         // Allocate temporary memory for C's column IDs and Values
         IT *colIdsLocal = my_malloc<IT>(upperBoundSizeC, false);
@@ -72,11 +61,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
@@ -94,7 +85,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
 
         my_free(colIdsLocal, valuesLocal);
-        freeAligned(buffer);
+        freeAligned(bufferSPA);
+        freeAligned(bufferMCA);
     }
 
     my_free(flopsPerRow, cumulativeWork, rowNvals, threadsNvals);
-- 
2.43.0


From a44975bc0d4f66c8d9457fe838ccaa51ea4d2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:49 +0000
Subject: [PATCH 03/67] fix: two-phase inner products no longer clobber an
 output that aliases the mask or A

C was reset before the numeric phase had read A and M; build the result in a
separate matrix, as the CSR variant does.
---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 23 +++++++++++++++++++----
 spgemm-blocks/masked-spgemm-inner.h     | 23 +++++++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..3300e2a 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -109,6 +109,9 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 template<class IT, class NT, class MultiplyOperation, class AddOperation>
 void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
+    // The mask and A are read after the result is allocated, and C may be one of them
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -172,14 +175,14 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
+        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -226,6 +229,18 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..9259e5e 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -76,6 +76,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     using RowAlg = RowAlgorithm<IT, NT, Complemented>;
 
+    // The mask and A are read after the result is allocated, and C may be one of them
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -117,14 +120,14 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
+        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -138,6 +141,18 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
-- 
2.43.0


From 0e31a91665d73f154e39150bfe6dc2f630397794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:08 +0000
Subject: [PATCH 04/67] fix: scans of empty and of very short arrays neither
 write out of bounds nor race

With fewer elements than threads every thread without elements stored to the
first element, also when there is none.
---
 spgemm-blocks/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..6b6dd70 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,7 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -35,6 +36,7 @@ template<class T>
 void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 17u) || numThreads == 1) {
+        if (size == 0) { return; }
         dst[0] = src[0];
         for (size_t i = 1; i < size; ++i) {
             dst[i] = dst[i - 1] + src[i];
@@ -71,6 +73,7 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
@@ -81,6 +84,7 @@ template<class T>
 void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 1u) || numThreads == 1) {
+        if (size == 0) { return; }
         dst[0] = 0;
         for (size_t i = 1; i < size; ++i) {
             dst[i] = dst[i - 1] + src[i - 1];
-- 
2.43.0


From 84571fbb7d7ce64e6259f2dcf1ec3d5b98b50f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:08 +0000
Subject: [PATCH 05/67] fix: a thread without rows no longer reads row offsets
 other threads are writing

---
 spgemm-blocks/common.h                  | 2 ++
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 6 ++++--
 spgemm-blocks/masked-spgemm-inner.h     | 6 ++++--
 spgemm-blocks/masked-spgemm.h           | 6 ++++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..d5c2ad0 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -180,6 +180,8 @@ void setRowOffsets(CSR<IT, NT> &C, IT *threadsNvals, IT rowBeginIdx, IT rowEndId
 
 template<class IT, class NT>
 void copyValuesToC(CSR<IT, NT> &C, IT rowBeginIdx, IT *colIdsLocal, NT *valuesLocal, IT threadNvals) {
+    // A thread without rows must not read the offset of a row that another thread may be writing
+    if (threadNvals == 0) { return; }
     copy(colIdsLocal, colIdsLocal + threadNvals, C.colids + C.rowptr[rowBeginIdx]);
     copy(valuesLocal, valuesLocal + threadNvals, C.values + C.rowptr[rowBeginIdx]);
 }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 3300e2a..398935d 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -181,8 +181,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
         setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // (a thread without rows must not read the offset of a row that another thread may be writing)
+        const IT outBegin = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = R.colids + outBegin;
+        NT *currValue = R.values + outBegin;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 9259e5e..cf07c85 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -126,8 +126,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
         setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // (a thread without rows must not read the offset of a row that another thread may be writing)
+        const IT outBegin = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = R.colids + outBegin;
+        NT *currValue = R.values + outBegin;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..6d07d25 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -165,8 +165,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // (a thread without rows must not read the offset of a row that another thread may be writing)
+        const IT outBegin = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = R.colids + outBegin;
+        NT *currValue = R.values + outBegin;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (rowNvals[row] == 0) { continue; }
             alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowNvals[row]);
-- 
2.43.0


From 771b30a8597d0bed30d18f51091afbc7bac53ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 06/67] fix: mallocAligned no longer stores its header through
 a misaligned pointer

---
 spgemm-blocks/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spgemm-blocks/util.h b/spgemm-blocks/util.h
index b864f5d..c87bc8d 100644
--- a/spgemm-blocks/util.h
+++ b/spgemm-blocks/util.h
@@ -27,7 +27,8 @@ T *mallocAligned(size_t nelem, size_t alignment = sizeof(T)) {
     shiftSize += (rem != 0) ? (alignment - rem) : 0;
     mem += shiftSize;
 
-    *reinterpret_cast<size_t *>(mem - sizeof(size_t)) = shiftSize;
+    // The header is misaligned when alignment is not a multiple of alignof(size_t)
+    std::memcpy(mem - sizeof(size_t), &shiftSize, sizeof(size_t));
 
     return reinterpret_cast<T *>(mem);
 };
@@ -35,7 +36,8 @@ T *mallocAligned(size_t nelem, size_t alignment = sizeof(T)) {
 template<class T>
 void freeAligned(T *ptr) {
     auto *mem = reinterpret_cast<std::byte *>(ptr);
-    size_t shiftSize = *reinterpret_cast<size_t *>(mem - sizeof(size_t));
+    size_t shiftSize;
+    std::memcpy(&shiftSize, mem - sizeof(size_t), sizeof(size_t));
     mem -= shiftSize;
     std::free(mem);
 }
-- 
2.43.0


From fbd377d96ed1ee69057875b672999753c564a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:07 +0000
Subject: [PATCH 07/67] fix: matrices without entries release their arrays;
 assignment copies the row offsets of matrices without columns

make_empty() leaked the zero-sized arrays of empty results, and operator=
tested the wrong dimension before copying rowptr. All array pointers now start
as NULL, so that make_empty() can rely on them.
---
 CSC.h                                   | 30 ++++++++----------
 CSR.h                                   | 41 ++++++++++---------------
 spgemm-blocks/inner/MaskedInnerSpGEMM.h |  3 ++
 spgemm-blocks/masked-spgemm-inner.h     |  3 ++
 spgemm-blocks/masked-spgemm.h           |  3 ++
 5 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/CSC.h b/CSC.h
index 466ae0f..495c30e 100644
--- a/CSC.h
+++ b/CSC.h
@@ -47,16 +47,19 @@ public:
   CSC(IT scale, IT r_scale, IT r_edgefactor); // for tall-skiny matrix
 
   void make_empty() {
-    if (nnz > 0) {
+    // the arrays of a matrix without entries are (zero-sized) allocations, too
+    if (rowids != NULL)
       my_free<IT>(rowids);
+    if (values != NULL)
       my_free<NT>(values);
-      nnz = 0;
-    }
-    if (cols > 0) {
+    if (colptr != NULL)
       my_free<IT>(colptr);
-      cols = 0;
-    }
+    rowids = NULL;
+    values = NULL;
+    colptr = NULL;
+    nnz = 0;
     rows = 0;
+    cols = 0;
   }
 
   template <typename AddOperation>
@@ -95,9 +98,9 @@ public:
   IT nnz;       // number of nonzeros
   IT totalcols; // for the parallel case
 
-  IT *colptr;
-  IT *rowids;
-  NT *values;
+  IT *colptr = NULL;
+  IT *rowids = NULL;
+  NT *values = NULL;
 };
 
 // copy constructor
@@ -121,14 +124,7 @@ CSC<IT, NT> &CSC<IT, NT>::
 operator=(const CSC<IT, NT> &rhs) // ridefinisce operatore = di assegnazione
 {
   if (this != &rhs) {
-    if (nnz > 0) // if the existing object is not empty
-    {
-      my_free<IT>(rowids);
-      my_free<NT>(values);
-    }
-    if (cols > 0) {
-      my_free<IT>(colptr);
-    }
+    make_empty();
 
     nnz = rhs.nnz;
     rows = rhs.rows;
diff --git a/CSR.h b/CSR.h
index a2285b9..ef68b1d 100644
--- a/CSR.h
+++ b/CSR.h
@@ -50,18 +50,18 @@ public:
   void sortIds();    // Permutating column indices in ascending order
 
   void make_empty() {
-    if (nnz > 0) {
-		if (colids != NULL)
-      		my_free<IT>(colids);
-		if (values != NULL)
-			my_free<NT>(values);
-      nnz = 0;
-    }
-    if (rows > 0) {
-		if (rowptr != NULL)
-			my_free<IT>(rowptr);
-      rows = 0;
-    }
+    // the arrays of a matrix without entries are (zero-sized) allocations, too
+    if (colids != NULL)
+      my_free<IT>(colids);
+    if (values != NULL)
+      my_free<NT>(values);
+    if (rowptr != NULL)
+      my_free<IT>(rowptr);
+    colids = NULL;
+    values = NULL;
+    rowptr = NULL;
+    nnz = 0;
+    rows = 0;
     cols = 0;
   }
 
@@ -109,9 +109,9 @@ public:
   IT cols;
   IT nnz; // number of nonzeros
 
-  IT *rowptr;
-  IT *colids;
-  NT *values;
+  IT *rowptr = NULL;
+  IT *colids = NULL;
+  NT *values = NULL;
   bool zerobased;
 };
 
@@ -134,14 +134,7 @@ CSR<IT, NT>::CSR(const CSR<IT, NT> &rhs)
 template <class IT, class NT>
 CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
   if (this != &rhs) {
-    if (nnz > 0) // if the existing object is not empty
-    {
-      my_free<IT>(colids);
-      my_free<NT>(values);
-    }
-    if (rows > 0) {
-      my_free<IT>(rowptr);
-    }
+    make_empty();
 
     nnz = rhs.nnz;
     rows = rhs.rows;
@@ -154,7 +147,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 398935d..ccb0c57 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -243,6 +243,9 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     R.rows = 0;
     R.cols = 0;
     R.nnz = 0;
+    R.rowptr = NULL;
+    R.colids = NULL;
+    R.values = NULL;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index cf07c85..5b77904 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -155,6 +155,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     R.rows = 0;
     R.cols = 0;
     R.nnz = 0;
+    R.rowptr = NULL;
+    R.colids = NULL;
+    R.values = NULL;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 6d07d25..eb266c6 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -192,6 +192,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     R.rows = 0;
     R.cols = 0;
     R.nnz = 0;
+    R.rowptr = NULL;
+    R.colids = NULL;
+    R.values = NULL;
 }
 
 #endif //SPGEMM_GENERIC_H
-- 
2.43.0


From a65ae2b12038018bce03bc09526fa2e7b4952714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 08/67] fix: the parallel scan neither races on its thread
 count nor reads past its input

---
 utility.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utility.h b/utility.h
index 1a6df5f..ab0e0c6 100644
--- a/utility.h
+++ b/utility.h
@@ -183,7 +183,8 @@ template <typename T> void scan(T *in, T *out, T N) {
   } else {
     int tnum = 1;
 #pragma omp parallel
-    { tnum = omp_get_num_threads(); }
+#pragma omp single
+    tnum = omp_get_num_threads();
     T each_n = N / tnum;
     T *partial_sum = my_malloc<T>(tnum);
 #pragma omp parallel
@@ -197,7 +198,8 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i + 1] = out[i] + in[i];
       }
       // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // (the last input element is not part of any sum: in may have N - 1 elements)
+      partial_sum[tid] = out[end - 1] + (end < N ? in[end - 1] : T(0));
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From 6ef35469a02652ff74f7bb34ed0561a4b3910d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 09/67] fix: MCA row algorithms read keys from B and handle
 empty mask rows

---
 heap_mult_generic.h | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 8a0a010..cb9a478 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -478,11 +478,8 @@ struct MCABase {
     template<class IT, class NT>
     static IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                                  const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        IT size = 0;
-        for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
-            size += std::min(maxnnzc[row], M.rowptr[row + 1] - M.rowptr[row]);
-        }
-        return size;
+        // while a row is computed, its values are scattered over the whole mask row
+        return M.rowptr[rowEndIdx] - M.rowptr[rowBeginIdx];
     }
 
     template<class IT, class NT>
@@ -522,9 +519,9 @@ struct MCA_v1 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
+            if (loc == B.rowptr[inner + 1] || maskSize == 0) { continue; }
 
-            if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             IT maskIdx = maskBegin;
 
@@ -562,8 +559,10 @@ struct MCA_v1 : MCABase {
             }
         }
 
-        prevColIdC += dst - 1;
-        prevValueC += dst - 1;
+        prevColIdC += dst;
+        prevValueC += dst;
+        prevColIdC--;
+        prevValueC--;
 
         rowNvals[i] = dst;
         threadNvals += dst;
@@ -594,9 +593,9 @@ struct MCA_v2 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
+            if (loc == B.rowptr[inner + 1] || maskSize == 0) { continue; }
 
-            if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             // Find the intersection between the mask's row and the A's row
             for (IT maskIdx = maskBegin; maskIdx < maskEnd; maskIdx++) {
@@ -633,8 +632,10 @@ struct MCA_v2 : MCABase {
             }
         }
 
-        prevColIdC += dst - 1;
-        prevValueC += dst - 1;
+        prevColIdC += dst;
+        prevValueC += dst;
+        prevColIdC--;
+        prevValueC--;
 
         rowNvals[i] = dst;
         threadNvals += dst;
@@ -669,7 +670,7 @@ struct MCA_v3 : MCABase {
 
             auto maskIt = maskBegin;
 
-            if (colIdsIt == colIdsEnd) { continue; }
+            if (colIdsIt == colIdsEnd || maskSize == 0) { continue; }
 
             // Find the intersection between the mask's row and the A's row
             while (true) {
@@ -705,8 +706,10 @@ struct MCA_v3 : MCABase {
             }
         }
 
-        prevColIdC += dst - 1;
-        prevValueC += dst - 1;
+        prevColIdC += dst;
+        prevValueC += dst;
+        prevColIdC--;
+        prevValueC--;
 
         rowNvals[i] = dst;
         threadNvals += dst;
@@ -798,9 +801,11 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         }
         if (thisThread == numThreads - 1) { C.rowptr[C.rows] = rowPtrOffset; }
 
-        // copy local values to C
-        copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
-        copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + C.rowptr[rowBegin]);
+        // copy local values to C (a thread without rows has no row offset of its own)
+        if (rowBegin < rowEnd) {
+            copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
+            copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + C.rowptr[rowBegin]);
+        }
 
         my_free<IT>(colIdsLocalMem);
         my_free<NT>(valuesLocalMem);
@@ -809,6 +814,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     my_free<IT>(maxnnzc);
     my_free<IT>(rowStart);
     my_free<IT>(rowNvals);
+    my_free<IT>(threadsNvals);
 }
 
 template<class RowAlgorithm, typename IT, typename NT, typename MultiplyOperation, typename AddOperation>
-- 
2.43.0


From 63d0c06d658a630199e77dac51763195d5f0d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 10/67] fix: the masked inner product no longer reads B's
 offsets by A's column ids

---
 inner_mult.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/inner_mult.h b/inner_mult.h
index 54f5664..784fa1d 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -70,15 +70,10 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         C.values[i] = 0;
     }
     
-    BIN<IT, NT> bin(A.rows, IMB_PWMIN, threadCount);
-
-    /* Set max bin */
-    // Double check, changed 3rd param to colptr
-    bin.set_max_bin(A.rowptr, A.colids, B.colptr, C.rows, C.cols);
-
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
+        #pragma omp single
         numThreads = omp_get_num_threads();
     }
 
@@ -92,8 +87,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         IT tid;
         
         tid = omp_get_thread_num();
-        // start_row  = bin.rows_offset[tid];
-        // end_row = bin.rows_offset[tid + 1];
         start_row = rowPerThread * tid;
         end_row = min(rowPerThread * (tid+1), M.rows);
 
-- 
2.43.0


From d1a4962df80951f1ee8ea608dd883e7603a2d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 11/67] fix: column heap product releases its previous result

---
 heap_mult.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heap_mult.h b/heap_mult.h
index a4ca9ee..4de18a4 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -174,7 +174,7 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
 
     my_free<IT>(threadHeapSize);
 
-    if (C.isEmpty()) {
+    if (!C.isEmpty()) {
         C.make_empty();
     }
 
-- 
2.43.0


From 02eaf0c0c9d6f42c9efa02c7c02a4f8b770e6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 12/67] fix: outer products release what they allocate with the
 matching function

---
 outer_mult.h  | 18 +++++++++++-------
 outer_mult2.h | 24 ++++++++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 2b013c6..e9d2bb1 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -235,7 +235,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT *nnz_per_row_blocker = my_malloc<IT>(num_blockers);
 	do_static_symbolic(A, B, 0, A.cols, nrows_per_blocker, num_blockers, flops_by_row_blockers, total_flop);
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
-        global_blockers[blocker_id] = static_cast<TripleNode*>(::operator new(SIZE * flops_by_row_blockers[blocker_id]));
+        global_blockers[blocker_id] = my_malloc<TripleNode>(flops_by_row_blockers[blocker_id], false);
     IT max_flops_in_row_blockers = *std::max_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // IT min_flops_in_row_blockers = *std::min_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // uint64_t avg_flops_in_row_blockers = 0;
@@ -249,9 +249,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     {
         uint16_t thread_id = omp_get_thread_num();
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
-        local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
+        local_blockers[thread_id] = my_malloc<TripleNode>(num_blockers * block_width, false);
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
+        sorting_buffer[thread_id] = my_malloc<TripleNode>(max_flops_in_row_blockers, false);
 // computing phase
 #pragma omp for nowait
         for (IT idx = startIdx; idx < endIdx; ++idx)
@@ -337,16 +337,16 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
+    if (!C.isEmpty())
     {
         C.make_empty();
     }
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = my_malloc<IT>(total_nnz, false);
+    C.rowptr = my_malloc<IT>(C.rows+1, false);
+    C.values = my_malloc<NT>(total_nnz, false);
 
     C.rowptr[0] = 0;
 
@@ -371,6 +371,8 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     C.nnz = total_nnz;
 
     my_free<IT>(flops_by_row_blockers);
+    my_free<IT>(flops_by_rows);
+    my_free<IT>(global_blocker_counters);
     my_free<IT>(nnz_by_row);
     my_free<IT>(nnz_per_row_blocker);
     my_free<IT>(cumulative_row_indices);
@@ -384,7 +386,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     {
         my_free<TripleNode>(local_blockers[thread_id]);
         my_free<IT>(local_blocker_counters[thread_id]);
+        my_free<TripleNode>(sorting_buffer[thread_id]);
     }
+    my_free<TripleNode*>(sorting_buffer);
     my_free<TripleNode*>(local_blockers);
     my_free<IT*>(local_blocker_counters);
 }
diff --git a/outer_mult2.h b/outer_mult2.h
index d4aec84..544eb30 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -100,6 +100,8 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
         }
     }
     thread_rows_offset[cur_thread_id] = A.rows;
+    my_free<IT>(flops_by_iters);
+    my_free<IT>(blocker_row_count);
     // for (IT i = 0 ; i< num_blockers; ++i)
     //     cout << "BlockerId = " << i << " nrows = " << blocker_row_count[i] << endl;
 }
@@ -223,7 +225,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT* flops_by_rows = my_malloc<IT>(A.rows);
     IT* nnz_by_row = my_malloc<IT>(A.rows);
     IT *thread_rows_offset = my_malloc<IT>(nthreads+1);
-    rows_to_blockers = static_cast<IT*>(::operator new(sizeof(IT) * A.rows));
+    rows_to_blockers = my_malloc<IT>(A.rows, false);
     do_symbolic(A, B, 0, A.cols, num_blockers, flops_by_rows, rows_to_blockers, thread_rows_offset, flops_by_row_blockers, total_flop, nthreads);
 
     IT *global_blocker_counters = my_malloc<IT>(num_blockers);
@@ -235,7 +237,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
 
 #pragma omp parallel for
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
-        global_blockers[blocker_id] = static_cast<TripleNode*>(::operator new(SIZE * flops_by_row_blockers[blocker_id]));
+        global_blockers[blocker_id] = my_malloc<TripleNode>(flops_by_row_blockers[blocker_id], false);
 
     IT max_flops_in_row_blockers = *std::max_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // IT min_flops_in_row_blockers = *std::min_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
@@ -248,13 +250,13 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     // cout << "avg_flops_in_row_blockers = " << avg_flops_in_row_blockers / num_blockers << "   max_flops_in_row_blockers = " << max_flops_in_row_blockers << "    min_flops_in_row_blockers = " << min_flops_in_row_blockers << endl;
 #pragma omp parallel for
     for (uint16_t thread_id=0; thread_id<nthreads; ++thread_id)
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
+        sorting_buffer[thread_id] = my_malloc<TripleNode>(max_flops_in_row_blockers, false);
 
 #pragma omp parallel
     {
         uint16_t thread_id = omp_get_thread_num();
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
-        local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
+        local_blockers[thread_id] = my_malloc<TripleNode>(num_blockers * block_width, false);
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
         IT first_row = thread_rows_offset[thread_id];
         IT last_row = thread_rows_offset[thread_id+1];
@@ -337,16 +339,16 @@ double t1 = omp_get_wtime();
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
+    if (!C.isEmpty())
     {
         C.make_empty();
     }
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = my_malloc<IT>(total_nnz, false);
+    C.rowptr = my_malloc<IT>(C.rows+1, false);
+    C.values = my_malloc<NT>(total_nnz, false);
 
     C.rowptr[0] = 0;
 
@@ -372,7 +374,11 @@ double t1 = omp_get_wtime();
     C.nnz = total_nnz;
 
     my_free<IT>(flops_by_row_blockers);
+    my_free<IT>(flops_by_rows);
+    my_free<IT>(global_blocker_counters);
     my_free<IT>(nnz_by_row);
+    my_free<IT>(thread_rows_offset);
+    my_free<IT>(rows_to_blockers);
     my_free<IT>(nnz_per_row_blocker);
     my_free<IT>(cumulative_row_indices);
     for (uint16_t row_blocker_id = 0; row_blocker_id < num_blockers; ++row_blocker_id)
@@ -384,7 +390,9 @@ double t1 = omp_get_wtime();
     {
         my_free<TripleNode>(local_blockers[thread_id]);
         my_free<IT>(local_blocker_counters[thread_id]);
+        my_free<TripleNode>(sorting_buffer[thread_id]);
     }
+    my_free<TripleNode*>(sorting_buffer);
     my_free<TripleNode*>(local_blockers);
     my_free<IT*>(local_blocker_counters);
 }
-- 
2.43.0


From cbf1458858bac50a93ef8fb0744308f788884b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 13/67] fix: hashing of large column ids does not overflow

---
 hash_mult_hw.h |  4 ++--
 mask_hash.h    | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/hash_mult_hw.h b/hash_mult_hw.h
index f541d22..cf3ae65 100644
--- a/hash_mult_hw.h
+++ b/hash_mult_hw.h
@@ -54,7 +54,7 @@ inline void hash_symbolic_kernel(const IT *arpt, const IT *acol, const IT *brpt,
                     t_acol = acol[j];
                     for (k = brpt[t_acol]; k < brpt[t_acol + 1]; ++k) {
                         key = bcol[k];
-                        hash = (key * HASH_SCAL) & (SH_ROW - 1);
+                        hash = ((uint64_t) key * HASH_SCAL) & (SH_ROW - 1);
                         while (1) {
                             if (check[hash] == key) {
                                 break;
@@ -134,7 +134,7 @@ inline void hash_numeric(const IT *arpt, const IT *acol, const NT *aval, const I
                         t_val = multop(t_aval, bval[k]);
 
                         key = bcol[k];
-                        hash = (key * HASH_SCAL) & (SH_ROW - 1);
+                        hash = ((uint64_t) key * HASH_SCAL) & (SH_ROW - 1);
                         while (1) {
                             if (shared_check[hash] == key) {
                                 shared_value[hash] = addop(t_val, shared_value[hash]);
diff --git a/mask_hash.h b/mask_hash.h
index af4fee5..cf05b84 100644
--- a/mask_hash.h
+++ b/mask_hash.h
@@ -66,7 +66,7 @@ map_lp
 	insert (K k, V1 val1, V2 val2)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1); // beware
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1); // beware
 
 		while (get<0>(v_[hv]) != ne_ && get<0>(v_[hv]) != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -88,7 +88,7 @@ map_lp
 	find (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1);
 
 		while (get<0>(v_[hv]) != ne_ && get<0>(v_[hv]) != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -170,7 +170,7 @@ map_lp<K, V1, void, T>
 	insert (K k, V1 val)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1);
 
 		while (v_[hv].first != ne_ && v_[hv].first != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -191,7 +191,7 @@ map_lp<K, V1, void, T>
 	find (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1);
 
 		while (v_[hv].first != ne_ && v_[hv].first != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -207,7 +207,7 @@ map_lp<K, V1, void, T>
 	find (K k, T *loc)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1);
 
 		while (v_[hv].first != ne_ && v_[hv].first != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -269,7 +269,7 @@ map_lp<K, void, void, T>
 	insert (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1);
 
 		while (v_[hv] != ne_ && v_[hv] != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -289,7 +289,7 @@ map_lp<K, void, void, T>
 	find (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= (static_cast<uint64_t>(key) * scale_) & (size_ - 1);
 
 		while (v_[hv] != ne_ && v_[hv] != key)
 			hv = (hv + 1) & (size_ - 1);
-- 
2.43.0


From f72d164a3eadce164ae7133ce86670194b0e05e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:58 +0000
Subject: [PATCH 14/67] fix: sumall accumulates in the value type

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index ef68b1d..e5442eb 100644
--- a/CSR.h
+++ b/CSR.h
@@ -90,7 +90,7 @@ public:
 
   NT sumall()
   {
-      IT sum = 0;
+      NT sum = 0;
       #pragma omp parallel for reduction (+:sum)
       for(IT i=0; i<nnz; ++i )
       {
-- 
2.43.0


From f42040c0c6b12b120b9318ad86f24c796c227c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:58 +0000
Subject: [PATCH 15/67] fix: CSC::MergeDuplicates sizes its column lists, the
 tuple constructor uses it

---
 CSC.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CSC.h b/CSC.h
index 495c30e..9c2671a 100644
--- a/CSC.h
+++ b/CSC.h
@@ -373,8 +373,8 @@ void CSC<IT, NT>::MergeDuplicates(AddOperation addop) {
   vector<IT> diff(cols, 0);
   std::adjacent_difference(colptr + 1, colptr + cols + 1, diff.begin());
 
-  vector<vector<IT>> v_rowids;
-  vector<vector<NT>> v_values;
+  vector<vector<IT>> v_rowids(cols);
+  vector<vector<NT>> v_values(cols);
 
   if (nnz > 0) {
 #pragma omp parallel for
@@ -463,6 +463,7 @@ CSC<IT, NT>::CSC(vector<tuple<IT, IT, NT>> &tuple, IT m, IT n,
   //   // TO DO: as value I want a pair<kmer_id, vector<posix_in_read>>
   // }
   my_free<IT>(work);
+  MergeDuplicates(addop);
 }
 
 // Construct a Csc object from parallel arrays
-- 
2.43.0


From 54ed48f6ae9c66c7162b0faffa71a0fa09e08494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:58 +0000
Subject: [PATCH 16/67] fix: matrices are constructed from graphs without edges

---
 CSC.h | 5 +++++
 CSR.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/CSC.h b/CSC.h
index 9c2671a..a082b68 100644
--- a/CSC.h
+++ b/CSC.h
@@ -162,6 +162,11 @@ CSC<IT, NT>::CSC(graph &G) : nnz(G.m), rows(G.n), cols(G.n) {
   // } graph;
   cout << "Graph nnz= " << G.m << " and n=" << G.n << endl;
 
+  if (nnz == 0) { // no edge to start from
+    colptr = my_malloc<IT>(cols + 1);
+    return;
+  }
+
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
   currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
diff --git a/CSR.h b/CSR.h
index e5442eb..82e5cbb 100644
--- a/CSR.h
+++ b/CSR.h
@@ -248,6 +248,11 @@ CSR<IT, NT>::CSR(graph &G) : nnz(G.m), rows(G.n), cols(G.n), zerobased(true) {
   // } graph;
   cout << "Graph nnz= " << G.m << " and n=" << G.n << endl;
 
+  if (nnz == 0) { // no edge to start from
+    rowptr = my_malloc<IT>(rows + 1);
+    return;
+  }
+
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
   currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
-- 
2.43.0


From 564daddaed00d944729f27a2df1f85ee123e4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:58 +0000
Subject: [PATCH 17/67] fix: shuffleIds skips empty rows and columns

---
 CSC.h | 2 ++
 CSR.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CSC.h b/CSC.h
index a082b68..31b67e1 100644
--- a/CSC.h
+++ b/CSC.h
@@ -529,6 +529,8 @@ template <class IT, class NT> void CSC<IT, NT>::shuffleIds() {
   for (IT i = 0; i < cols; ++i) {
     IT offset = colptr[i];
     IT width = colptr[i + 1] - colptr[i];
+    if (width == 0) // the range [0, width - 1] must not be empty
+      continue;
     uniform_int_distribution<IT> rand_scale(0, width - 1);
     for (IT j = colptr[i]; j < colptr[i + 1]; ++j) {
       IT target = rand_scale(mt);
diff --git a/CSR.h b/CSR.h
index 82e5cbb..2bb8d1d 100644
--- a/CSR.h
+++ b/CSR.h
@@ -647,6 +647,8 @@ template <class IT, class NT> void CSR<IT, NT>::shuffleIds() {
   for (IT i = 0; i < rows; ++i) {
     IT offset = rowptr[i];
     IT width = rowptr[i + 1] - rowptr[i];
+    if (width == 0) // the range [0, width - 1] must not be empty
+      continue;
     uniform_int_distribution<IT> rand_scale(0, width - 1);
     for (IT j = rowptr[i]; j < rowptr[i + 1]; ++j) {
       IT target = rand_scale(mt);
-- 
2.43.0


From 8a966bb3405b4f0debfb28873512bae664dc0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:36 +0000
Subject: [PATCH 18/67] fix: comparison of matrices without rows or columns

---
 CSC.h | 3 +++
 CSR.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/CSC.h b/CSC.h
index 31b67e1..ef3e930 100644
--- a/CSC.h
+++ b/CSC.h
@@ -548,6 +548,9 @@ template <class IT, class NT>
 bool CSC<IT, NT>::operator==(const CSC<IT, NT> &rhs) {
   if (nnz != rhs.nnz || rows != rhs.rows || cols != rhs.cols)
     return false;
+  // a matrix without columns need not have column pointers
+  if (cols == 0)
+    return true;
   bool same = std::equal(colptr, colptr + cols + 1, rhs.colptr);
   same = same && std::equal(rowids, rowids + nnz, rhs.rowids);
 
diff --git a/CSR.h b/CSR.h
index 2bb8d1d..ba366f8 100644
--- a/CSR.h
+++ b/CSR.h
@@ -471,6 +471,9 @@ bool CSR<IT, NT>::operator==(const CSR<IT, NT> &rhs) {
            rhs.cols);
     return false;
   }
+  // a matrix without rows need not have row pointers
+  if (rows == 0)
+    return true;
   if (zerobased != rhs.zerobased) {
     IT *tmp_rowptr = my_malloc<IT>(rows + 1);
     IT *tmp_colids = my_malloc<IT>(nnz);
-- 
2.43.0


From 7c6c8a354615ca767e89290c9170b35a47916d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:49 +0000
Subject: [PATCH 19/67] fix: matrix files are read with any spacing and with
 values of the matrix's type

---
 CSR.h     | 29 +++++++++--------------------
 IO.h      | 33 +++++----------------------------
 utility.h | 26 ++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 48 deletions(-)

diff --git a/CSR.h b/CSR.h
index ba366f8..21ec5ba 100644
--- a/CSR.h
+++ b/CSR.h
@@ -541,7 +541,7 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   IT i;
   bool isUnsy;
   IT num, offset, tmp_nz;
-  char *line, *ch;
+  char *line;
   FILE *fp;
   IT *col_coo, *row_coo;
   NT *val_coo;
@@ -565,7 +565,8 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   } while (line[0] == '%');
 
   /* Get size info */
-  sscanf(line, "%d %d %d", &rows, &cols, &tmp_nz);
+  rows = cols = tmp_nz = 0;
+  parse_coordinate(line, rows, cols, tmp_nz);
 
   /* Store in COO format */
   num = 0;
@@ -573,26 +574,14 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   row_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
   val_coo = (NT *)malloc(sizeof(NT) * (tmp_nz));
 
-  while (fgets(line, LINE_LENGTH_MAX, fp)) {
-    ch = line;
-    /* Read first word (row id)*/
-    row_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-    ch++;
-    /* Read second word (column id)*/
-    col_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-
-    if (ch != NULL) {
-      ch++;
-      /* Read third word (value data)*/
-      val_coo[num] = (NT)atof(ch);
-      ch = strchr(ch, ' ');
-    } else {
-      val_coo[num] = 1.0;
-    }
+  while (num < tmp_nz && fgets(line, LINE_LENGTH_MAX, fp)) {
+    if (!parse_coordinate(line, row_coo[num], col_coo[num], val_coo[num]))
+      continue;
+    row_coo[num]--;
+    col_coo[num]--;
     num++;
   }
+  tmp_nz = num;
   fclose(fp);
 
   /* Count the number of non-zero in each row */
diff --git a/IO.h b/IO.h
index a296f9b..ea7a853 100644
--- a/IO.h
+++ b/IO.h
@@ -3,6 +3,7 @@
 
 #include "Triple.h"
 #include "CSC.h"
+#include "utility.h"
 #include <fstream>
 #include <sstream>
 
@@ -92,21 +93,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
         while (! infile.eof() && cnz < nnz)
         {
             infile.getline(line,256);
-            char *ch = line;
-            triples[cnz].row = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            triples[cnz].col = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            if (ch != NULL) {
-                ch++;
-                /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-            }
-            else {
-                triples[cnz].val = 1.0;
-            }
+            parse_coordinate(line, triples[cnz].row, triples[cnz].col, triples[cnz].val);
             // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
             triples[cnz].row--;
             triples[cnz].col--;
@@ -188,19 +175,9 @@ int ReadASCII_Triples(string	  filename,
         while (! infile.eof() && cnz < nnz)
         {
             infile.getline(line,256);
-            char *ch = line;
-            IT rid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            IT cid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-			NT val = 1.0;
-			if (ch != NULL)
-			{
-                ch++;
-                val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-			}
+            IT rid, cid;
+			NT val;
+            parse_coordinate(line, rid, cid, val);
 
 			if (rand_vals)
 				val = rand()%10 + 7;
diff --git a/utility.h b/utility.h
index ab0e0c6..341873c 100644
--- a/utility.h
+++ b/utility.h
@@ -11,6 +11,7 @@
 #include <omp.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <type_traits>
 #include <unistd.h>
 #include <vector>
 //#include <numa.h>
@@ -55,6 +56,31 @@ bool my_is_sorted(_ForwardIterator __first, _ForwardIterator __last,
   return true;
 };
 
+// Reads "row column [value]" from a line of a coordinate file. The words may be
+// separated by any white space, an absent value is one. Returns false if the
+// line has no position.
+template <typename IT, typename NT>
+bool parse_coordinate(const char *line, IT &row, IT &col, NT &val) {
+  char *end;
+  row = static_cast<IT>(strtoll(line, &end, 10));
+  if (end == line)
+    return false;
+  line = end;
+  col = static_cast<IT>(strtoll(line, &end, 10));
+  if (end == line)
+    return false;
+  line = end;
+  if (std::is_floating_point<NT>::value)
+    val = static_cast<NT>(strtod(line, &end));
+  else if (std::is_signed<NT>::value)
+    val = static_cast<NT>(strtoll(line, &end, 10));
+  else
+    val = static_cast<NT>(strtoull(line, &end, 10));
+  if (end == line)
+    val = static_cast<NT>(1);
+  return true;
+}
+
 template <typename ITYPE> ITYPE CumulativeSum(ITYPE *arr, ITYPE size) {
   ITYPE prev;
   ITYPE tempnz = 0;
-- 
2.43.0


From 7de2f888bae0a005c8f02a2994be9635a8312e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:14 +0000
Subject: [PATCH 20/67] fix: unusable matrix files are reported, readers
 release what they allocate

---
 IO.h       | 58 +++++++++++++++++++++++++++++++++++++++++++++---------
 grb_util.h |  6 ++++--
 2 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/IO.h b/IO.h
index ea7a853..a6ed468 100644
--- a/IO.h
+++ b/IO.h
@@ -18,7 +18,7 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
         cerr << "Problem reading binary input file" << filename << endl;
         return -1;
     }
-    IT m,n,nnz;
+    IT m = 0, n = 0, nnz = 0;
     fread(&m, sizeof(IT), 1, f);
     fread(&n, sizeof(IT), 1, f);
     fread(&nnz, sizeof(IT), 1, f);
@@ -26,6 +26,7 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     if (m <= 0 || n <= 0 || nnz <= 0)
     {
         cerr << "Problem with matrix size in binary input file" << filename << endl;
+        fclose(f);
         return -1;
     }
     double start = omp_get_wtime( );
@@ -42,6 +43,10 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     if(rows != nnz || cols != nnz || nums != nnz)
     {
         cerr << "Problem with FREAD, aborting... " << endl;
+        fclose(f);
+        delete [] rowindices;
+        delete [] colindices;
+        delete [] vals;
         return -1;
     }
     double end = omp_get_wtime( );
@@ -50,7 +55,7 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
 
     fclose(f);
     
-    csc = *(new CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n));
+    csc = CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n);
     
     delete [] rowindices;
     delete [] colindices;
@@ -64,6 +69,11 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
+    if (!infile.is_open())
+    {
+        cerr << "Problem reading input file " << filename << endl;
+        return -1;
+    }
     char line[256];
     char c = infile.get();
     while(c == '%')
@@ -80,7 +90,11 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     infile.getline(line,256);
     IT m,n,nnz;
     std::stringstream ss{line};
-    ss >> m >> n >> nnz;
+    if (!(ss >> m >> n >> nnz))
+    {
+        cerr << "Problem with matrix size in input file " << filename << endl;
+        return -1;
+    }
     
     if (isSymmetric) {
         nnz *= 2;
@@ -93,7 +107,9 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
         while (! infile.eof() && cnz < nnz)
         {
             infile.getline(line,256);
-            parse_coordinate(line, triples[cnz].row, triples[cnz].col, triples[cnz].val);
+            if (!parse_coordinate(line, triples[cnz].row, triples[cnz].col, triples[cnz].val) ||
+                triples[cnz].row < 1 || triples[cnz].row > m || triples[cnz].col < 1 || triples[cnz].col > n)
+                break;
             // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
             triples[cnz].row--;
             triples[cnz].col--;
@@ -110,7 +126,12 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
             }
             ++cnz;
         }
-        assert(cnz == nnz);
+        if (cnz != nnz)
+        {
+            cerr << "Problem with the entries of input file " << filename << endl;
+            delete [] triples;
+            return -1;
+        }
     }
     
     double end = omp_get_wtime( );
@@ -119,7 +140,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     std::cout << "Input Matrix: Rows = " << m << ", Columns= " << n << ", nnz = " << nnz << std::endl;
 
     cout << "Converting to csc ... " << endl << endl;
-    csc= *(new CSC<IT,NT>(triples, nnz, m, n));
+    csc = CSC<IT,NT>(triples, nnz, m, n);
     csc.totalcols = n;
     delete [] triples;
     return 1;
@@ -141,6 +162,11 @@ int ReadASCII_Triples(string	  filename,
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
+    if (!infile.is_open())
+    {
+        cerr << "Problem reading input file " << filename << endl;
+        return -1;
+    }
     char line[256];
     char c = infile.get();
     while(c == '%')
@@ -160,7 +186,11 @@ int ReadASCII_Triples(string	  filename,
 	IT m,n,nnz;
 	infile.getline(line,256);
     std::stringstream ss{line};
-    ss >> m >> n >> nnz;
+    if (!(ss >> m >> n >> nnz))
+    {
+        cerr << "Problem with matrix size in input file " << filename << endl;
+        return -1;
+    }
 	    
     if (isSymmetric) {
         nnz *= 2;
@@ -177,7 +207,8 @@ int ReadASCII_Triples(string	  filename,
             infile.getline(line,256);
             IT rid, cid;
 			NT val;
-            parse_coordinate(line, rid, cid, val);
+            if (!parse_coordinate(line, rid, cid, val) || rid < 1 || rid > m || cid < 1 || cid > n)
+                break;
 
 			if (rand_vals)
 				val = rand()%10 + 7;
@@ -207,7 +238,16 @@ int ReadASCII_Triples(string	  filename,
             }
             ++cnz;
         }
-        assert(cnz == nnz);
+        if (cnz != nnz)
+        {
+            cerr << "Problem with the entries of input file " << filename << endl;
+            delete [] rids;
+            delete [] cids;
+            delete [] vals;
+            rids = cids = NULL;
+            vals = NULL;
+            return -1;
+        }
     }
     
     double end = omp_get_wtime( );
diff --git a/grb_util.h b/grb_util.h
index 2e53512..8b19462 100644
--- a/grb_util.h
+++ b/grb_util.h
@@ -756,8 +756,10 @@ read_grb_mtx
 	GrB_Index	*rids;
 	GrB_Index	*cids;
 	NT			*vals;
-	ReadASCII_Triples(fpath, m, n, nnz, rids, cids, vals,
-					  remove_diags, rand_vals);
+	*A = NULL;
+	if (ReadASCII_Triples(fpath, m, n, nnz, rids, cids, vals,
+						  remove_diags, rand_vals) < 0)
+		return;
 	GrbMatrixBuild<NT>()(A, rids, cids, vals, m, n, nnz);
 	delete[] rids;
 	delete[] cids;
-- 
2.43.0


From 3b444e80fd01a69e194c090ba08aee428a391d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 21/67] fix: input matrices of the samples are not leaked, file
 names need no extension

---
 sample/sample_common.hpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/sample/sample_common.hpp b/sample/sample_common.hpp
index 088a1c8..b9d8f7a 100644
--- a/sample/sample_common.hpp
+++ b/sample/sample_common.hpp
@@ -148,7 +148,7 @@ void SetInputMatricesAsCSC(CSC<INDEXTYPE, VALUETYPE> &A_csc,
     graph G1;
     graphGen(&G1);
     cerr << "Generator returned" << endl;
-    A_csc = *(new CSC<INDEXTYPE, VALUETYPE>(G1));
+    A_csc = CSC<INDEXTYPE, VALUETYPE>(G1);
     if (STORE_IN_MEMORY) {
       free(G1.start);
       free(G1.end);
@@ -157,7 +157,7 @@ void SetInputMatricesAsCSC(CSC<INDEXTYPE, VALUETYPE> &A_csc,
     graph G2;
     graphGen(&G2);
     cerr << "Generator returned" << endl;
-    B_csc = *(new CSC<INDEXTYPE, VALUETYPE>(G2));
+    B_csc = CSC<INDEXTYPE, VALUETYPE>(G2);
 
     if (STORE_IN_MEMORY) {
       free(G2.start);
@@ -180,19 +180,9 @@ void SetInputMatricesAsCSC(CSC<INDEXTYPE, VALUETYPE> &A_csc,
       cout << "reading input matrices in text (ascii)... " << endl;
       ReadASCII(inputname1, A_csc);
       ReadASCII(inputname2, B_csc);
-      stringstream ss1(inputname1);
-      string cur;
-      vector<string> v1;
-      while (getline(ss1, cur, '.')) {
-        v1.push_back(cur);
-      }
-
-      stringstream ss2(v1[v1.size() - 2]);
-      vector<string> v2;
-      while (getline(ss2, cur, '/')) {
-        v2.push_back(cur);
-      }
-      inputname1 = v2[v2.size() - 1];
+      // keep the name of the matrix: no directory, no extension
+      inputname1 = inputname1.substr(inputname1.find_last_of('/') + 1);
+      inputname1 = inputname1.substr(0, inputname1.find_last_of('.'));
     }
   }
 }
@@ -207,8 +197,8 @@ void SetInputMatricesAsCSR(CSR<INDEXTYPE, VALUETYPE> &A_csr,
 
   SetInputMatricesAsCSC(A_csc, B_csc, argv);
 
-  A_csr = *(new CSR<INDEXTYPE, VALUETYPE>(A_csc));
-  B_csr = *(new CSR<INDEXTYPE, VALUETYPE>(B_csc));
+  A_csr = CSR<INDEXTYPE, VALUETYPE>(A_csc);
+  B_csr = CSR<INDEXTYPE, VALUETYPE>(B_csc);
 }
 
 #endif
-- 
2.43.0


From ff17b72de36e320452d34c2dfe38bc9dce816559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:04 +0000
Subject: [PATCH 22/67] fix: column matrices are packed with the size of their
 column offsets

---
 CSC.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSC.h b/CSC.h
index ef3e930..0d8f62f 100644
--- a/CSC.h
+++ b/CSC.h
@@ -634,7 +634,7 @@ CSC<IT, NT>::get_grb_mat
            "Dimension mismatch in converting CSR matrix to GraphBLAS matrix.");
 
     bool is_iso = false, is_jumbled = false;
-    GrB_Index ap_size = sizeof(IT) * (this->rows+1),
+    GrB_Index ap_size = sizeof(IT) * (this->cols+1),
             aj_size = sizeof(IT) * this->nnz,
             ax_size = sizeof(NT) * this->nnz;
 
-- 
2.43.0


From 5746aec35acb407a30d71eb8b83efb1b2e08d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:04 +0000
Subject: [PATCH 23/67] fix: one-based matrices are converted to GraphBLAS
 without shifting rows and entries

---
 CSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.h b/CSR.h
index 21ec5ba..b5e63b1 100644
--- a/CSR.h
+++ b/CSR.h
@@ -749,9 +749,9 @@ CSR<IT, NT>::get_grb_mat
 	int			 decr  = 1 - this->zerobased;
 	for (IT r = 0; r < this->rows; ++r)
 	{
-		for (IT cidx = this->rowptr[r]; cidx < this->rowptr[r+1]; ++cidx)
+		for (IT cidx = this->rowptr[r]-decr; cidx < this->rowptr[r+1]-decr; ++cidx)
 		{
-			rinds[i]   = static_cast<GrB_Index>(r-decr);
+			rinds[i]   = static_cast<GrB_Index>(r);
 			cinds[i++] = static_cast<GrB_Index>(this->colids[cidx]-decr);
 		}
 	}
-- 
2.43.0


From 8f584ba1a82eaaedff879b797b3df229af3ca909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 24/67] fix: matrices are imported into GraphBLAS with the size
 of their column ids

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index b5e63b1..f9d08de 100644
--- a/CSR.h
+++ b/CSR.h
@@ -843,7 +843,7 @@ CSR<IT, NT>::get_grb_mat_ptr
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-						  sizeof(IT)*(this->rows+1), sizeof(NT)*this->nnz,
+						  sizeof(IT)*(this->rows+1), sizeof(IT)*this->nnz,
 						  sizeof(NT)*this->nnz, false, false, desc);
 
 
-- 
2.43.0


From d8eddf52513ce556b6d58aa8da72504806406056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 25/67] fix: the exchange with GraphBLAS releases replaced
 matrices, descriptors and scalars

---
 CSC.h      | 2 ++
 CSR.h      | 4 ++--
 grb_util.h | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/CSC.h b/CSC.h
index 0d8f62f..6e4e628 100644
--- a/CSC.h
+++ b/CSC.h
@@ -368,6 +368,8 @@ CSC<IT, NT>::CSC (GrB_Matrix A)
                           nullptr,
                           desc);
 
+    GrB_Descriptor_free(&desc);
+
     return;
 }
 
diff --git a/CSR.h b/CSR.h
index f9d08de..aaf3110 100644
--- a/CSR.h
+++ b/CSR.h
@@ -443,6 +443,7 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 						  desc); // frees the graphblas matrix
 	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
+	GrB_Descriptor_free(&desc);
 
 	return;						  
 }
@@ -758,8 +759,7 @@ CSR<IT, NT>::get_grb_mat
 
 	if (A != NULL)
 	{
-		GrB_Matrix_clear(*A);
-		*A = NULL;
+		GrB_Matrix_free(A); // sets *A to NULL
 	}
 
 	GrbMatrixBuild<NT>()(A, rinds, cinds, this->values,
diff --git a/grb_util.h b/grb_util.h
index 8b19462..ef02a78 100644
--- a/grb_util.h
+++ b/grb_util.h
@@ -778,6 +778,7 @@ read_grb_mtx
 		GrB_Matrix_eWiseAdd_Semiring(*A, NULL, NULL,
 									 GrbAlgObj<NT>().get_sr_plus_times(),
 		 							 *A, *A, desc);
+		GrB_Descriptor_free(&desc);
 		
 		// GxB_Matrix_fprint(tmp, "tmp", GxB_COMPLETE, stdout);
 	}
@@ -828,6 +829,7 @@ sort_by_degree
     delete[] mapping;
     delete[] cnts;
 
+    GrB_Matrix_free(A);
     GrbMatrixBuild<NT>()(A, rids, cids, vals, nrows, ncols, nnz);
 
     delete[] rids;
@@ -852,6 +854,7 @@ get_lowtri
 	GrB_Matrix_new(L, to_grb.get_type(), n, n);
 	GxB_Scalar_setElement_INT64(Thunk, (int64_t) (-1));
 	GxB_Matrix_select(*L, NULL, NULL, GxB_TRIL, A, Thunk, NULL);
+	GxB_Scalar_free(&Thunk);
 
 	return;	
 }
@@ -879,7 +882,6 @@ convert_to_csc
     GxB_Global_Option_get(GxB_FORMAT, &old);
     GxB_Global_Option_set(GxB_FORMAT, GxB_BY_COL);
 
-    GrB_Matrix_new(A_csc, GrbAlgObj<NT>{}.get_type(), nrows, ncols);
     GrbMatrixBuild<NT>{}(A_csc, rids, cids, vals, nrows, ncols, nnz);
 
     GxB_Global_Option_set(GxB_FORMAT, old);
-- 
2.43.0


From 75a43b7383b9b6b775fa454e0144f55556da5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:19 +0000
Subject: [PATCH 26/67] fix: iso-valued GraphBLAS matrices are exported with
 all their values

---
 CSR.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CSR.h b/CSR.h
index aaf3110..58812ce 100644
--- a/CSR.h
+++ b/CSR.h
@@ -430,7 +430,7 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 		GrB_Matrix_dup(&tmp, *A); // deep
 
 	GrB_Type		nz_type;
-	bool			is_uniform, is_jumbled;
+	bool			is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Descriptor	desc = NULL;
 	GrB_Descriptor_new(&desc);
@@ -439,7 +439,8 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 	GxB_Matrix_export_CSR(&tmp, &nz_type, &this->rows, &this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
 						  &ap_size, &aj_size, &ax_size,
-						  &is_uniform, &is_jumbled,
+						  NULL,	// expands iso-valued matrices
+						  &is_jumbled,
 						  desc); // frees the graphblas matrix
 	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
-- 
2.43.0


From f8d1bedfe6e77f0e81ede68b5c8f19681e719006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 27/67] fix: iso-valued GraphBLAS matrices are unpacked into
 row matrices with all their values

---
 CSR.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CSR.h b/CSR.h
index 58812ce..6f7ca42 100644
--- a/CSR.h
+++ b/CSR.h
@@ -381,7 +381,7 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 				  "CSR matrix index type and GrB_Matrix index type "
 				  "must be the same");
 
-	bool			is_iso, is_jumbled;
+	bool			is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Index		nr, nc, nnz;
 	GrB_Descriptor	desc = NULL;
@@ -403,10 +403,9 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 						  &ap_size,
 						  &aj_size,
 						  &ax_size,
-						  &is_iso,
+						  NULL,	// expands iso-valued matrices
 						  &is_jumbled,
 						  desc);
-	assert(!is_iso && "GraphBLAS matrix is iso-valued.");
 	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
     GrB_Descriptor_free(&desc);
-- 
2.43.0


From b1a29c0a7640aef72696c5518d3a18736d61e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 28/67] fix: key-value sorting compiles for every index type

---
 utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility.h b/utility.h
index 341873c..90f8b71 100644
--- a/utility.h
+++ b/utility.h
@@ -288,7 +288,7 @@ inline void cpu_sorting_key_value(IT *key, NT *value, IT N) {
   temp_key = my_malloc<IT>(N);
   temp_value = my_malloc<NT>(N);
 
-  mergesort(key, value, temp_key, temp_value, 0, N - 1);
+  mergesort(key, value, temp_key, temp_value, IT(0), IT(N - 1));
 
   my_free<IT>(temp_key);
   my_free<NT>(temp_value);
-- 
2.43.0


From c078c127382ff14c4f20b3aff30663aeaa2a2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 29/67] fix: the concurrent queue's empty() returns its answer

It was declared void and could not be instantiated.
---
 PaRMAT/src/threadsafe_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index ad27924..e1777b0 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -36,7 +36,7 @@ public:
 	std::shared_ptr<T> wait_and_pop();
 	void wait_and_pop(T& value);
 	void push(T new_value);
-	void empty();
+	bool empty();
 
 private:
 	node* get_tail()
@@ -147,7 +147,7 @@ void threadsafe_queue<T>::push(T new_value)
 
 // empty.
 template <typename T>
-void threadsafe_queue<T>::empty()
+bool threadsafe_queue<T>::empty()
 {
 	std::lock_guard<std::mutex> head_lock(head_mutex);
 	return (head.get()==get_tail());
-- 
2.43.0


From 8147215030a157892f00aa10284893b4866c1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 30/67] fix: a push cannot slip between a consumer's check and
 its wait

The predicate reads the tail under another mutex, so the notification could be
lost and the consumer wait forever with an element in the queue.
---
 PaRMAT/src/threadsafe_queue.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index e1777b0..f8d46b3 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -142,6 +142,11 @@ void threadsafe_queue<T>::push(T new_value)
 		tail->next=std::move(p);
 		tail=new_tail;
 	}
+	// A consumer that found the queue empty holds head_mutex until it waits:
+	// notifying without passing that mutex could come before the wait.
+	{
+		std::lock_guard<std::mutex> head_lock(head_mutex);
+	}
 	data_cond.notify_one();
 }
 
-- 
2.43.0


From 6d38dbc6e01f58fa2e262c9d13b0de6ff8a202b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 31/67] fix: destroying a long concurrent queue does not
 exhaust the stack

---
 PaRMAT/src/threadsafe_queue.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index f8d46b3..84132b0 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -28,6 +28,12 @@ public:
 	threadsafe_queue():
 		head(new node), tail(head.get())
 	{}
+	// Frees the nodes one by one: the default would recurse once per remaining element.
+	~threadsafe_queue()
+	{
+		while(head)
+			head = std::move(head->next);
+	}
 	threadsafe_queue(const threadsafe_queue& other)=delete;
 	threadsafe_queue& operator=(const threadsafe_queue& other)=delete;
 
-- 
2.43.0


From cb2b5c0e25f7450772dbeea094bf8872f7d1668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 32/67] fix: the capacity gate admits a request for the whole
 capacity

A part with exactly as many edges as the capacity is eligible but waited forever.
---
 PaRMAT/src/capacity_controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/capacity_controller.hpp b/PaRMAT/src/capacity_controller.hpp
index 0b76d28..5bf6ec8 100755
--- a/PaRMAT/src/capacity_controller.hpp
+++ b/PaRMAT/src/capacity_controller.hpp
@@ -25,7 +25,7 @@ public:
 		std::unique_lock<std::mutex> accumulate_mutex(capacity_mutex);
 		dissipated_cond.wait( accumulate_mutex, [&]{
 			auto sum = accumulated + thisMuch;
-			auto ret = ( sum < max_capacity );
+			auto ret = ( sum <= max_capacity );
 			if( ret )
 				accumulated = sum;
 			return ret;
-- 
2.43.0


From c77f1fb13439493abff58bc072d084e70eb54277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 33/67] fix: parts without edges are searched for duplicates
 safely (unsorted generator)

size()-1 wrapped around and the access threw in a worker thread.
---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index c7fb405..a5dd064 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -40,7 +40,7 @@ void fill_up_edge_vector(
 			std::sort( edgeVector.begin(), edgeVector.end() );
 
 			// Detection of Invalid edges.
-			for( unsigned long long edgeIdx = 0; edgeIdx < (edgeVector.size()-1); ++edgeIdx )
+			for( unsigned long long edgeIdx = 0; edgeIdx + 1 < edgeVector.size(); ++edgeIdx )
 				if( edgeVector.at(edgeIdx) == edgeVector.at(edgeIdx+1) )
 					throwAwayEdgesIndices.push_back(edgeIdx);
 
-- 
2.43.0


From 9cac88e0cc066f0b99a397b185c9aeec4c1ab74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 34/67] fix: parts without edges are searched for duplicates
 safely (sorted generator)

end()-1 of an empty vector was compared and dereferenced.
---
 PaRMAT/src/GraphGen_sorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 56be73b..dc9312c 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -41,7 +41,7 @@ void EachThreadGeneratesEdges(
 
 		generate_edges( std::ref(rec), std::ref(edgesVec), RMAT_a, RMAT_b, RMAT_c, directedGraph, allowEdgeToSelf, std::ref(dis), std::ref(gen), std::ref(throwAwayEdgesIndices) );
 
-		if( !allowDuplicateEdges ) {
+		if( !allowDuplicateEdges && rec.getnEdges() != 0 ) {
 
 			// Sort the edge vector.
 			std::sort( edgesVec.end()-rec.getnEdges(), edgesVec.end() );
-- 
2.43.0


From c284daf3cb347aeb77c8828cc6130198d2161080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 35/67] fix: the in-memory generator covers all destinations

The last vertex was never a destination, and undirected graphs, whose diagonal
parts were no longer recognised, could loop forever.
---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index a5dd064..0ba71f2 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -201,7 +201,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
                                        )
 {
     
-    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices-1, nEdges, 0, 0, 0 ) );
+    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices, nEdges, 0, 0, 0 ) );
     
     bool allRecsAreInRange;
     do {
-- 
2.43.0


From 55a710f453f18e2313b97c3fad87c556777c3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 36/67] fix: the part that exceeds the capacity is the one
 divided

'continue' skipped the index increment, so the first part was divided over and over.
---
 PaRMAT/src/GraphGen_notSorted.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index 0ba71f2..9836cee 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -73,9 +73,7 @@ bool GraphGen_notSorted::GenerateGraph(
 		allRecsAreInRange = true;
 		unsigned int recIdx = 0;
 		for( auto& rec: squares ) {
-			if( Eligible_RNG_Rec(rec, standardCapacity) ) {
-				continue;
-			} else {
+			if( !Eligible_RNG_Rec(rec, standardCapacity) ) {
 				ShatterSquare(squares, RMAT_a, RMAT_b, RMAT_c, recIdx, directedGraph);
 				allRecsAreInRange = false;
 				break;
@@ -208,9 +206,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
         allRecsAreInRange = true;
         unsigned int recIdx = 0;
         for( auto& rec: squares ) {
-            if( Eligible_RNG_Rec(rec, standardCapacity) ) {
-                continue;
-            } else {
+            if( !Eligible_RNG_Rec(rec, standardCapacity) ) {
                 ShatterSquare(squares, RMAT_a, RMAT_b, RMAT_c, recIdx, directedGraph);
                 allRecsAreInRange = false;
                 break;
-- 
2.43.0


From 90625932fb83ddc13d023eba39ee1922c06d861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 37/67] fix: the sorted generator writes the edges of its last
 workers

With fewer groups than threads the final loop read other (empty) slots.
---
 PaRMAT/src/GraphGen_sorted.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index dc9312c..db1831e 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -155,6 +155,7 @@ bool GraphGen_sorted::GenerateGraph(
 		}
 
 		// Joining last threads.
+		recIdx -= tasks_to_complete.size();
 		for( auto& task: tasks_to_complete ) {
 			task.get();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
@@ -191,6 +192,7 @@ bool GraphGen_sorted::GenerateGraph(
 		}
 
 		// Joining last threads.
+		recIdx -= threads.size();
 		for( auto& t: threads ) {
 			t.join();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
-- 
2.43.0


From 6b35ddb716126908c1fd25883fcbeb29e880e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 38/67] fix: parts of a divided square do not share their
 boundary

Both bounds are inclusive, so an edge on the boundary could be generated twice
although duplicates were excluded.
---
 PaRMAT/src/Square.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index 7eb0308..2e619e8 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>	// For std::min.
+
 #include "Square.hpp"
 
 bool Eligible_RNG_Rec( Square& rec, const unsigned long long nEdgesThreshold ) {
@@ -30,9 +32,10 @@ Square& Square::operator=( const Square &cSource ) {
 
 Square Square::Get_part( const unsigned int part, double a, double b, double c, double a_edge_share, double b_edge_share, double c_edge_share ) {
 
-	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : ((X_start+X_end)>>1) ;
+	// Both bounds belong to a square: the second halves start after the first ones end.
+	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : std::min( ((X_start+X_end)>>1)+1, X_end ) ;
 	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: ((X_start+X_end)>>1) ;
-	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : ((Y_start+Y_end)>>1) ;
+	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : std::min( ((Y_start+Y_end)>>1)+1, Y_end ) ;
 	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: ((Y_start+Y_end)>>1) ;
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
-- 
2.43.0


From e01081c75262e3b4c004997fd81f4535f77f8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 39/67] fix: GTgraph heap sort stays inside the arrays and
 builds the whole heap

siftDown's bottom is the last index; passing n read and swapped in an element
behind the arrays, and the last parent was not sifted for odd n.
---
 GTgraph/R-MAT/utils.c  | 4 ++--
 GTgraph/SSCA2/utils.c  | 4 ++--
 GTgraph/random/utils.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 93a4928..ed62588 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -175,8 +175,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/SSCA2/utils.c b/GTgraph/SSCA2/utils.c
index cf02a7a..f2153c3 100644
--- a/GTgraph/SSCA2/utils.c
+++ b/GTgraph/SSCA2/utils.c
@@ -177,8 +177,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index a9cb33b..0a0523b 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -173,8 +173,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
-- 
2.43.0


From d466fe4d2035e4b3b5dac6e8ca1aefbf32850392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 40/67] fix: G(n,p) with more edges than estimated does not
 overflow its arrays

---
 GTgraph/random/graph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index 5d83caa..0d884d7 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -124,6 +124,12 @@ void graphGen(graph* g)
 
                                 if (p > sprng(stream1)) {
 
+					/* The estimate is not a bound */
+					if (edgeNum == estNumEdges) {
+						estNumEdges = 2 * estNumEdges + 16;
+						startVertex = (LONG_T *) realloc(startVertex, estNumEdges * sizeof(LONG_T));
+						endVertex   = (LONG_T *) realloc(endVertex, estNumEdges * sizeof(LONG_T));
+					}
 					startVertex[edgeNum] = i; 
 					endVertex[edgeNum]   = j;
 					edgeNum++;
-- 
2.43.0


From 587666b04bbc64a52e0f459b8f3fa84318f53b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 41/67] fix: the edge count patched into a directly written
 graph reaches the file

The file was never closed.
---
 GTgraph/random/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index 0a0523b..521362b 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -245,4 +245,5 @@ void updateEdgeVal(char* FILENAME, LONG_T numEdges) {
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fprintf(outfp, "p sp %ld %ld", n, numEdges);
+	fclose(outfp);
 }
-- 
2.43.0


From 2e505e94b967a41c9ae04b0cf42aeecf0f45ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 42/67] fix: SSCA2 clusters never exceed the maximum clique
 size

When the drawn sizes did not cover all vertices the last cluster got the rest.
---
 GTgraph/SSCA2/graph.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 7dbf877..01ac84d 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -44,6 +44,15 @@ void graphGen(graph* g)
 		clusterSizes[i] = 1 + (sprng(stream) * MaxCliqueSize);
 	}
 
+	/* The sizes may add up to less than TotVertices: draw further clusters then */
+	for(i = 0, j = 0; i < estTotClusters; i++)
+		j += clusterSizes[i];
+	while (j < TotVertices) {
+		clusterSizes = (LONG_T *) realloc(clusterSizes, (estTotClusters+1)*sizeof(LONG_T));
+		clusterSizes[estTotClusters] = 1 + (sprng(stream) * MaxCliqueSize);
+		j += clusterSizes[estTotClusters++];
+	}
+
 	totClusters = 0;
   
 	/* Allocate memory for storing the first vertex in each cluster */
-- 
2.43.0


From 148d26c135ad0b655bc17de579c98aac39f90718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 43/67] fix: SSCA2 with more edges than estimated does not
 overflow its arrays

---
 GTgraph/SSCA2/graph.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 01ac84d..06ed56e 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -1,5 +1,16 @@
 #include "graph.h"
 
+/* The estimated number of edges is not a bound: makes room for 'needed' edges */
+static void reserveEdges(LONG_T** startV, LONG_T** endV, LONG_T* size, LONG_T needed)
+{
+	if (needed <= *size)
+		return;
+
+	*size = 2 * needed;
+	*startV = (LONG_T *) realloc(*startV, *size * sizeof(LONG_T));
+	*endV = (LONG_T *) realloc(*endV, *size * sizeof(LONG_T));
+}
+
 void graphGen(graph* g)
 {
 
@@ -108,6 +119,8 @@ void graphGen(graph* g)
 		for (i = 0; i < clusterSizes[i_cluster]; i++) {
 
 			for (j = 0; j < i; j++) {
+
+				reserveEdges(&startV, &endV, &estNumEdges, edgeNum + 2*MaxParallelEdges);
 			
 				if (sprng(stream) >= p) {
 					/* generate edges in both directions */
@@ -187,6 +200,8 @@ void graphGen(graph* g)
 
 		for (t = 1; t < dsize; t++) {
 
+			reserveEdges(&startV, &endV, &estNumEdges, edgeNum + MaxParallelEdges);
+
 			j = (i + d[t] + (LONG_T) (sprng(stream) * (d[t] - d[t-1]))) % TotVertices;	
 
 			/* Ensure that i and j don't belong to the same cluster */
-- 
2.43.0


From 84b858e933ecaaa24140f8906380dd831cb4b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 44/67] fix: R-MAT keeps the output file named before -n and -m

---
 GTgraph/R-MAT/init.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GTgraph/R-MAT/init.c b/GTgraph/R-MAT/init.c
index f631951..d206fec 100644
--- a/GTgraph/R-MAT/init.c
+++ b/GTgraph/R-MAT/init.c
@@ -57,7 +57,8 @@ void parseUserInput(int argc, char** argv) {
 				if (configfileSpecified)
 					break;
 				if (varSpecified == 0) {
-					getParams();
+					if (!outfileSpecified)
+						getParams();
 					varSpecified = 1;
 				}
 				n = atol(optarg);
@@ -69,7 +70,8 @@ void parseUserInput(int argc, char** argv) {
 				if (configfileSpecified)
 					break;
 				if (varSpecified == 0) {
-                                        getParams();
+                                        if (!outfileSpecified)
+                                                getParams();
                                         varSpecified = 1;
                                 }
                                 m = atol(optarg);
-- 
2.43.0


From c2f816847819573ec91147bbbe642748326557c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 45/67] fix: SSCA2 reads ProbIntercliqueEdges as its config
 file spells it

---
 GTgraph/SSCA2/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 49df9c4..6298498 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -153,7 +153,7 @@ void getParamsFromFile(char* configfile) {
 			MinWeight = (WEIGHT_T) val;
 		} else if (strcmp(var,"ProbUnidirectional")==0) {
 			ProbUnidirectional = (double) val;
-		} else if (strcmp(var,"ProbInterClEdges")==0) {
+		} else if (strcmp(var,"ProbInterClEdges")==0 || strcmp(var,"ProbIntercliqueEdges")==0) {
 			ProbIntercliqueEdges = (double) val;
 		} else if (strcmp(var,"MaxParallelEdges")==0) {
 			MaxParallelEdges = (LONG_T) val;
-- 
2.43.0


From f7013e3d81eb6fd75ec7e79d2e6c8a5b47d01594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 46/67] fix: graph generator config files may hold blank lines
 and long words

---
 GTgraph/R-MAT/init.c  | 2 +-
 GTgraph/SSCA2/init.c  | 2 +-
 GTgraph/random/init.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/GTgraph/R-MAT/init.c b/GTgraph/R-MAT/init.c
index d206fec..5841a16 100644
--- a/GTgraph/R-MAT/init.c
+++ b/GTgraph/R-MAT/init.c
@@ -158,7 +158,7 @@ void getParamsFromFile(char* configfile) {
 	}
 
 	while (fgets(line, sizeof (line), fp) != NULL) {
-		sscanf(line,"%s %lf",var, &val);
+		if (sscanf(line,"%31s %lf",var, &val) < 1) continue;  /* blank line */
 		if (*var == '#') continue;  /* comment */
 		else if (strcmp(var,"n")==0) {
 			n = (LONG_T) val;
diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 6298498..a3ce5c0 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -136,7 +136,7 @@ void getParamsFromFile(char* configfile) {
 	}
 
 	while (fgets(line, sizeof (line), fp) != NULL) {
-		sscanf(line,"%s %lf",var, &val);
+		if (sscanf(line,"%31s %lf",var, &val) < 1) continue;  /* blank line */
 		if (*var == '#') continue;  /* comment */
 		else if (strcmp(var,"SCALE")==0) {
 			SCALE = (LONG_T) val;
diff --git a/GTgraph/random/init.c b/GTgraph/random/init.c
index 1c2b08c..ce5811d 100644
--- a/GTgraph/random/init.c
+++ b/GTgraph/random/init.c
@@ -175,7 +175,7 @@ void getParamsFromFile(char* configfile) {
 	}
 
 	while (fgets(line, sizeof (line), fp) != NULL) {
-		sscanf(line,"%s %lf",var, &val);
+		if (sscanf(line,"%31s %lf",var, &val) < 1) continue;  /* blank line */
 		if (*var == '#') continue;  /* comment */
 		else if (strcmp(var,"GRAPH_MODEL")==0) {
 			GRAPH_MODEL = (int) val;
-- 
2.43.0


From 6ea5828ce1743205a74fe178a759bb4980822b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 47/67] fix: transposition reads one row pointer too many

---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0


From 4163f76174e97488ce904c10fa01c4b90be08f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 48/67] fix: removing duplicates from an empty list leaves an
 empty list

---
 util/triple-util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/triple-util.h b/util/triple-util.h
index e474bb2..f43894b 100644
--- a/util/triple-util.h
+++ b/util/triple-util.h
@@ -1,12 +1,16 @@
 #ifndef MASKED_SPGEMM_TUPLE_UTIL_H
 #define MASKED_SPGEMM_TUPLE_UTIL_H
 
+#include <algorithm>
 #include <cstddef>
 #include <random>
 #include "../Triple.h"
 
 template<class IT, class NT>
 IT removeDuplicates(IT numValues, Triple<IT, NT> *triples) {
+    if (numValues == 0)
+        return 0;
+
     // Sort and remove duplicates
     std::sort(triples, triples + numValues, [](auto lhs, auto rhs) {
         return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
-- 
2.43.0


From e365e415391774da051f4f1cbf6609021f443ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 49/67] fix: bit map search beyond bit 2^32

---
 BitMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitMap.h b/BitMap.h
index 1ded809..fb8e150 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -117,7 +117,7 @@ class BitMap {
       temp = 0;
     }
     if (!temp) {
-      next = (next & 0xffffffc0);
+      next = (next & ~static_cast<uint64_t>(0x3f));
       while (!temp) {
         it++;
         if (it >= end)
-- 
2.43.0


From 7d585ebcd91726037187c2a29169ff53c5c6cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 50/67] fix: submatrix extraction: bounds, row numbering, empty
 selections, value buffers

---
 CSC.h | 66 +++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/CSC.h b/CSC.h
index 6e4e628..a1db6f5 100644
--- a/CSC.h
+++ b/CSC.h
@@ -607,7 +607,7 @@ void CSC<IT, NT>::intersect(const IT *rowids_in, const NT *values_in,
       else //(ri[k]==rowids[j])
       {
         values_out[idx] = values_in[j];
-        rowids_out[idx++] = rowids_in[j];
+        rowids_out[idx++] = k;
         k++;
         j++; // repeated rows are not allowed
       }
@@ -664,11 +664,11 @@ CSC<IT, NT>::get_grb_mat
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
                                 const IT cilen) {
-  if (cilen > 0 && ci[cilen - 1] > cols) {
+  if (cilen > 0 && ci[cilen - 1] >= cols) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if (rilen > 0 && ri[rilen - 1] > rows) {
+  if (rilen > 0 && ri[rilen - 1] >= rows) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -683,7 +683,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   // NT* values_out = new NT[nnz_ci];
   // IT* len_out = new IT[cilen];
   IT *rowids_out = my_malloc<IT>(nnz_ci);
-  IT *values_out = my_malloc<NT>(nnz_ci);
+  NT *values_out = my_malloc<NT>(nnz_ci);
   IT *len_out = my_malloc<IT>(cilen);
 
   IT idx = 0;
@@ -692,7 +692,8 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
     IT cidx2 = colptr[ci[i] + 1];
 
     intersect(&rowids[cidx1], &values[cidx1], cidx2 - cidx1, ri, rilen,
-              &rowids_out[cidx1], &values_out[cidx1], &len_out[i]);
+              &rowids_out[idx], &values_out[idx], &len_out[i]);
+    idx += cidx2 - cidx1;
   }
 
   CSC C;
@@ -711,13 +712,17 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   C.rowids = my_malloc<IT>(C.nnz);
   C.values = my_malloc<NT>(C.nnz);
 
+  idx = 0;
   for (int i = 0; i < C.cols; ++i) // combine step
   {
-    IT cidx1 = colptr[ci[i]];
-    IT cidx2 = cidx1 + len_out[i];
-    copy(&rowids_out[cidx1], &rowids_out[cidx2], C.rowids + C.colptr[i]);
-    copy(&values_out[cidx1], &values_out[cidx2], C.values + C.colptr[i]);
-  }
+    IT len = len_out[i];
+    copy(&rowids_out[idx], &rowids_out[idx] + len, C.rowids + C.colptr[i]);
+    copy(&values_out[idx], &values_out[idx] + len, C.values + C.colptr[i]);
+    idx += colptr[ci[i] + 1] - colptr[ci[i]];
+  }
+  my_free<IT>(rowids_out);
+  my_free<NT>(values_out);
+  my_free<IT>(len_out);
   return C;
 }
 
@@ -731,11 +736,11 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -764,7 +769,13 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.nnz = refnnz;
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  refmat.rowids = my_malloc<IT>(refnnz);
+  refmat.values = my_malloc<NT>(refnnz);
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
@@ -778,7 +789,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
       else //(ri[k]==rowids[j])
       {
         refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        refmat.rowids[idx++] = k;
         k++;
         // j++; // wait for the next iteration of the inner loop to alow reapted
         // rows
@@ -800,16 +811,16 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
 
-  BitMap bmap(ri.size()); // space requirement n bits
+  BitMap bmap(rows); // space requirement n bits
   bmap.reset();           // this is time consuming .....
   for (int i = 0; i < ri.size(); i++) {
     bmap.set_bit(ri[i]);
@@ -820,22 +831,33 @@ CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
   for (int i = 0; i < ci.size(); i++) {
     IT endIdx = colptr[ci[i] + 1];
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
-      if (bmap.get_bit(rowids[j]))
-        refnnz++;
+      if (bmap.get_bit(rowids[j])) {
+        auto range = equal_range(ri.begin(), ri.end(), rowids[j]);
+        refnnz += range.second - range.first;
+      }
     }
   }
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.nnz = refnnz;
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  refmat.rowids = my_malloc<IT>(refnnz);
+  refmat.values = my_malloc<NT>(refnnz);
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
     IT endIdx = colptr[ci[i] + 1];
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
       if (bmap.get_bit(rowids[j])) {
-        refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        auto range = equal_range(ri.begin(), ri.end(), rowids[j]);
+        for (auto it = range.first; it != range.second; ++it) {
+          refmat.values[idx] = values[j];
+          refmat.rowids[idx++] = it - ri.begin();
+        }
       }
     }
     refmat.colptr[i + 1] = idx;
-- 
2.43.0


From fa58955c0a24c118e618a7f182af010634bcbc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 51/67] fix: MLFG stream initialisation frees its scratch
 vector

---
 GTgraph/sprng2.0-lite/src/mlfg/mlfg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
index 770eff8..0b03b23 100755
--- a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
+++ b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
@@ -489,6 +489,7 @@ int rng_type,gennum,param,seed,total_gen;
   {
     genptr = p[0]; 
     free(p);
+    free(nstart);
   }
   
 /*      update si array to allow for future spawning of generators       */
-- 
2.43.0


From 0c2c942f1bd9a0edc38c76d938bebe327be24a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 52/67] fix: LFG streams use their own lag, not the first one's

---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 4122633..569f07a 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -544,7 +544,7 @@ unsigned *nstart, seed, initseed;
   for (i=ngen-1;i>=0;i--) 
   {
     k = 0;
-    for (j=1;j<lval-1;j++)
+    for (j=1;j<length-1;j++)
       if (q[i]->si[j]) 
 	k = 1;
     if (!k) 
-- 
2.43.0


From 420fed345140e70ead912632c06117c159117c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 53/67] fix: LFG streams report their own seed

---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 569f07a..1512feb 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -731,7 +731,7 @@ int get_seed_rng(gen)
 int *gen;
 #endif
 {
-        return(GS0^gseed);
+        return ((struct rngen *) gen)->init_seed;
 }
 
  
-- 
2.43.0


From 92ea10a3e5099872020ec620ba7f136b0350f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 54/67] fix: outer products copy whole tuples for every value
 type

---
 outer_mult.h  | 5 ++---
 outer_mult2.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index e9d2bb1..8ea8907 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -22,7 +22,6 @@ static uint32_t nrows_per_blocker;
 // static int *rows_to_blockers;
 // static int *flops_by_row_blockers;
 #define TBB true
-#define SIZE 16
 
 template <typename IT>
 uint16_t fast_mod(const IT input, const int ceil) {
@@ -285,7 +284,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
                         std::memcpy(
                             global_blockers[row_blocker_id] + __sync_fetch_and_add(&global_blocker_counters[row_blocker_id], block_width),
                             begin_local_blockers,
-                            block_width * SIZE
+                            block_width * sizeof(TripleNode)
                         );
                         cur_local_blockers = begin_local_blockers;
                     }
@@ -306,7 +305,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
             std::memcpy(
                 global_blockers[row_blocker_id] + __sync_fetch_and_add(&global_blocker_counters[row_blocker_id], local_blocker_counters[thread_id][row_blocker_id]),
                 local_blockers[thread_id] + row_blocker_id * block_width,
-                local_blocker_counters[thread_id][row_blocker_id] * SIZE
+                local_blocker_counters[thread_id][row_blocker_id] * sizeof(TripleNode)
             );
         //     local_blocker_counters[thread_id][row_blocker_id] = 0;
         }
diff --git a/outer_mult2.h b/outer_mult2.h
index 544eb30..0cab92d 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -18,7 +18,6 @@ static uint32_t ncols_of_A;
 static int *rows_to_blockers;
 static int *flops_by_row_blockers;
 
-#define SIZE 16
 #define GFX_TIMSORT_USE_STD_MOVE 1
 
 template <typename IT>
@@ -292,7 +291,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
                         std::memcpy(
                             global_blockers[row_blocker_id] + __sync_fetch_and_add(&global_blocker_counters[row_blocker_id], block_width),
                             begin_local_blockers,
-                            block_width * SIZE
+                            block_width * sizeof(TripleNode)
                         );
                         cur_local_blockers = begin_local_blockers;
                     }
@@ -313,7 +312,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
             std::memcpy(
                 global_blockers[row_blocker_id] + __sync_fetch_and_add(&global_blocker_counters[row_blocker_id], local_blocker_counters[thread_id][row_blocker_id]),
                 local_blockers[thread_id] + row_blocker_id * block_width,
-                local_blocker_counters[thread_id][row_blocker_id] * SIZE
+                local_blocker_counters[thread_id][row_blocker_id] * sizeof(TripleNode)
             );
         //     local_blocker_counters[thread_id][row_blocker_id] = 0;
         }
-- 
2.43.0


From 14cfc96c11a9bc91e06abc2e0f9ab0699c40a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 55/67] fix: outer product symbolic phase partitions the
 columns of A, not its rows

---
 outer_mult2.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/outer_mult2.h b/outer_mult2.h
index 0cab92d..0a9886c 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -53,7 +53,7 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
 
     IT cur_blocker_id = 0;
     IT cur_thread_id = 0;
-    IT *flops_by_iters = my_malloc<IT>(A.rows);
+    IT *flops_by_iters = my_malloc<IT>(A.cols);
 
 // #pragma omp parallel
 {
@@ -82,7 +82,6 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
     for (IT i=0; i<A.rows; ++i)
     {
         cur_blocker_volumn += flops_by_rows[i];
-        cur_thread_volumn += flops_by_iters[i];
         flops_by_row_blockers[cur_blocker_id] = cur_blocker_volumn;
         blocker_row_count[cur_blocker_id] ++;
         rows_to_blockers[i] = cur_blocker_id;
@@ -91,6 +90,10 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
             cur_blocker_id ++;
             cur_blocker_volumn = 0;
         }
+    }
+    for (IT i=0; i<A.cols; ++i)
+    {
+        cur_thread_volumn += flops_by_iters[i];
         if(cur_thread_volumn > avg_thread_volumn)
         {
             thread_rows_offset[cur_thread_id] = i;
@@ -98,7 +101,7 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
             cur_thread_volumn = 0;
         }
     }
-    thread_rows_offset[cur_thread_id] = A.rows;
+    thread_rows_offset[cur_thread_id] = A.cols;
     my_free<IT>(flops_by_iters);
     my_free<IT>(blocker_row_count);
     // for (IT i = 0 ; i< num_blockers; ++i)
-- 
2.43.0


From a4274c3749969de15dc76a713fbcde018f005937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 56/67] fix: outer products sort by keys wide enough for the
 matrix

---
 outer_mult.h  | 11 ++++++++---
 outer_mult2.h | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 8ea8907..5596023 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -165,9 +165,12 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 }
 
 template <typename IT, typename NT>
-inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer)
+inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer, bool wide_keys)
 {
-    radix_sort(begin, end, buffer, ExtractKey2());
+    if (wide_keys)
+        radix_sort(begin, end, buffer, ExtractKey());
+    else
+        radix_sort(begin, end, buffer, ExtractKey2());
     // sort(begin, end, compareTuple<IT, NT>);
 }
 
@@ -219,6 +222,8 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     const uint16_t block_width = nblockchars;
     nrows_of_A = A.rows;
 	nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
+    // ExtractKey2 holds 12 bits of the row and 20 bits of the column
+    const bool wide_keys = nrows_per_blocker > (1u << 12) || B.cols > (IT(1) << 20);
 
     IT total_flop = 0;
 
@@ -326,7 +331,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
             // uint16_t my_blocker_id = scheduling_order[row_blocker_id].second;
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer[thread_id]);
+                        sorting_buffer[thread_id], wide_keys);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
diff --git a/outer_mult2.h b/outer_mult2.h
index 0a9886c..33a662a 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -165,9 +165,12 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 }
 
 template <typename IT, typename NT>
-inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer)
+inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer, bool wide_keys)
 {
-    radix_sort(begin, end, buffer, ExtractKey2());
+    if (wide_keys)
+        radix_sort(begin, end, buffer, ExtractKey());
+    else
+        radix_sort(begin, end, buffer, ExtractKey2());
     // gfx::timsort(begin, end, compareTuple<IT, NT>);
     // sort(begin, end, compareTuple<IT, NT>);
 }
@@ -220,6 +223,8 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     const uint16_t block_width = nblockchars;
     omp_set_dynamic(0);
     ncols_of_A = A.cols;
+    // ExtractKey2 holds 16 bits of the row and 16 bits of the column
+    const bool wide_keys = A.rows > (IT(1) << 15) || B.cols > (IT(1) << 16);
 
     IT total_flop = 0;
 
@@ -331,7 +336,7 @@ double t1 = omp_get_wtime();
         {
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer[thread_id]);
+                        sorting_buffer[thread_id], wide_keys);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
-- 
2.43.0


From d80b407f0a79c632f87ae04d943d4dab1087b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 57/67] fix: one thread stores the team size in the masked-hash
 and column-heap products

---
 heap_mult.h      | 1 +
 mask_hash_mult.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/heap_mult.h b/heap_mult.h
index 4de18a4..cebc6f0 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -49,6 +49,7 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     int numThreads;
 #pragma omp parallel
     {
+#pragma omp single
         numThreads = omp_get_num_threads();
     }
 
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 773aa75..f64845c 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -50,6 +50,7 @@ mxm_hash_mask
     int numThreads; 
     #pragma omp parallel num_threads(threadCount)
     {
+        #pragma omp single
         numThreads = omp_get_num_threads();
     }
 
-- 
2.43.0


From 76bb4602503091a2ee99db7069c39cbee1b7cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 58/67] fix: only the banner of a coordinate file declares
 symmetry, comments may be long

---
 IO.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/IO.h b/IO.h
index a6ed468..c161cc9 100644
--- a/IO.h
+++ b/IO.h
@@ -76,13 +76,16 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     }
     char line[256];
     char c = infile.get();
+    bool banner = true; // comments may mention symmetry, and may be long
     while(c == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        string comment;
+        getline(infile, comment);
+        if (banner && comment.find("symmetric") != string::npos) {
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
+        banner = false;
         c = infile.get();
     }
     infile.unget();
@@ -169,13 +172,16 @@ int ReadASCII_Triples(string	  filename,
     }
     char line[256];
     char c = infile.get();
+    bool banner = true; // comments may mention symmetry, and may be long
     while(c == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        string comment;
+        getline(infile, comment);
+        if (banner && comment.find("symmetric") != string::npos) {
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
+        banner = false;
         c = infile.get();
     }
     infile.unget();
-- 
2.43.0


From aea2c4f63733789a3b3373cb2d87b02dacf066e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 59/67] fix: building rows from a file minds only the banner
 and refuses unusable files

---
 CSR.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/CSR.h b/CSR.h
index 6f7ca42..ff6f646 100644
--- a/CSR.h
+++ b/CSR.h
@@ -558,16 +558,27 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   if (fp == NULL) {
     exit(1);
   }
+  bool banner = true; // comments may contain any word, and may be long
   do {
-    fgets(line, LINE_LENGTH_MAX, fp);
-    if (strstr(line, "general")) {
+    if (fgets(line, LINE_LENGTH_MAX, fp) == NULL) {
+      exit(1);
+    }
+    if (banner && strstr(line, "general")) {
       isUnsy = true;
     }
+    banner = false;
+    if (line[0] == '%' && strchr(line, '\n') == NULL) {
+      int c;
+      while ((c = fgetc(fp)) != '\n' && c != EOF)
+        ;
+    }
   } while (line[0] == '%');
 
   /* Get size info */
   rows = cols = tmp_nz = 0;
-  parse_coordinate(line, rows, cols, tmp_nz);
+  if (!parse_coordinate(line, rows, cols, tmp_nz)) {
+    exit(1);
+  }
 
   /* Store in COO format */
   num = 0;
@@ -578,11 +589,17 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   while (num < tmp_nz && fgets(line, LINE_LENGTH_MAX, fp)) {
     if (!parse_coordinate(line, row_coo[num], col_coo[num], val_coo[num]))
       continue;
+    if (row_coo[num] < 1 || row_coo[num] > rows || col_coo[num] < 1 ||
+        col_coo[num] > cols) {
+      break;
+    }
     row_coo[num]--;
     col_coo[num]--;
     num++;
   }
-  tmp_nz = num;
+  if (num != tmp_nz) {
+    exit(1);
+  }
   fclose(fp);
 
   /* Count the number of non-zero in each row */
-- 
2.43.0


From bfe26bf6ad74d55c4ac9b95a9928dc75ef49393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:02 +0000
Subject: [PATCH 60/67] fix: emptying a matrix leaves it zero-based; heap and
 outer products always empty their output

---
 CSR.h               | 1 +
 heap_mult_generic.h | 2 +-
 outer_mult.h        | 5 +----
 outer_mult2.h       | 5 +----
 4 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/CSR.h b/CSR.h
index ff6f646..2a75d93 100644
--- a/CSR.h
+++ b/CSR.h
@@ -63,6 +63,7 @@ public:
     nnz = 0;
     rows = 0;
     cols = 0;
+    zerobased = true;
   }
 
   ~CSR() { make_empty(); }
diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index cb9a478..b4551b0 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -730,7 +730,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         numThreads = omp_get_num_threads();
     }
 
-    if (!C.isEmpty()) { C.make_empty(); }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
diff --git a/outer_mult.h b/outer_mult.h
index 5596023..aaddc09 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -341,10 +341,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (!C.isEmpty())
-    {
-        C.make_empty();
-    }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
diff --git a/outer_mult2.h b/outer_mult2.h
index 33a662a..c50c35f 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -346,10 +346,7 @@ double t1 = omp_get_wtime();
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (!C.isEmpty())
-    {
-        C.make_empty();
-    }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
-- 
2.43.0


From cbdf80c89ac8b48e430a3e39c2a6b661636426cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 61/67] fix: product samples printed ten values of the result
 even where it has fewer

---
 sample/HashSpGEMM.cpp       | 2 +-
 sample/MaskedHashSpGEMM.cpp | 2 +-
 sample/MaskedSPASpGEMM.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/HashSpGEMM.cpp b/sample/HashSpGEMM.cpp
index 676d562..b533d55 100644
--- a/sample/HashSpGEMM.cpp
+++ b/sample/HashSpGEMM.cpp
@@ -83,7 +83,7 @@ int main(int argc, char* argv[])
 
         /* First execution is excluded from evaluation */
         HashSpGEMM<sortOutput>(A_csr, B_csr, C_csr, multiplies<VALUETYPE>(), plus<VALUETYPE>(),tnum);
-        for (int i = 0; i < 10; ++i)
+        for (int i = 0; i < 10 && i < C_csr.nnz; ++i)
             cout << C_csr.values[i] << " ";
         cout << endl;
         C_csr.make_empty();
diff --git a/sample/MaskedHashSpGEMM.cpp b/sample/MaskedHashSpGEMM.cpp
index 1dff9ad..b12b70c 100644
--- a/sample/MaskedHashSpGEMM.cpp
+++ b/sample/MaskedHashSpGEMM.cpp
@@ -81,7 +81,7 @@ int main(int argc, char* argv[])
 
         /* First execution is excluded from evaluation */
         HashSpGEMM<sortOutput>(A_csr, B_csr, C_csr, multiplies<VALUETYPE>(), plus<VALUETYPE>(),tnum);
-        for (int i = 0; i < 10; ++i)
+        for (int i = 0; i < 10 && i < C_csr.nnz; ++i)
             cout << C_csr.values[i] << " ";
         cout << endl;
         C_csr.make_empty();
diff --git a/sample/MaskedSPASpGEMM.cpp b/sample/MaskedSPASpGEMM.cpp
index eb47202..2631154 100644
--- a/sample/MaskedSPASpGEMM.cpp
+++ b/sample/MaskedSPASpGEMM.cpp
@@ -88,7 +88,7 @@ int main(int argc, char* argv[])
         /* First execution is excluded from evaluation */
 
         HashSpGEMM<sortOutput>(A_csr, B_csr, C_csr, multiplies<VALUETYPE>(), plus<VALUETYPE>(), tnum);
-        for (int i = 0; i < 10; ++i)
+        for (int i = 0; i < 10 && i < C_csr.nnz; ++i)
             cout << C_csr.values[i] << " ";
         cout << endl;
         C_csr.make_empty();
-- 
2.43.0


From 6a4ea08a57b590ffbbd308f15360aa97d1ec401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 62/67] fix: GenMatrices walked the columns of the left matrix
 up to its number of rows

---
 sample/GenMatrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/GenMatrices.cpp b/sample/GenMatrices.cpp
index 963b2ff..9df12e5 100644
--- a/sample/GenMatrices.cpp
+++ b/sample/GenMatrices.cpp
@@ -49,7 +49,7 @@ int main(int argc, char* argv[])
     fd_left.open(std::string("assets/left_") + std::string(argv[2]) + std::string(argv[3]) + std::string("_") + std::string(argv[4]) + std::string(".mtx"));
     fd_left << "%%MatrixMarket matrix coordinate pattern general" << endl;
     fd_left << A_csc.rows << " " << A_csc.cols << " " << A_csc.nnz << endl;
-    for (int32_t i = 0; i < A_csc.rows; ++i)
+    for (int32_t i = 0; i < A_csc.cols; ++i)
         for (int32_t j = A_csc.colptr[i]; j < A_csc.colptr[i + 1]; ++j)
             fd_left << A_csc.rowids[j] + 1 << " " << i + 1 << std::endl;
     fd_left.close();
-- 
2.43.0


From c7ad7c94f5403ab35402c56b2f33a3cbd9442d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 63/67] fix: SplitTuples divided the rows by the number of
 columns, numbered rows of later pieces wrongly and failed on fewer rows than
 pieces

---
 SplitTuples.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SplitTuples.h b/SplitTuples.h
index e36029e..d2cb61f 100644
--- a/SplitTuples.h
+++ b/SplitTuples.h
@@ -45,7 +45,7 @@ SplitTuples<IT,NT>::SplitTuples(CSC<IT, NT> & A, int numsplits)
         for (IT j = A.colptr[i]; j < A.colptr[i+1]; ++j)
         {
             IT rowid = A.rowids[j];
-            IT owner = std::min(rowid / perpiece, static_cast<IT>(numsplits-1));
+            IT owner = perpiece == 0 ? numsplits - 1 : std::min(rowid / perpiece, static_cast<IT>(numsplits-1));
             splitTuples[owner].push_back(std::make_tuple(rowid, i, A.values[j]));
         }
     }
@@ -60,14 +60,14 @@ SplitTuples<IT,NT>::SplitTuples(CSR<IT, NT> & A, int numsplits)
     splits = numsplits;
     splitTuples.resize(numsplits);
 
-    IT perpiece = A.cols / splits;
+    IT perpiece = A.rows / splits;
     for (IT i=0; i < A.rows; ++i)
     {
-        IT owner = std::min(i / perpiece, static_cast<IT>(numsplits-1));
+        IT owner = perpiece == 0 ? numsplits - 1 : std::min(i / perpiece, static_cast<IT>(numsplits-1));
         for (IT j = A.rowptr[i]; j < A.rowptr[i+1]; ++j)
         {
             IT colid = A.colids[j];
-            splitTuples[owner].push_back(std::make_tuple(i % perpiece, colid, A.values[j]));
+            splitTuples[owner].push_back(std::make_tuple(i - owner * perpiece, colid, A.values[j]));
         }
     }
 }
-- 
2.43.0


From 539ef3359d1382b8dff8f0e7c76d85abe6670c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 64/67] fix: the lower half of a matrix with an odd number of
 rows has one row more

---
 sample/NUMA-aware.cpp         | 2 +-
 sample/ProfileOuterSpGEMM.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/NUMA-aware.cpp b/sample/NUMA-aware.cpp
index 5f232b9..a229db3 100644
--- a/sample/NUMA-aware.cpp
+++ b/sample/NUMA-aware.cpp
@@ -81,7 +81,7 @@ int main(int argc, char *argv[]) {
 
   auto obj = SplitTuples<INDEXTYPE, VALUETYPE>(A_csr, 2);
   auto left = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[0], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
-  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
+  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows - obj.rows / 2, obj.cols, plus<INDEXTYPE>());
   cout << "left non-zeros = " << obj.splitTuples[0].size() << endl;
   cout << "right non-zeros = " << obj.splitTuples[1].size() << endl;
   double start, end, msec, ave_msec, mflops;
diff --git a/sample/ProfileOuterSpGEMM.cpp b/sample/ProfileOuterSpGEMM.cpp
index b0c5ec5..a7edb31 100644
--- a/sample/ProfileOuterSpGEMM.cpp
+++ b/sample/ProfileOuterSpGEMM.cpp
@@ -85,7 +85,7 @@ CSR<INDEXTYPE, VALUETYPE> C_csr_left;
 CSR<INDEXTYPE, VALUETYPE> C_csr_right;
   auto obj = SplitTuples<INDEXTYPE, VALUETYPE>(A_csr, 2);
   auto left = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[0], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
-  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
+  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows - obj.rows / 2, obj.cols, plus<INDEXTYPE>());
     double start, end, msec, ave_msec, mflops;
     /* Count total number of floating-point operations */
     auto nfop = get_flop(left, B_csr);
-- 
2.43.0


From faedda06683b09cb3c328dc85a5438d02540838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 65/67] fix: outer products kept per-call data in file-scope
 variables, so that simultaneous calls disturbed each other

---
 outer_mult.h  | 15 ++++++---------
 outer_mult2.h |  9 ++-------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index aaddc09..5c4ca0b 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -17,10 +17,6 @@
 
 using namespace std;
 
-static uint32_t nrows_of_A;
-static uint32_t nrows_per_blocker;
-// static int *rows_to_blockers;
-// static int *flops_by_row_blockers;
 #define TBB true
 
 template <typename IT>
@@ -128,6 +124,8 @@ struct ExtractKey
 
 struct ExtractKey2
 {
+    uint32_t nrows_per_blocker;
+
     inline uint32_t operator()(tuple<int32_t, int32_t, double> tup)
     {
         // 32768 for S23
@@ -165,12 +163,12 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 }
 
 template <typename IT, typename NT>
-inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer, bool wide_keys)
+inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer, uint32_t nrows_per_blocker, bool wide_keys)
 {
     if (wide_keys)
         radix_sort(begin, end, buffer, ExtractKey());
     else
-        radix_sort(begin, end, buffer, ExtractKey2());
+        radix_sort(begin, end, buffer, ExtractKey2{nrows_per_blocker});
     // sort(begin, end, compareTuple<IT, NT>);
 }
 
@@ -220,8 +218,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     const uint16_t nthreads = omp_get_max_threads();
     uint16_t num_blockers = nblockers;
     const uint16_t block_width = nblockchars;
-    nrows_of_A = A.rows;
-	nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
+	const uint32_t nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
     // ExtractKey2 holds 12 bits of the row and 20 bits of the column
     const bool wide_keys = nrows_per_blocker > (1u << 12) || B.cols > (IT(1) << 20);
 
@@ -331,7 +328,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
             // uint16_t my_blocker_id = scheduling_order[row_blocker_id].second;
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer[thread_id], wide_keys);
+                        sorting_buffer[thread_id], nrows_per_blocker, wide_keys);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
diff --git a/outer_mult2.h b/outer_mult2.h
index c50c35f..df05d80 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -14,10 +14,6 @@
 
 using namespace std;
 
-static uint32_t ncols_of_A;
-static int *rows_to_blockers;
-static int *flops_by_row_blockers;
-
 #define GFX_TIMSORT_USE_STD_MOVE 1
 
 template <typename IT>
@@ -222,17 +218,16 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     uint16_t num_blockers = nblockers;
     const uint16_t block_width = nblockchars;
     omp_set_dynamic(0);
-    ncols_of_A = A.cols;
     // ExtractKey2 holds 16 bits of the row and 16 bits of the column
     const bool wide_keys = A.rows > (IT(1) << 15) || B.cols > (IT(1) << 16);
 
     IT total_flop = 0;
 
-    flops_by_row_blockers = my_malloc<IT>(num_blockers);
+    IT *flops_by_row_blockers = my_malloc<IT>(num_blockers);
     IT* flops_by_rows = my_malloc<IT>(A.rows);
     IT* nnz_by_row = my_malloc<IT>(A.rows);
     IT *thread_rows_offset = my_malloc<IT>(nthreads+1);
-    rows_to_blockers = my_malloc<IT>(A.rows, false);
+    IT *rows_to_blockers = my_malloc<IT>(A.rows, false);
     do_symbolic(A, B, 0, A.cols, num_blockers, flops_by_rows, rows_to_blockers, thread_rows_offset, flops_by_row_blockers, total_flop, nthreads);
 
     IT *global_blocker_counters = my_malloc<IT>(num_blockers);
-- 
2.43.0


From be05cc23adfa7357bf297fcfd789c5c4917ed349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 66/67] fix: a binary matrix file with an entry outside the
 matrix was accepted and written out of bounds

---
 IO.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/IO.h b/IO.h
index c161cc9..679f059 100644
--- a/IO.h
+++ b/IO.h
@@ -49,6 +49,18 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
         delete [] vals;
         return -1;
     }
+    for (IT i = 0; i < nnz; ++i)
+    {
+        if (rowindices[i] < 0 || rowindices[i] >= m || colindices[i] < 0 || colindices[i] >= n)
+        {
+            cerr << "Entry outside the matrix in binary input file " << filename << endl;
+            fclose(f);
+            delete [] rowindices;
+            delete [] colindices;
+            delete [] vals;
+            return -1;
+        }
+    }
     double end = omp_get_wtime( );
     // printf("start = %.16g\nend = %.16g\ndiff = %.16g\n", start, end, end - start);
     printf("Converting matrix data from binary to COO fromat takes %.16g seconds.\n", end - start);
-- 
2.43.0


From f1f933b36243e2e1cc3537377c598151dbb2a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 67/67] fix: SSCA2 graphs with cliques of one vertex consist of
 single vertices

---
 GTgraph/SSCA2/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 06ed56e..2d11c6b 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -45,7 +45,7 @@ void graphGen(graph* g)
 
   	/* Estimate number of clusters required to make up 
 	 * TotVertices and pad by 25% */
-	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize/2);
+	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize > 1 ? MaxCliqueSize/2 : 1);
 	
 	/* Allocate a block of memory for this cluster-size array */
 	clusterSizes = (LONG_T *) malloc(estTotClusters*sizeof(LONG_T));
-- 
2.43.0

