S = "spgemm-blocks/"
KTEST = "The tests multiply a handful of matrices with one semiring and compare against another kernel of the same repository on a few thread counts; "

prop("P01", "Masked products equal the masked semiring product",
     "For every compressed-row A, B and mask M of conforming shapes, every masked multiplication kernel of the building-block family (dense-accumulator, hash, mask-compressed, heap and adaptive variants, one- and two-phase) returns exactly the entries (i,j) that M stores and for which at least one k has A(i,k) and B(k,j) stored. Each value is the user's add folded over the user's multiply(A(i,k),B(k,j)), with no identity element assumed, explicit zeros kept and mask values ignored. Operands need ascending ids per row only for the kernels that document it (heap, mask-compressed, adaptive); the others accept any order.",
     ["inputs", "configurations"], "all conforming A, B, M (empty rows, hubs, colliding, huge or unsorted ids, 1xN, no entries), all index/value types, semirings, kernels, thread counts",
     KTEST + "masks, semirings and id patterns that stress collision chains, inspection thresholds and state reuse between rows are not sampled.",
     [S + "masked-spgemm.h", S + "masked-spgemm-poly.h", S + "common.h", S + "msa/MSAAlgorithm.h", S + "msa/MSAAlgorithm_old.h", S + "msa/MaskedSparseAccumulator1A.h", S + "msa/MaskedSparseAccumulator2A.h", S + "hash/HashAccumulator.h", S + "hash/MaskedHashAlgorithm.h", S + "mca/MCAAlgorithm.h", S + "mca/MaskCompressedAccumulator.h", S + "heap/Heap.h", S + "heap/MaskedHeapAlgorithm.h", S + "heap/MaskedHeapAlgorithmInspect.h"],
     [("per-row accumulators reset between rows", S + "msa, hash, mca"), ("heap merge with bounded inspection", S + "heap/MaskedHeapAlgorithm*.h"), ("one/two-phase drivers", S + "masked-spgemm.h")],
     ["returned matrix of MaskedSpGEMM1p / MaskedSpGEMM2p"],
     "runtime monitoring: online reference-model oracle over hostile seeded workloads", "Every returned matrix is compared entry by entry with a definition-level product; held on the executions reported in the evidence.",
     design="harness/kern.cpp, mode product, draws (A, B, M, semiring, team size) from 17 families and calls every registered kernel of harness/algs_main.cpp (7 groups: plain and complemented dense, hash, mask-compressed, heap with 4 inspection depths, adaptive; one- and two-phase); each result is compared entry by entry (ids in the promised order, values bit by bit) with a product evaluated from the definition with the same multiply and add. The semirings include ones without identity, without commutativity (max-first, plus-second) and one that mixes bits, so that a lost, doubled or swapped term shows. Two (thorough: four) index/value type pairs at -O1 and one at -O2. Special families: more than 131072 rows, rows of more than 65536 entries, ids near the largest index, thousands of operands per row for the inspection bounds. Cost 15-25 s for ~600 cases and ~30 kernels each.")

prop("P02", "Complemented-mask products keep exactly what the mask does not store",
     "With a complemented mask, the dense-accumulator, hash and heap kernels (one- and two-phase) return exactly the entries (i,j) that M does not store and for which some k has A(i,k) and B(k,j) stored, valued by the user's semiring. Rows whose mask is empty keep the whole product row, and variants that promise sorted output deliver strictly ascending columns.",
     ["inputs", "configurations"], "all conforming A, B, M including empty, full and partially empty masks; all kernels, semirings, types, thread counts",
     KTEST + "complemented kernels run on a few random masks only, never on rows without mask entries for the heap variant.",
     [S + "masked-spgemm.h", S + "msa/MSAAlgorithm.h", S + "msa/MaskedSparseAccumulator1A.h", S + "msa/MaskedSparseAccumulator2A.h", S + "hash/HashAccumulator.h", S + "hash/MaskedHashAlgorithm.h", S + "heap/MaskedHeapAlgorithm.h"],
     [("complement states in the accumulators", S + "msa, hash"), ("sorted gather", S + "msa/MSAAlgorithm.h, " + S + "hash/MaskedHashAlgorithm.h")],
     ["returned matrix of MaskedSpGEMM1p / MaskedSpGEMM2p with complement algorithms"],
     "runtime monitoring: online reference-model oracle over hostile seeded workloads", "Every returned matrix is compared entry by entry with a definition-level complemented product.",
     design="As P01 with the complemented kernels (mask empty, full, partially empty, unsorted where allowed); the oracle keeps what the mask does not store, and for the sorted variants also demands ascending ids.")

prop("P03", "Inner-product kernels equal the masked product for B stored by columns",
     "For every A and mask stored by rows and B stored by columns, all with ascending ids, the dot-product kernels (one- and two-phase, plain and inner-product drivers) return exactly the masked semiring product of A and B, in mask order. No identity for the user's add is assumed and a dot product without common index leaves no entry.",
     ["inputs", "configurations"], "all conforming operands, semirings (including min-plus and max-first), types and thread counts",
     KTEST + "dot products with a single common index at either end, empty columns, and semirings without identity are not sampled.",
     [S + "masked-spgemm-inner.h", S + "inner/InnerAlgorithm.h", S + "inner/MaskedInnerSpGEMM.h"],
     [("merge of an A row and a B column", S + "inner/InnerAlgorithm.h"), ("one/two-phase drivers over mask rows", S + "inner/MaskedInnerSpGEMM.h")],
     ["returned matrix of MaskedSpGEMM1p/2p<MaskedInner> and MaskedSpGEMM1p/2pInnerProduct"],
     "runtime monitoring: online reference-model oracle over hostile seeded workloads", "Every returned matrix is compared entry by entry with a definition-level product.",
     design="As P01 with the dot-product kernels of both drivers; B is handed over by columns, and the semirings without identity show an accumulator started from zero.")

prop("P04", "The stand-alone masked kernels equal the masked product",
     "For every operand and mask with ascending ids, the stand-alone masked kernels (sparse-accumulator, masked-hash with and without row binning, column-based dot product, and heap / mask-compressed row algorithms) return exactly the masked semiring product of A and B as a well-formed compressed matrix. The dot-product kernel needs an add whose identity is the zero value; the others assume no identity.",
     ["inputs", "configurations"], "all conforming operands, semirings, types, thread counts >= 1",
     KTEST + "the stand-alone kernels are covered by no test except the sample programs on one generated graph.",
     ["spa_mult.h", "SPA.h", "inner_mult.h", "mask_hash.h", "mask_hash_mult.h", "BIN.h", "heap_mult_generic.h", "HeapEntry.h"],
     [("row binning and per-thread hash tables", "BIN.h, mask_hash_mult.h"), ("row algorithms over a shared driver", "heap_mult_generic.h")],
     ["returned matrix of each kernel"],
     "runtime monitoring: online reference-model oracle over hostile seeded workloads", "Every returned matrix is compared entry by entry with a definition-level product.",
     design="As P01 with the stand-alone kernels, plus teams of 1-9 threads, operands shared between parameters, and a run under AddressSanitizer/UBSan.")

prop("P05", "Unmasked products and intersection equal their definitions",
     "For every A and B with ascending ids, the unmasked multiplication kernels (hash, row-wise heap and linear-probing heap, column-wise heap, outer product) return exactly the semiring product: an entry for each (i,j) reachable through a common index, valued by folding the user's add. The element-wise intersection of two matrices holds exactly the positions both store, combined by the user's operation.",
     ["inputs", "configurations"], "all conforming operands, types, thread counts; plus-times for the outer product",
     KTEST + "the unmasked kernels are exercised only by the sample programs on one generated graph.",
     ["hash_mult_hw.h", "BIN.h", "heap_mult.h", "heap_mult_generic.h", "outer_mult.h", "outer_mult2.h", "CSR.h", "CSC.h", "multiply.h"],
     [("symbolic then numeric phase", "hash_mult_hw.h"), ("heap merges", "heap_mult.h, heap_mult_generic.h"), ("blocked tuple sort and merge", "outer_mult.h, outer_mult2.h"), ("intersection", "CSR.h, CSC.h")],
     ["returned matrix of each kernel"],
     "runtime monitoring: online reference-model oracle over hostile seeded workloads", "Every returned matrix is compared entry by entry with a definition-level product.",
     design="As P01 without mask for the hash, heap and outer-product kernels (the outer ones with ids that agree in their low 12, 15, 16 and 20 bits, up to 140000 rows and 5 million columns, four type pairs, 1-64 blocks of 1-512 tuples); harness/intersect.cpp compares Intersect of both containers with the definition under AddressSanitizer.")

prop("P06", "Every product is a well-formed matrix that can be used again",
     "Whatever the building-block kernels return is a valid compressed matrix: dimensions rows(A) x cols(B), offsets that start at zero, never decrease and end at the entry count, column ids in range and unique per row, and ascending columns whenever the kernel's output order is promised (mask order for plain masks with a sorted mask, sorted variants and heaps always). Feeding results back as operand or mask of further products, in any chain, again gives exactly the defined result.",
     ["histories", "inputs"], "all sequences of products whose operands and masks come from earlier results",
     "The tests check single products; chains with results as masks and operands, where a malformed but value-equal result would do damage, are not exercised.",
     [S + "masked-spgemm.h", S + "common.h", S + "masked-spgemm-inner.h", "CSR.h"],
     [("offset construction by scan", S + "common.h, " + S + "scan.h"), ("gather in mask order / sorted gather", S + "msa, hash, mca, heap, inner")],
     ["CSR fields of every intermediate result"],
     "runtime monitoring: structural invariants checked after every step of random product chains", "Structure and values are checked after each of the observed steps.",
     design="harness/kern.cpp, mode chain: up to six matrices, each step multiplies any of them with any kernel and mask into a new or an old object; after every step the invariants of the result are checked on its arrays, and its values against the definition applied to the model of the operands. ~5000 chains.")

prop("P07", "Products never change their inputs and may overwrite an operand",
     "A building-block product leaves every operand and the mask bit-for-bit unchanged unless the caller passes the same object as output; operands and mask may share one object. When the output object is A, B, M or holds an older result of any shape, its old content is released and replaced by exactly the product of the values the operands held at the call, and repeating the call into the same output gives the same result.",
     ["inputs", "histories", "configurations"], "all sharing patterns of output, operands and mask; all earlier contents of the output; all kernels and thread counts",
     "One test covers output aliasing for a few kernels and one pattern on one matrix size.",
     [S + "masked-spgemm.h", S + "masked-spgemm-poly.h", S + "masked-spgemm-inner.h", S + "inner/MaskedInnerSpGEMM.h", "CSR.h"],
     [("result assembled aside, output emptied last", S + "masked-spgemm.h, " + S + "inner/MaskedInnerSpGEMM.h"), ("move into the output", "CSR.h")],
     ["CSR fields of all parameters before and after the call"],
     "runtime monitoring: before/after state monitor plus reference oracle", "Nine sharing patterns for every kernel on seeded operands.",
     design="harness/kern.cpp, mode alias: nine sharing patterns of (C, A, B, M) for every kernel, outputs with old contents of other shapes, one-based leftovers, repetition into the same object; all operands are compared with copies taken before, array by array.")

prop("P08", "Results do not depend on thread count or schedule",
     "A building-block product returns the same matrix (same offsets, same entries and, for order-independent arithmetic, same values) for every number of threads from one to more than there are rows, however the threads interleave and on every repetition.",
     ["schedules", "configurations", "inputs"], "all team sizes and interleavings at synchronisation points, all kernels",
     "Tests run each kernel under whatever schedule the machine happens to produce, on a few team sizes.",
     [S + "masked-spgemm.h", S + "masked-spgemm-inner.h", S + "inner/MaskedInnerSpGEMM.h", S + "masked-spgemm-poly.h", S + "common.h", S + "scan.h"],
     [("row ranges per thread", S + "common.h"), ("barriers between phases", S + "masked-spgemm.h"), ("block scan with two barriers", S + "scan.h")],
     ["returned matrices under a seeded scheduler that runs team members one at a time or delays them"],
     "runtime monitoring: schedule-controlling OpenMP runtime with a reference oracle", "Distinct synchronisation orders are counted; the oracle checks each run.",
     design="harness/kern.cpp, mode threads: every case with team sizes 1 to more than the rows, natively and on the OpenMP stand-in (ompshim) that either delays team members or runs one at a time in a seeded order, switching at synchronisation points; results are compared with the definition and hence with each other. Distinct synchronisation orders are counted in the evidence.")

prop("P09", "Parallel products and scans have no data race",
     "No two threads of a parallel product (building-block or stand-alone kernel), prefix sum, matrix construction, sort or sum access the same memory location without a happens-before edge, at least one of them writing, for any input, team size and schedule.",
     ["schedules", "inputs", "configurations"], "all inputs, team sizes and interleavings of the kernels, prefix sums and parallel container operations",
     "The tests are not run under a race detector, and libgomp's own synchronisation hides or fakes races for one.",
     [S + "masked-spgemm.h", S + "masked-spgemm-inner.h", S + "inner/MaskedInnerSpGEMM.h", S + "masked-spgemm-poly.h", S + "common.h", S + "scan.h", "mask_hash_mult.h", "hash_mult_hw.h", "heap_mult.h", "heap_mult_generic.h", "spa_mult.h", "inner_mult.h", "outer_mult.h", "outer_mult2.h", "BIN.h", "CSR.h", "CSC.h", "utility.h"],
     [("thread-private accumulators, disjoint row ranges", S + "masked-spgemm.h"), ("barriers / master sections", S + "common.h, " + S + "scan.h")],
     ["every memory access, by ThreadSanitizer"],
     "ThreadSanitizer on a pthread OpenMP runtime with seeded delays", "Races are decided by happens-before over the recorded executions.",
     design="The kernels, prefix sums, container operations and outer products are compiled with ThreadSanitizer and linked with ompshim, whose barriers, locks and joins ThreadSanitizer sees, so that a report is a race and its absence is not hidden by libgomp. Team sizes 2-9, free, delayed and serialised schedules; one run with more than 131072 rows for the parallel prefix sum. Reductions and atomics of the compiler are instrumented as such.")

prop("P10", "Multiplication kernels are memory-safe, UB-free and leak-free",
     "For every valid input, the masked and unmasked multiplication kernels and the compressed-matrix containers they use never read or write outside live objects, never read uninitialised memory into a result, execute no undefined operation, free with the matching deallocator and release everything they allocated, including older content of an output object.",
     ["inputs", "configurations", "histories"], "all valid operands (empty, degenerate, huge ids), all kernels, team sizes and reuse patterns",
     "The tests run without sanitizers; overflow by one element, leaks and misaligned accesses pass them.",
     [S + "masked-spgemm.h", S + "common.h", S + "util.h", S + "hash/HashAccumulator.h", S + "heap/MaskedHeapAlgorithm.h", S + "mca/MCAAlgorithm.h", S + "inner/MaskedInnerSpGEMM.h", "CSR.h", "CSC.h", "heap_mult.h", "heap_mult_generic.h", "mask_hash_mult.h", "hash_mult_hw.h", "spa_mult.h", "SPA.h", "inner_mult.h"],
     [("sizing of scratch arrays from flops and mask bounds", S + "util.h, *_mult*.h"), ("ownership of compressed arrays", "CSR.h, CSC.h")],
     ["every memory access and allocation, by the sanitizers"],
     "AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer (+ memcheck for uninitialised reads)", "Decides the executions reached by the workloads of P01-P07.",
     design="Every kernel under AddressSanitizer, UBSan and LeakSanitizer in modes product, alias, chain and threads, with arrays of exactly the needed size; values of freed or fresh memory are perturbed (MALLOC_PERTURB_, ASan fill) and every result is compared with the definition, so that a read of uninitialised memory that matters shows. Allocation counters judge leaks where LeakSanitizer cannot run.")

prop("P11", "Accumulators and row algorithms keep no state between rows",
     "Each accumulator (hash, dense, heap) behaves as the set or map it stands for over any history of insert, find, erase, accumulate, gather and reset, and after a row is finished it is indistinguishable from a fresh one. A row algorithm therefore yields the defined row, and its symbolic phase the exact row size, for rows in any order and any number of times, including when the numeric phase inherits the buffer of the symbolic phase with the declared number of dirty bytes. It writes no more entries than the bound the drivers allocate for.",
     ["histories", "inputs", "configurations"], "all operation histories within capacity, key patterns, buffer hand-overs and row orders",
     "Two unit tests insert and read back a handful of keys; resets, wrap-around erasure and hand-over between phases show only in histories.",
     [S + "hash/HashAccumulator.h", S + "hash/MaskedHashAlgorithm.h", S + "msa/MaskedSparseAccumulator1A.h", S + "msa/MaskedSparseAccumulator2A.h", S + "msa/MSAAlgorithm.h", S + "heap/Heap.h", S + "heap/MaskedHeapAlgorithm.h", S + "heap/MaskedHeapAlgorithmInspect.h", S + "mca/MCAAlgorithm.h", S + "mca/MaskCompressedAccumulator.h"],
     [("open addressing with backward-shift erase", S + "hash/HashAccumulator.h"), ("state arrays and lists", S + "msa"), ("dirty-byte accounting", S + "util.h")],
     ["return values and content after each operation", "rows produced from random row orders"],
     "runtime monitoring: model-based history checking under AddressSanitizer/UBSan", "Every operation's result is compared with a set/map model.",
     design="harness/accum.cpp drives the real accumulators through seeded histories (keys chosen to collide, wrap and sit next to the empty marker) and row algorithms through random row orders; std::set/std::map models decide each answer. The ASan build uses exact-size buffers, so a write past the driver's bound is seen. Bounds: capacity <= 3000, 12 rows per phase, 400 row calls. Cost ~15 s.")

prop("P12", "Prefix sums and work partitioning are exact and complete",
     "Every sequential, parallel and in-team prefix sum yields the defined sums for any size (including 0, fewer elements than threads and the sequential/parallel switch), without changing its input or touching memory outside it. Per-row work, totals and result-size bounds equal their definitions, and for every team size the row ranges handed to threads are consecutive, cover each row exactly once and exceed the fair share by at most about one row's work. Hash-table bins are the smallest that hold a row.",
     ["inputs", "configurations", "schedules"], "all sizes, values, index types, team sizes; all operands",
     "The scan test uses one size and two team sizes; estimates and partitions are untested.",
     ["utility.h", S + "scan.h", S + "common.h", "BIN.h"],
     [("two-barrier block scan", S + "scan.h, utility.h"), ("lower_bound on cumulative work", S + "common.h, BIN.h")],
     ["scan output", "ranges per thread", "bounds per thread", "bin of every row"],
     "runtime monitoring: definition-level oracle under ASan/UBSan and a schedule-controlling OpenMP runtime", "Compared element by element.",
     design="harness/scans.cpp compares scans with a running sum, estimates with sums over the operands, and checks that the ranges of all threads tile [0,rows) with bounded excess (2x fair share + heaviest row, so any sensible balancing passes). Exact-size heap arrays under ASan decide out-of-bounds accesses; the shim build runs the in-team scans in seeded orders. Sizes around 2^17 exercise both code paths.")

prop("P13", "Scratch memory is aligned, disjoint and clean where promised",
     "An aligned allocation of any size and alignment is aligned as asked, disjoint from every live block, and freeable, also from several threads. When a scratch buffer with a given number of dirty bytes is split into a dirty and a clean part, both parts lie inside the buffer, are aligned and disjoint, every byte of the clean part carries the clean pattern, and the returned bound separates exactly bytes that may be dirty from bytes that are still clean. No byte outside the buffer, nor one the owner of the dirty part may rely on, is touched.",
     ["inputs", "histories", "schedules"], "all sizes, alignments, element sizes and dirty-byte histories a kernel can produce",
     "Tests check three alignments; whether a buffer handed from row to row is really clean depends on the history.",
     [S + "util.h"], [("header stored in front of the block", S + "util.h"), ("cleaning only the overlap of the clean part with the dirty prefix", S + "util.h")],
     ["addresses, content of the whole buffer before and after"],
     "runtime monitoring: byte-level shadow model under AddressSanitizer/UBSan", "Every byte of buffer and margins is compared.",
     design="harness/memsplit.cpp keeps a pattern in every live block and a byte image of each scratch buffer with guard margins; nine element-size pairs, both split forms, up to 4 hand-overs of one buffer, teams of 4 for allocation. The real splitMemory/getCleanMemory/mallocAligned decide; the model is the definition. Cost ~10 s (22 000 histories).")

prop("P14", "Compressed matrices behave as independent values",
     "Copying, assigning (also to itself), emptying, comparing, shuffling, sorting and re-basing compressed row and column matrices act exactly as on the matrix they stand for: copies are deep and equal, later changes to one object never show in another, reordering preserves every line's entries, and equality and sums are exact. Building a matrix from triples, tuples, arrays, edge pairs or a generated graph, merging duplicates and converting between column and row form yield precisely the described entries, in the defined order, for any shape including no rows, no columns and no entries.",
     ["inputs", "histories", "configurations"], "all matrices, operation histories, index/value types and team sizes",
     "Tests build two matrices; aliasing, emptiness and stale arrays need histories.",
     ["CSR.h", "CSC.h", "Triple.h", "utility.h"],
     [("copy constructors, assignment, make_empty", "CSR.h, CSC.h"), ("counting-sort construction, MergeDuplicates", "CSC.h"), ("conversion CSC to CSR", "CSR.h"), ("graph constructors", "CSR.h, CSC.h")],
     ["complete content of every object after every operation"],
     "runtime monitoring: model-based history checking under AddressSanitizer/UBSan/LeakSanitizer", "Four live objects are compared with their models after every step.",
     design="harness/cont.cpp: histories of 12 operations over four CSR (or CSC) objects, five index/value type pairs, matrices incl. 0 rows/columns; constructors against a sorted-list model (5 forms, duplicates, 3 merge operations); CSC->CSR and transpose; graph->CSR/CSC. libstdc++ assertions on in the ASan build. Bounds: <= 500 lines, <= 2000 triples. Cost ~25 s.")

prop("P15", "Matrix files are read exactly, unusable files are reported",
     "Reading a coordinate text file (general or symmetric; pattern, integer or real) or a binary file yields a matrix of the declared shape holding precisely the listed entries with their values in the matrix's value type, the mirrored entries for a symmetric file, and no diagonal when its removal is asked for, whatever white space separates the words. A file that is absent, ends early, lacks its size or a column, or names a position outside the matrix is reported (return value, or exit status 1 of the constructor). No reader touches memory outside its buffers or keeps memory.",
     ["inputs", "fault_sequences"], "all well-formed files; absent, truncated and inconsistent files",
     "No test reads a file; truncated values, mirrored diagonals and short files corrupt results or memory silently.",
     ["IO.h", "CSR.h", "grb_util.h", "utility.h", "sample/sample_common.hpp"],
     [("parsing of banner, size and entries", "IO.h, CSR.h"), ("symmetric expansion and diagonal removal", "IO.h")],
     ["the complete matrix or triples, return codes, allocations"],
     "runtime monitoring: generated files against a definition-level oracle under AddressSanitizer/UBSan/LeakSanitizer", "Every entry of every file is compared.",
     design="harness/io.cpp writes seeded files (free spacing, CRLF, missing final newline, comments, duplicates, comments of any length and wording, 5 kinds of fault) into the run directory, reads them through ReadASCII, ReadASCII_Triples, ReadBinary and CSR(filename) (in a child process when the file is unusable) in five type pairs and compares multisets of entries bit for bit. Bounds: <= 60 lines/columns, <= 2000 entries. Cost ~14 s for 30 000 files.")

prop("P16", "Exchange with GraphBLAS is lossless",
     "Handing a compressed row or column matrix to GraphBLAS (by copy, pack or import) and taking one back (by unpack, export or duplication) preserves shape, positions and values for every value type, any number of times, with ownership moving exactly as documented: packed arrays are given up, unpacked matrices keep their shape but no entries, duplicated originals stay intact. The GraphBLAS utilities do what they are named for: reading a file with optional symmetrisation and diagonal removal, relabelling vertices by non-increasing degree, extracting the strictly lower triangle, converting to column storage, and keeping a matrix from being iso-valued without changing it. Nothing is leaked or freed twice.",
     ["inputs", "histories", "configurations"], "all shapes incl. non-square and empty, six value types, repeated round trips",
     "No test exchanges a matrix; sizes of square matrices hide mixed-up dimensions, leaks are invisible.",
     ["CSR.h", "CSC.h", "grb_util.h", "IO.h"],
     [("pack/unpack/import/export wrappers", "CSR.h, CSC.h"), ("typed builders and utilities", "grb_util.h")],
     ["tuples extracted from GraphBLAS", "arrays after the exchange", "allocations"],
     "runtime monitoring: round-trip and definition-level oracle under AddressSanitizer/UBSan/LeakSanitizer", "The oracle reads matrices back with its own typed GraphBLAS calls.",
     design="harness/grb.cpp performs 14 kinds of exchange and utility calls on seeded matrices (<= 50x50, six value types, iso-valued ones included) and compares tuples bit for bit; sort_by_degree is decided by reconstructing the vertex bijection from values that name the entries. LeakSanitizer sees GraphBLAS objects too (GrB_finalize is called first). Cost ~15 s for 15 000 exchanges.")

prop("P17", "Triangle counting is exact with every kernel",
     "For any graph file (directed, symmetric, with self loops or repeated edges) and any number of threads, the triangle-counting application reports exactly the number of triangles of the underlying simple undirected graph, whichever masked kernel it uses, in one-phase and two-phase form and over repeated iterations. All kernels agree on the number of entries and on the product's checksum. Graphs without edges or without triangles give zero rather than an error.",
     ["inputs", "configurations", "schedules"], "all graphs, kernels, phases, thread counts, iteration counts",
     "No test runs the application; relabelling by degree, the strict lower triangle and the plus-pair semiring are only exercised together here.",
     ["benchmarks/TriCntAll.cpp", "benchmarks/TriCntAllGrb.cpp", S + "inner/MaskedInnerSpGEMM.h", S + "MaskedSpGEMM1p.h", S + "MaskedSpGEMM2p.h", "CSC.h", "CSR.h", "mask_hash.h"],
     [("degree relabelling and lower triangle", "benchmarks/TriCntAll.cpp"), ("masked products", S + "MaskedSpGEMM1p.h")],
     ["reported count, entries and checksum of each kernel run"],
     "runtime monitoring: the application under generated graphs against a definition-level oracle, plain and under AddressSanitizer/UBSan", "The oracle counts triangles by set intersection.",
     design="vlib/drivers.py writes seeded Matrix Market graphs (14 families, up to 400 vertices), runs the application in eight modes with 1-8 threads and judges each LOG line. The driver built on the GraphBLAS handles (benchmarks/TriCntAllGrb.cpp, not part of the default build) runs through a small adapter header on ~70 more graphs, several thread counts per run. Cost ~16 s for ~200 graphs and ~3600 kernel runs.")

prop("P18", "The k-truss is exact with every kernel",
     "For any graph file, any k of at least 3 and any list of thread counts, the k-truss application ends with exactly the edges of the k-truss of the simple undirected graph, in the number of rounds the definition needs, whichever masked kernel computes the supports. Every kernel sees the same sequence of shrinking graphs, including graphs that become empty, and earlier runs in the same process do not influence later ones.",
     ["inputs", "configurations", "histories"], "all graphs, k, kernels, thread counts",
     "No test runs the application; it is the only place where each product's mask and operands are the previous product's output, filtered in place.",
     ["benchmarks/KTrussAllGrb.cpp", "grb_util.h", "CSR.h", S + "MaskedSpGEMM1p.h", S + "MaskedSpGEMM2p.h"],
     [("support computation and pruning loop", "benchmarks/KTrussAllGrb.cpp"), ("conversion from and to GraphBLAS", "CSR.h, CSC.h")],
     ["reported size of the truss and number of rounds of each kernel run"],
     "runtime monitoring: the application under generated graphs against a definition-level oracle, plain and under AddressSanitizer/UBSan", "The oracle peels edges round by round.",
     design="vlib/drivers.py: same graph families with k in 3..8, four modes, one or two thread counts per process; each LOG line is judged. Cost ~13 s for ~125 graphs and ~2700 kernel runs.")

prop("P19", "Betweenness dependencies are right with every kernel",
     "For any directed graph and any batch of sources, the betweenness application accumulates the dependencies defined by shortest-path counting, whichever masked kernel performs the forward (complement-masked) and backward (masked) sweeps. Unreachable vertices, self loops, repeated edges and graphs without edges are handled, and runs with different thread counts in one process give the same sums up to rounding.",
     ["inputs", "configurations", "histories"], "all graphs, batches, kernels, thread counts",
     "No test runs the application; complement masks grow from sweep to sweep, a history no single product shows.",
     ["benchmarks/BCAllGrb.cpp", "grb_util.h", "CSR.h", S + "MaskedSpGEMM1p.h"],
     [("forward and backward sweeps", "benchmarks/BCAllGrb.cpp")],
     ["reported sum of dependencies of each kernel run"],
     "runtime monitoring: the application under generated graphs against Brandes' definition, plain and under AddressSanitizer/UBSan", "All-source batches are compared with the definition, partial batches with each other.",
     design="vlib/drivers.py: seeded graphs up to 90 vertices; for all-source batches the oracle runs Brandes' algorithm with exact path counts; for partial batches (random sources) kernels must agree. Tolerance covers single-precision sums only. Cost ~9 s for ~125 graphs and ~1200 kernel runs.")

prop("P20", "The comparison drivers report the defined product for every kernel",
     "Given any three conforming matrices, the masked comparison driver reports for each kernel the entry count and checksum of the masked product; given any square matrix, the complement-masked driver reports those of the product under the complement of the mask. The reports are the same for every thread count, phase and number of repetitions, so a kernel that loses, duplicates, reorders or alters an entry cannot report the right line.",
     ["inputs", "configurations"], "all conforming operands, kernels, thread counts, repetitions",
     "The drivers are the documented way to compare kernels and have no test of their own.",
     ["benchmarks/MaskedAllSpGEMM.cpp", "benchmarks/ComplementMaskedSpGEMM.cpp", "IO.h", "CSR.h", S + "MaskedSpGEMM1p.h", S + "MaskedSpGEMM2p.h"],
     [("run/report loop and checksum", "benchmarks"), ("kernels", S)],
     ["entry count, sum and checksum of each kernel run"],
     "runtime monitoring: the drivers under generated operands against a definition-level oracle, plain and under AddressSanitizer/UBSan", "The oracle multiplies with exact integers and applies the drivers' checksum.",
     design="vlib/drivers.py: seeded rectangular operands in seven shapes (up to 120 lines); checksums of positions and values are recomputed from the definition. Operands hold no explicit zeros, because the sign of a zero sum depends on the order of terms. Cost ~8 s for ~145 inputs and ~1700 kernel runs.")

prop("P21", "The sorting routines sort, permute and keep order where promised",
     "Every sorting routine the kernels and samples rely on (radix sort, pdqsort, vergesort, the two timsorts, key-value merge sort) leaves an ordered permutation of its input for any size, key pattern, element type and strict weak order; the stable ones keep equal elements in order, and radix sort returns the buffer that holds the result. Elements are never lost, duplicated or used after being moved from, memory outside the range is untouched, and the comparison sorts with a worst-case guarantee need a number of comparisons within a constant of n log n.",
     ["inputs", "configurations"], "all arrays, comparators, element types",
     "The vendored tests sample a few patterns; merge galloping, run detection and pattern-defeating paths depend on fine structure of the input.",
     ["radix_sort/radix_sort.hpp", "pdqsort/pdqsort.h", "vergesort/vergesort.h", "vergesort/include/vergesort/vergesort.h", "cpp-TimSort/include/gfx/timsort.hpp", "timsort-cpp/include/tim/timsort.h", "utility.h"],
     [("digit passes", "radix_sort"), ("partition, pattern breaking", "pdqsort"), ("run merging", "vergesort, cpp-TimSort, timsort-cpp"), ("merge of keys and values", "utility.h")],
     ["content after sorting, comparator calls, element constructions and moves, margins"],
     "runtime monitoring: instrumented elements and comparators, adversarial comparator, AddressSanitizer/UBSan", "Elements know whether they were moved from; comparators count.",
     design="harness/sort.cpp: 16 key patterns incl. run structures that trigger galloping, sizes up to thousands, move-only and instrumented elements, an adversary comparator (McIlroy) for the worst case, lists for vergesort; every result compared with std::stable_sort or a multiset. Cost ~16 s for 48 000 arrays.")

prop("P23", "The parallel R-MAT generator delivers exactly the graph that was asked for",
     "For any number of edges, vertices, worker threads, part capacity and quadrant probabilities, the parallel R-MAT generator returns or writes exactly the requested number of edges, all inside the vertex range, without self loops or duplicates when these are excluded, smaller vertex first when undirected, and ordered by source when sorted; dividing the work never loses, repeats or biases edges beyond its documented noise. Sources and destinations fall into the halves of the vertex range with the probabilities given by a, b and c, for every way the work is divided. Generation ends under every schedule and is free of data races.",
     ["inputs", "configurations", "schedules"], "all sizes, probabilities, options, thread counts, capacities and thread schedules",
     "No test generates a graph; losses depend on the number of parts against the number of threads and on the order in which workers finish.",
     ["PaRMAT/src/GraphGen_notSorted.cpp", "PaRMAT/src/GraphGen_sorted.cpp", "PaRMAT/src/Square.cpp", "PaRMAT/src/utils.cpp", "PaRMAT/src/PaRMAT.cpp"],
     [("division into parts", "PaRMAT/src/utils.cpp, Square.cpp"), ("worker pools and writers", "PaRMAT/src/GraphGen_*.cpp")],
     ["edges returned or written", "order of synchronisation points", "reports of the sanitizers"],
     "runtime monitoring: property oracle on generated graphs under schedule injection, ThreadSanitizer, AddressSanitizer/UBSan", "Device randomness and the clock are replaced by seeded streams.",
     design="harness/parmat.cpp draws (edges, vertices, probabilities, threads 1-16, capacity, options), calls the three generators and judges every edge; marginal shares of halves and quarters are compared with a tolerance of six standard deviations plus the generator's own noise. All is repeated with the other compile-time configuration (futures, mutex-controlled writing) and, as a black box, with the PaRMAT program. Precondition: each part is sparse enough for its options to be satisfiable (the program forces one worker on small graphs for the same reason); asking for more distinct edges than exist never ends and is not generated. Cost ~18 s for 8000 graphs.")

prop("P24", "The concurrent queue and capacity gate are linearizable and lose no wake-up",
     "Under every schedule of any number of producers and consumers, elements leave the queue exactly once, undamaged, in an order consistent with the order in which they were pushed, a try that finds nothing had an instant at which the queue may have been empty, and a waiting consumer is woken whenever an element is there for it. The capacity gate admits requests exactly while the sum of what is held stays within the capacity, up to and including the whole capacity, and every request that can be admitted is admitted eventually. Queues of any length can be destroyed and nothing is leaked.",
     ["schedules", "histories"], "all interleavings of producers, consumers and releases; all queue lengths",
     "No test touches them; a lost wake-up needs a notification between a consumer's check and its wait.",
     ["PaRMAT/src/threadsafe_queue.hpp", "PaRMAT/src/capacity_controller.hpp"],
     [("push, try_pop, wait_and_pop, empty", "PaRMAT/src/threadsafe_queue.hpp"), ("accumulate, dissipate", "PaRMAT/src/capacity_controller.hpp")],
     ["start and end of every operation with its element", "amount held at every grant", "progress"],
     "runtime monitoring: offline history checker (exactly-once, FIFO order, legal emptiness) and progress monitor under seeded delays at every lock, wait and notification; ThreadSanitizer, AddressSanitizer", "Delays are injected by wrapping the synchronisation entry points at link time.",
     design="harness/queue.cpp: sequential histories against a deque, concurrent histories of 2-8 threads with logical timestamps judged for conservation, real-time order and false emptiness, destruction of queues with 200 000+ elements, and gates whose requests include the whole capacity. harness/sched.cpp injects yields or delays up to 200 us around locks, waits and notifications; distinct orders of synchronisation points are counted. A run counts as hung when no operation completes for 30 s. Cost ~23 s for 5800 histories.")

prop("P22", "The serial graph generators produce the graph their parameters describe",
     "For any parameters and any random stream, the R-MAT and G(n,m) generators give exactly the requested number of edges and G(n,p) each ordered pair at most once with the given probability; all endpoints lie inside the vertex range, weights in their interval, self loops only when allowed, and the quadrant or uniform probabilities are met; the SSCA2 generator gives clusters that are cliques no larger than the maximum, with the requested share of one-way pairs, at most the maximum of parallel edges and no more edges between clusters than their probability allows. The same parameters give the same graph, whether it is held in memory, written from memory, written directly, or sorted by either method, and a written file and log state what was generated. Command line and configuration files set what they name, in any order.",
     ["inputs", "configurations"], "all sizes, probabilities, options, random streams and configuration files",
     "No test runs them; overflows of estimated sizes need rare random streams, and the options interact.",
     ["GTgraph/R-MAT/graph.c", "GTgraph/random/graph.c", "GTgraph/SSCA2/graph.c", "GTgraph/R-MAT/utils.c", "GTgraph/R-MAT/init.c", "GTgraph/SSCA2/init.c", "GTgraph/random/init.c"],
     [("graphGen", "GTgraph/*/graph.c"), ("countingSort, heapSort, writeToFile", "GTgraph/*/utils.c"), ("parseUserInput, getParamsFromFile", "GTgraph/*/init.c")],
     ["edges in memory and in files", "log file", "draws made", "reports of the sanitizers"],
     "runtime monitoring: property and metamorphic oracle on generated graphs under adversarial random streams, AddressSanitizer/UBSan; black-box runs of the programs", "The random stream is substituted at link time; the real one is used in a quarter of the cases.",
     design="harness/gtgraph.cpp is linked once with each generator's sources; init_rng, get_rn_dbl and get_rn_int are wrapped to give the library's stream, a uniform one, one with extreme values, or a skewed one (the last two reach the estimates that fixed-size arrays relied on). Every graph is generated five or six times (plain, again, counting-sorted, heap-sorted, written from memory, written directly) and all forms are compared; SSCA2 graphs without inter-clique edges are decomposed into components, each of which must be a clique. Shares are compared with a tolerance of six standard deviations. The programs are run with AddressSanitizer on random command lines and configuration files, judged from the file they write. Extreme draws stay below 1-2^-32, as a draw of 1-2^-53 rounds to the excluded end of an interval.")

prop("P25", "Transposing keeps every entry, and triple lists lose only duplicates",
     "For any compressed matrix, including empty ones, ones with empty rows and ones with repeated entries in any order, transposing by any number of threads under any schedule yields exactly the entries of the input with the roles of rows and columns exchanged, and transposing again yields the input back up to the order inside a row. Removing duplicates from a list of triples keeps exactly one triple of every place, with a value one of them had, in row-major order; random triples are distinct, ordered and inside the matrix. Nothing outside the arrays is read or written and no data race occurs.",
     ["inputs", "schedules"], "all matrices, triple lists, thread counts and schedules",
     "The transposition has no test and its only other caller is a benchmark; the one for triples prints without judging.",
     ["util/transpose.h", "util/triple-util.h", "Triple.h"],
     [("csr2csc_atomic_nosort", "util/transpose.h"), ("removeDuplicates, generateRandomTriples", "util/triple-util.h")],
     ["contents of the output by line", "contents of the input afterwards", "reports of the sanitizers", "order of synchronisation points"],
     "runtime monitoring: definition and round-trip oracle under AddressSanitizer/UBSan, ThreadSanitizer and controlled thread schedules", "",
     design="harness/trans.cpp draws matrices (0-3000 rows and columns, five shapes, repeated entries) in exactly sized arrays, transposes twice with 1-12 threads (native, or under the OpenMP stand-in with seeded orders and delays) and compares line by line as multisets. Triple lists are compared with a map from place to the values seen there.")

prop("P26", "Extracted submatrices hold exactly the selected rows and columns",
     "For any CSC matrix and any ascending lists of rows and columns (with repetitions where the routine allows them, empty, or complete), each of the three extraction routines returns the matrix A(rows, columns) with one row and column per list element, numbered by position, and refuses lists that leave the matrix; the operand is unchanged. Bit maps answer membership and next-member queries like a set through any history of setting, resetting, copying and assigning, at every size and position. Nothing outside their memory is touched and nothing is leaked.",
     ["inputs", "histories"], "all matrices, selections and histories of bit map operations",
     "No test extracts anything; errors show only on particular overlaps of lists, offsets and word boundaries.",
     ["CSC.h", "BitMap.h"],
     [("SpRef, SpRef1, SpRef2, intersect", "CSC.h"), ("set_bit, get_bit, get_next_bit, copying", "BitMap.h")],
     ["contents of results and operands", "termination signal of refused calls", "reports of the sanitizers"],
     "runtime monitoring: definition oracle and model-based histories under AddressSanitizer, LeakSanitizer and UBSan", "",
     design="harness/spref.cpp evaluates A(rows, columns) from a map of entries for the three routines and three type pairs; refused calls run in a forked child that must abort. Bit maps follow a std::set through 1-60 operations on three maps (positions biased to word boundaries), with full enumeration at the end, and one map of more than 2^32 bits.")

prop("P27", "Random streams are reproducible, distinct and independent of each other",
     "For any of the five generators, any seed, parameter and history of making, drawing from, spawning, packing, unpacking and freeing streams, each stream gives exactly the numbers it gives alone, in any form of drawing, and the first 1600 numbers published with the library for its reference seed. Streams with different numbers, and all descendants, give different sequences, uniformly spread over [0,1]; a packed and unpacked stream continues where the packed one stood, seed and stream counts are reported correctly, and invalid arguments are refused or replaced by the documented defaults.",
     ["inputs", "histories", "configurations"], "all seeds, parameters, stream counts and histories of operations",
     "No test runs the library; its own checker compares one seed and one parameter, one stream at a time.",
     ["GTgraph/sprng2.0-lite/src/lfg/lfg.c", "GTgraph/sprng2.0-lite/src/lcg/lcg.c", "GTgraph/sprng2.0-lite/src/lcg64/lcg64.c", "GTgraph/sprng2.0-lite/src/cmrg/cmrg.c", "GTgraph/sprng2.0-lite/src/mlfg/mlfg.c", "GTgraph/sprng2.0-lite/src/sprng/sprng.c", "GTgraph/sprng2.0-lite/src/primes_32.c", "GTgraph/sprng2.0-lite/src/primes_64.c"],
     [("init_rng, spawn_rng, pack_rng, unpack_rng, free_rng", "GTgraph/sprng2.0-lite/src/*/*.c"), ("getprime_32, getprime_64", "GTgraph/sprng2.0-lite/src/primes_*.c")],
     ["every number drawn", "seeds and stream counts reported", "reports of the sanitizers"],
     "runtime monitoring: replay oracle over histories of many streams, independent recurrences and published numbers, AddressSanitizer/UBSan", "The spread of sequences is judged by wide statistical bounds on the default parameters.",
     design="harness/sprng.cpp records, for each stream alive, the line of operations that leads to it, then replays every line alone on a fresh stream and demands the same numbers (bit for bit in the same form, to the form's resolution in another), the same children and the same seed; streams that do not share a packed copy must continue differently. The congruential generators are recomputed from their published multipliers and primes with 64-bit arithmetic; prime tables are checked by trial division, including gaps and the bit-packed offset tables at multiples of 1000. harness/sprng/*.data are the numbers published with the library (integers, floats, doubles, stream 0 of 3, stream 1 of 2); the sections that depend on checks of the original driver only are left out. The library is built with gcc -O2 and with AddressSanitizer/UBSan (left shifts of negative values excepted: every compiler here defines them). Chi-square and correlation bounds lie nine and eight standard deviations out and are judged for parameter 0 only: the short lags of other parameters are known to be weaker, which is no defect. Found and repaired: a global lag used for all LFG streams (heap overflow), the wrong seed reported, a leak per MLFG stream.")

prop("P28", "Products running at the same time do not disturb each other",
     "When several threads of a program call multiplication kernels at the same time on shared operands, each into its own output, every call returns exactly what it returns alone, for any mix of kernels, semirings, team sizes and operands. Between concurrent calls there is no data race and no access to memory of another call, and the operands are unchanged.",
     ["schedules", "histories"], "all groups of concurrent callers, kernels, operands and interleavings",
     "Every test, sample and benchmark makes one product at a time; one hidden static in a kernel is invisible to them.",
     [S + "masked-spgemm.h", S + "masked-spgemm-poly.h", S + "masked-spgemm-inner.h", "outer_mult.h", "outer_mult2.h", "hash_mult.h", "heap_mult.h", "heap_mult_generic.h", "mask_hash_mult.h", "spa_mult.h", "inner_mult.h", "BIN.h", "utility.h"],
     [("per-call scratch memory", "all kernels"), ("row blocks and sorting keys of the outer products", "outer_mult*.h")],
     ["returned matrices of every caller", "memory accesses of all threads", "contents of the operands afterwards"],
     "runtime monitoring: overlapping callers against the definition-level oracle, and under ThreadSanitizer", "Under ThreadSanitizer every product uses a team of one, so that all synchronisation is known to it; team-internal races are P09.",
     design="harness/kern.cpp, mode concurrent: groups of two to four std::threads released together by a barrier, each making one to three products of its own kernel, operand set, semiring and team size (1-3 natively); half of the callers use the kernel of the first caller on the other operands, so that hidden shared state has conflicting contents. Every output is compared entry by entry with the definition. Cost ~50 s for ~800 groups native and ~1000 under ThreadSanitizer.")

prop("P29", "The product programs report what the product is",
     "For any conforming matrix files (square or not, with empty rows and columns, or without entries), generator parameters and thread count, each product program of the sample directory ends normally and reports the number of scalar operations and of entries that the definition of its product gives, whichever kernel it demonstrates. The generator program writes exactly the entries of the two matrices, and the split over two memory nodes hands every entry of the left operand to exactly one piece.",
     ["inputs", "configurations"], "all conforming matrix files, generator parameters, thread counts, block counts and block widths",
     "No test runs the programs; they are exercised by hand on square generated matrices.",
     ["sample/HashSpGEMM.cpp", "sample/HeapSpGEMM.cpp", "sample/InnerSpGEMM.cpp", "sample/MaskedHashSpGEMM.cpp", "sample/MaskedSPASpGEMM.cpp", "sample/OuterSpGEMM.cpp", "sample/OuterSpGEMM2.cpp", "sample/NUMA-aware.cpp", "sample/GenMatrices.cpp", "sample/all_parallel_tc.cpp", "sample/blocked_parallel_tc.cpp", "sample/sample_common.hpp", "SplitTuples.h", "multiply.h"],
     [("reading or generating operands", "sample/sample_common.hpp"), ("division of the left operand", "SplitTuples.h")],
     ["numbers reported by the programs", "files written", "exit status", "reports of the sanitizers"],
     "runtime monitoring: the programs as black boxes on generated files against a definition-level oracle, plain and under AddressSanitizer/UBSan", "",
     design="vlib/drivers.py writes rectangular matrices of five shapes (1-250 rows), runs eleven programs in private directories with 1-8 threads, and compares every number on their output with the definition. A third of the runs is under AddressSanitizer, UBSan and LeakSanitizer. Cost ~27 s for ~200 runs.")

NOT_APPLICABLE = []
