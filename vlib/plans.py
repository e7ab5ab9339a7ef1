"""What each property's check builds and runs."""
import os

from . import drivers, gens
from .run import ASAN, CXX, INC, TSAN, VERIF, REPO, Check, Inconclusive

ALL = [1, 2, 3, 4, 5, 6, 7]
TYPES = {"i32u64": ("int32_t", "uint64_t"), "u32i32": ("uint32_t", "int32_t"), "i64f64": ("int64_t", "double"), "u64i64": ("uint64_t", "int64_t")}


def kern(c, name, groups, types, flags=("-O1",), shim=False, san=(), legacy=()):
    """one kernel-monitor executable"""
    it, nt = TYPES[types]
    f = list(flags) + list(san) + ["-DVIT=" + it, "-DVNT=" + nt]
    if shim:
        f += ["-DOMPSHIM"]
    objs, regs = [], []
    for g in groups:
        objs.append(c.obj("harness/algs_main.cpp", f + ["-DGROUP=%d" % g, "-DREG=reg_%d" % g]))
        regs.append("X(reg_%d)" % g)
    for g in legacy:
        objs.append(c.obj("harness/algs_legacy.cpp", f + ["-DLEGACY=%d" % g, "-DREG=reg_l%d" % g]))
        regs.append("X(reg_l%d)" % g)
    objs.append(c.obj("harness/kern.cpp", f + ["-DREGS=" + " ".join(regs)], tag=name))
    if shim:
        objs.append(c.obj("ompshim/ompshim.cpp", compiler=["g++", "-O1", "-g1", "-std=c++17"]))
        link = ["g++"] + list(san) + ["-Wl,-z,muldefs", "-lpthread"]
    else:
        link = ["g++", "-fopenmp"] + list(san) + ["-Wl,-z,muldefs", "-lgraphblas"]
    return c.exe(name, objs, link)


CASE_RULE = ("A case is (A, B, mask, semiring, kernel, thread count) drawn from 17 seeded families (tiny, hub rows, empty rows, hash-colliding ids, "
             "wide, tall, long rows, huge ids, unsorted, degenerate ...); ")


def p_product(groups, legacy=()):
    def f(c):
        T = ["i32u64", "u32i32"] + (["i64f64", "u64i64"] if c.thorough else [])
        ex = {t: kern(c, "k_" + t, groups, t, legacy=legacy) for t in T}
        ex["opt"] = kern(c, "k_opt", groups, "i64f64", flags=("-O2",), legacy=legacy)
        c.build()
        for i, (t, e) in enumerate(ex.items()):
            for part in range(c.n(2, 6)):
                lo, hi = part * 1000, part * 1000 + c.n(384, 1000)
                c.add("%s-%d" % (t, part), e, ["--mode", "product", "--from", lo, "--cases", hi], cpus=2, timeout=400 if c.thorough else 200)
        c.run_all()
    return f


def p_chain(c):
    T = ["i32u64", "u32i32"] + (["u64i64"] if c.thorough else [])
    ex = {t: kern(c, "k_" + t, ALL, t) for t in T}
    c.build()
    for t, e in ex.items():
        for part in range(c.n(1, 5)):
            c.add("chain-%s-%d" % (t, part), e, ["--mode", "chain", "--from", part * 4000, "--cases", part * 4000 + c.n(2500, 4000)], cpus=2)
        c.add("product-%s" % t, e, ["--mode", "product", "--from", 50000, "--cases", 50000 + c.n(160, 1200)], cpus=2, timeout=400)
    c.run_all()


def p_alias(c):
    T = ["i32u64", "u32i32"] + (["i64f64", "u64i64"] if c.thorough else [])
    ex = {t: kern(c, "k_" + t, ALL, t) for t in T}
    c.build()
    for t, e in ex.items():
        for part in range(c.n(1, 5)):
            c.add("alias-%s-%d" % (t, part), e, ["--mode", "alias", "--from", part * 1000, "--cases", part * 1000 + c.n(700, 1000)], cpus=2, timeout=400)
    c.run_all()


def p_threads(c):
    nat = kern(c, "k_nat", ALL, "i32u64")
    shim = kern(c, "k_shim", ALL, "i32u64", shim=True)
    c.build()
    for part in range(c.n(1, 6)):
        o = part * 1000
        c.add("native-%d" % part, nat, ["--mode", "threads", "--from", o, "--cases", o + c.n(192, 600)], cpus=4, timeout=500)
        c.add("native-noncompact-%d" % part, nat, ["--mode", "threads", "--from", o + 600, "--cases", o + 600 + c.n(60, 300), "--dense", 0], cpus=4, timeout=500)
        c.add("schedules-token-%d" % part, shim, ["--mode", "threads", "--from", o, "--cases", o + c.n(60, 400), "--dense", 0, "--shim", 2], cpus=1, timeout=500)
        c.add("schedules-delay-%d" % part, shim, ["--mode", "threads", "--from", o + 400, "--cases", o + 400 + c.n(60, 300), "--dense", 0, "--shim", 1], cpus=3, timeout=500)
        c.add("schedules-dense-%d" % part, shim, ["--mode", "threads", "--from", o + 60, "--cases", o + 60 + c.n(5, 132), "--shim", 2], cpus=1, timeout=500)
    c.run_all()


def p_races(c):
    a = kern(c, "k_tsan", ALL, "i32u64", shim=True, san=TSAN)
    sc = comp(c, "k_scans", "harness/scans.cpp", [1, 2, 3, 4], san=TSAN, shim=True)
    l = kern(c, "k_tsan_l", [], "i32u64", shim=True, san=TSAN, legacy=[1, 2, 3, 4, 7])
    ct = comp(c, "k_tsan_cont", "harness/cont.cpp", [1, 2, 3, 4, 5], san=TSAN, shim=True)
    outer = [kern(c, "k_tsan_o%d" % g, [], "i32u64", shim=True, san=TSAN, legacy=[g]) for g in (5, 6)]
    c.build()
    for part in range(c.n(1, 6)):
        o = 300000 + part * 3000
        c.add("tsan-scans-%d" % part, sc, ["--from", o, "--cases", o + c.n(400, 1500), "--shim", 3], cpus=2, timeout=500)
    for part in range(c.n(3, 12)):
        o = part * 1000
        c.add("tsan-%d" % part, a, ["--mode", "threads", "--from", o, "--cases", o + c.n(48, 200), "--dense", 0, "--shim", part % 3], cpus=2, timeout=500)
        c.add("tsan-standalone-%d" % part, l, ["--mode", "threads", "--from", o, "--cases", o + c.n(48, 200), "--dense", 0, "--shim", part % 3], cpus=2, timeout=500)
        for e in outer:
            c.add("tsan-outer%d-%d" % (outer.index(e), part), e, ["--mode", "threads", "--from", o, "--cases", o + c.n(30, 200), "--dense", 0, "--shim", part % 3], cpus=2, timeout=500)
        c.add("tsan-containers-%d" % part, ct, ["--from", o * 20, "--cases", o * 20 + c.n(1500, 10000), "--shim", 3], cpus=2, timeout=500)
    c.add("tsan-alias", a, ["--mode", "alias", "--cases", c.n(60, 600), "--shim", 1], cpus=2, timeout=500)
    c.add("tsan-big", a, ["--mode", "threads", "--from", 60, "--cases", c.n(61, 62), "--shim", 1], cpus=2, timeout=500)
    c.run_all()


def p_concurrent(c):
    """callers on their own threads.  With ThreadSanitizer each product runs on its caller's thread alone, so that every access belongs to a
    thread ThreadSanitizer knows; the uninstrumented binaries use teams."""
    leg = ([1], [2, 3], [4], [5], [6], [7])
    ex, ts = [], []
    for san, to in (((), ex), (TSAN, ts)):
        n = "tsan" if san else "nat"
        to.append(kern(c, "k_" + n, ALL, "i32u64", san=san))
        to += [kern(c, "k_%s_l%s" % (n, g[0]), [], "i32u64", san=san, legacy=g) for g in leg]
    c.build()
    for part in range(c.n(1, 6)):
        for k, e in enumerate(ex):
            o = part * 1000
            c.add("native%d-%d" % (k, part), e, ["--mode", "concurrent", "--from", o, "--cases", o + (c.n(90, 500) if k else c.n(150, 500)), "--dense", 0, "--team", 3], cpus=4, timeout=500)
            c.add("native-many-rows%d-%d" % (k, part), e, ["--mode", "concurrent", "--from", o, "--cases", o + c.n(2, 6), "--big", 1, "--rounds", 9, "--team", 3], cpus=4, timeout=500)
        for k, e in enumerate(ts):
            o = 100000 + part * 1000
            c.add("tsan%d-%d" % (k, part), e, ["--mode", "concurrent", "--from", o, "--cases", o + (c.n(40, 300) if k else c.n(90, 400)), "--dense", 0], env={"OMP_NUM_THREADS": "1"}, cpus=3, timeout=500)
            c.add("tsan-many-rows%d-%d" % (k, part), e, ["--mode", "concurrent", "--from", o, "--cases", o + c.n(1, 4), "--big", 1, "--rounds", 9], env={"OMP_NUM_THREADS": "1"}, cpus=3, timeout=500)
    c.run_all()


def p_memory(c):
    a = kern(c, "k_asan", ALL, "i32u64", san=ASAN)
    b = kern(c, "k_asan2", ALL, "u32i32", san=ASAN)
    l = kern(c, "k_asan_l", [], "i32u64", san=ASAN, legacy=[1, 2, 3, 4, 7])
    l2 = kern(c, "k_asan_l2", [], "u32i32", san=ASAN, legacy=[1, 2, 3, 4, 7])
    c.build()
    for part in range(c.n(1, 6)):
        o = part * 1000
        c.add("product-%d" % part, a, ["--mode", "product", "--from", o, "--cases", o + c.n(96, 384)], cpus=2, timeout=600)
        c.add("product2-%d" % part, b, ["--mode", "product", "--from", o, "--cases", o + c.n(96, 384)], cpus=2, timeout=600)
        c.add("alias-%d" % part, a, ["--mode", "alias", "--from", o, "--cases", o + c.n(150, 800)], cpus=2, timeout=600)
        c.add("chain-%d" % part, b, ["--mode", "chain", "--from", o, "--cases", o + c.n(250, 900)], cpus=2, timeout=600)
        for n, e in (("standalone", l), ("standalone2", l2)):
            c.add("%s-%d" % (n, part), e, ["--mode", "product", "--from", o + 40000, "--cases", o + 40000 + c.n(64, 384)], cpus=2, timeout=600)
            c.add("%s-threads-%d" % (n, part), e, ["--mode", "threads", "--from", o + 40000, "--cases", o + 40000 + c.n(24, 200), "--dense", 0], cpus=3, timeout=600)
    c.run_all()


def p_legacy(c):
    """stand-alone masked kernels"""
    T = ["i32u64", "u32i32"] + (["i64f64", "u64i64"] if c.thorough else [])
    ex = {t: kern(c, "k_" + t, [], t, legacy=[1, 2, 7]) for t in T}
    ex["opt"] = kern(c, "k_opt", [], "i64f64", flags=("-O2",), legacy=[1, 2, 7])
    asan = kern(c, "k_asan", [], "i32u64", san=ASAN, legacy=[1, 2, 7])
    c.build()
    for t, e in ex.items():
        for part in range(c.n(1, 6)):
            o = part * 1000
            c.add("%s-%d" % (t, part), e, ["--mode", "product", "--from", o, "--cases", o + c.n(320, 1000)], cpus=2, timeout=400 if c.thorough else 200)
            c.add("%s-threads-%d" % (t, part), e, ["--mode", "threads", "--from", o, "--cases", o + c.n(60, 400), "--dense", 0], cpus=3, timeout=400)
            c.add("%s-shared-%d" % (t, part), e, ["--mode", "alias", "--from", o, "--cases", o + c.n(150, 800)], cpus=2, timeout=400)
    for part in range(c.n(1, 4)):
        o = 20000 + part * 1000
        c.add("asan-%d" % part, asan, ["--mode", "product", "--from", o, "--cases", o + c.n(96, 384)], cpus=2, timeout=600)
    c.run_all()


def p_unmasked(c):
    T = ["i32u64", "u32i32"] + (["i64f64", "u64i64"] if c.thorough else [])
    ex = {t: kern(c, "k_" + t, [], t, legacy=[3, 4]) for t in T}
    OUTER = [(5, "int", "double"), (5, "int", "uint64_t"), (6, "int", "double"), (6, "int", "float")]
    for name, san in (("outer", []), ("outer_asan", list(ASAN))):
        for k, (g, vit, vnt) in enumerate(OUTER):
            if san and k % 2:
                continue
            F = ["-O1", "-DBIGIDS", "-DVIT=" + vit, "-DVNT=" + vnt]
            objs = [c.obj("harness/algs_legacy.cpp", F + san + ["-DLEGACY=%d" % g, "-DREG=reg_l%d" % g]),
                    c.obj("harness/kern.cpp", F + san + ["-DREGS=X(reg_l%d)" % g], tag="%s%d" % (name, k))]
            ex["%s%d" % (name, k)] = c.exe("k_%s%d" % (name, k), objs, ["g++", "-fopenmp"] + san + ["-Wl,-z,muldefs", "-lgraphblas"])
    asan = kern(c, "k_asan", [], "i32u64", san=ASAN, legacy=[3, 4])
    isect = c.exe("k_isect", [c.obj("harness/intersect.cpp", ["-O1"] + ASAN)], ["g++", "-fopenmp"] + ASAN + ["-Wl,-z,muldefs", "-lgraphblas"])
    c.build()
    for t, e in ex.items():
        san = t.startswith("outer_asan")
        for part in range(c.n(1, 6)):
            o = part * 1000 + (30000 if san else 0)
            c.add("%s-%d" % (t, part), e, ["--mode", "product", "--from", o, "--cases", o + c.n(100 if san else 320, 400 if san else 1000)], cpus=2, timeout=500)
            if not san:
                c.add("%s-threads-%d" % (t, part), e, ["--mode", "threads", "--from", o, "--cases", o + c.n(60, 400), "--dense", 0], cpus=3, timeout=400)
                c.add("%s-shared-%d" % (t, part), e, ["--mode", "alias", "--from", o, "--cases", o + c.n(150, 800)], cpus=2, timeout=400)
    for part in range(c.n(1, 4)):
        o = 20000 + part * 1000
        c.add("asan-%d" % part, asan, ["--mode", "product", "--from", o, "--cases", o + c.n(96, 384)], cpus=2, timeout=600)
        c.add("intersect-%d" % part, isect, ["--from", o, "--cases", o + c.n(300, 2000)], cpus=2, timeout=300)
    c.run_all()


def comp(c, name, src, parts, flags=("-O1",), san=(), shim=False, extra=()):
    """component-monitor executable; a part whose interface is gone is left out (noted in the evidence)"""
    f = list(flags) + list(san) + (["-DOMPSHIM"] if shim else [])
    objs = [c.obj(src, f + ["-DPART=0"])] + [c.obj(src, f + ["-DPART=%d" % p], optional=True) for p in parts] + list(extra)
    if shim:
        objs.append(c.obj("ompshim/ompshim.cpp", compiler=["g++", "-O1", "-g1", "-std=c++17"]))
        link = ["g++"] + list(san) + ["-Wl,-z,muldefs", "-lpthread"]
    else:
        link = ["g++", "-fopenmp"] + list(san) + ["-Wl,-z,muldefs", "-lgraphblas"]
    return c.exe(name, objs, link)


def p_accum(c):
    asan = comp(c, "k_asan", "harness/accum.cpp", [1, 2, 3, 4], san=ASAN)
    opt = comp(c, "k_opt", "harness/accum.cpp", [1, 2, 3, 4], flags=["-O2"])
    c.build()
    for part in range(c.n(2, 8)):
        o = part * 5000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(2500, 5000)], cpus=1, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 100000 + o, "--cases", 100000 + o + c.n(5000, 5000)], cpus=1, timeout=500)
    c.run_all()


def p_scans(c):
    P = [1, 2, 3, 4]
    asan = comp(c, "k_asan", "harness/scans.cpp", P, san=ASAN)
    opt = comp(c, "k_opt", "harness/scans.cpp", P, flags=["-O2"])
    shim = comp(c, "k_shim", "harness/scans.cpp", P, shim=True)
    c.build()
    for part in range(c.n(1, 8)):
        o = part * 3000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(1200, 3000)], cpus=3, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 100000 + o, "--cases", 100000 + o + c.n(2000, 3000)], cpus=3, timeout=500)
        c.add("schedules-%d" % part, shim, ["--from", 200000 + o, "--cases", 200000 + o + c.n(500, 2000), "--shim", 3], cpus=2, timeout=500)
    c.run_all()


def p_mem(c):
    asan = comp(c, "k_asan", "harness/memsplit.cpp", [1, 2], san=ASAN)
    opt = comp(c, "k_opt", "harness/memsplit.cpp", [1, 2], flags=["-O2"])
    c.build()
    for part in range(c.n(2, 8)):
        o = part * 20000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(3000, 12000)], cpus=1, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 500000 + o, "--cases", 500000 + o + c.n(8000, 20000)], cpus=1, timeout=500)
    c.run_all()


def p_cont(c):
    P = [1, 2, 3, 4, 5]
    asan = comp(c, "k_asan", "harness/cont.cpp", P, flags=["-O1", "-D_GLIBCXX_ASSERTIONS"], san=ASAN)
    opt = comp(c, "k_opt", "harness/cont.cpp", P, flags=["-O2"])
    c.build()
    for part in range(c.n(2, 8)):
        o = part * 50000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(5000, 40000)], cpus=2, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 500000 + o, "--cases", 500000 + o + c.n(12000, 50000)], cpus=2, timeout=500)
    c.run_all()


def p_trans(c):
    P = [1, 2]
    asan = comp(c, "k_asan", "harness/trans.cpp", P, san=ASAN)
    opt = comp(c, "k_opt", "harness/trans.cpp", P, flags=["-O2"])
    shim = comp(c, "k_shim", "harness/trans.cpp", P, flags=["-O2"], shim=True)
    tsan = comp(c, "k_tsan", "harness/trans.cpp", P, san=TSAN, shim=True)
    c.build()
    for part in range(c.n(1, 6)):
        o = part * 100000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(4000, 20000)], cpus=2, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 1000000 + o, "--cases", 1000000 + o + c.n(8000, 40000)], cpus=4, timeout=500)
        c.add("schedules-%d" % part, shim, ["--from", 2000000 + o, "--cases", 2000000 + o + c.n(1500, 8000), "--shim", 3], cpus=2, timeout=500)
        c.add("tsan-%d" % part, tsan, ["--from", 3000000 + o, "--cases", 3000000 + o + c.n(1200, 6000), "--shim", 3], cpus=2, timeout=500)
    c.run_all()


def p_spref(c):
    P = [1, 2]
    asan = comp(c, "k_asan", "harness/spref.cpp", P, flags=["-O1", "-D_GLIBCXX_ASSERTIONS"], san=ASAN)
    opt = comp(c, "k_opt", "harness/spref.cpp", P, flags=["-O2"])
    c.build()
    for part in range(c.n(2, 8)):
        o = part * 100000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(3000, 15000)], cpus=1, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 1000000 + o, "--cases", 1000000 + o + c.n(8000, 40000), "--wide", int(part == 0)], cpus=1, timeout=500)
    c.run_all()


def p_io(c):
    P = [1, 2, 3, 4]
    asan = comp(c, "k_asan", "harness/io.cpp", P, san=ASAN)
    opt = comp(c, "k_opt", "harness/io.cpp", P, flags=["-O2"])
    c.build()
    for part in range(c.n(2, 8)):
        o = part * 50000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(5000, 30000)], cpus=1, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 500000 + o, "--cases", 500000 + o + c.n(10000, 50000)], cpus=1, timeout=500)
    c.run_all()


def p_grb(c):
    P = [1, 2, 3]
    asan = comp(c, "k_asan", "harness/grb.cpp", P, san=ASAN)
    opt = comp(c, "k_opt", "harness/grb.cpp", P, flags=["-O2"])
    c.build()
    for part in range(c.n(2, 8)):
        o = part * 50000
        c.add("asan-%d" % part, asan, ["--from", o, "--cases", o + c.n(2500, 20000)], cpus=2, timeout=500)
        c.add("opt-%d" % part, opt, ["--from", 500000 + o, "--cases", 500000 + o + c.n(5000, 30000)], cpus=2, timeout=500)
    c.run_all()


def p_sort(c):
    A, B = [1, 2, 3, 5, 7], [4, 6]   # two headers declare the same names differently: separate executables
    ex = {}
    for n, parts in (("a", A), ("b", B)):
        ex["asan-" + n] = comp(c, "k_asan_" + n, "harness/sort.cpp", parts, san=ASAN)
        ex["opt-" + n] = comp(c, "k_opt_" + n, "harness/sort.cpp", parts, flags=["-O2"])
    c.build()
    for part in range(c.n(1, 6)):
        for i, (n, e) in enumerate(ex.items()):
            o = 1000000 * i + part * 100000
            c.add("%s-%d" % (n, part), e, ["--from", o, "--cases", o + (c.n(4000, 40000) if "asan" in n else c.n(20000, 80000))], cpus=2, timeout=600)
    c.run_all()


PLANS = {
    "P28": (p_concurrent, "A case is a group of two to four callers, each running one to three products of its own kernel, semiring and team size on two shared sets of operands, started together; non-trivial: some product has entries.", ["operands are not written by anybody while the products run", "every caller has its own output"]),
    "P29": (drivers.p_samples, "A case is one run of a program of sample/ on one set of matrix files (or one set of generator parameters) and one thread count; non-trivial: the product has entries.", ["matrix files without duplicate entries and with positive values"]),
    "P27": (gens.p_sprng, "A case is one history of up to fifteen live streams of one of the five generators (made, drawn from in three forms, spawned, packed, freed) replayed stream by stream, one recurrence, one list of primes, one family of 120-200 streams, or one set of arguments out of range; non-trivial: more than eight operations on several streams.", ["stream numbers, children and primes stay within the library's stated maxima"]),
    "P26": (p_spref, "A case is one selection of rows and columns from one matrix by one of three routines, or a history of operations on three bit maps; non-trivial: some but not all entries selected / more than five operations.", ["ascending ids; the routine for plain arrays gets no repeated rows; bit maps of one bit or more"]),
    "P25": (p_trans, "A case is one matrix transposed and transposed back by a team of 1-12 threads, or one list of triples; non-trivial: several entries.", ["ids lie inside the matrix; the number of entries of a column fits an int"]),
    "P22": (gens.p_gtgraph, "A case is one parameter set of a serial generator (made five times: plain, again, sorted by both methods, written directly), or one run of its program; non-trivial: several edges.", ["two vertices or more, cliques of two or more, inter-clique probability below 1, weights that are not negative, file names under 30 characters"]),
    "P24": (gens.p_queue, "A case is one history of a queue (sequential, or 2-8 threads), the destruction of a long queue, or 2-8 threads passing a capacity gate; seeded delays at every lock and notification; non-trivial: more than two elements and threads, distinct by the order of synchronisation points.", ["a request does not exceed the capacity", "every waiting consumer is owed an element"]),
    "P23": (gens.p_parmat, "A case is one generated graph (size, probabilities, threads, capacity, options, variant); non-trivial: several edges and several workers or parts.", ["graphs are sparse enough for the options to be satisfiable part by part, probabilities exceed the per-part noise"]),
    "P21": (p_sort, "A case is one array (size, key pattern, comparator, element type) given to one sorting routine; non-trivial: more than two elements that are not all equal.", ["comparators are strict weak orders", "key-value sorting gets at least one element"]),
    "P17": (drivers.p_tricount, "A case is one generated graph file given to the triangle-counting driver (mode, thread count); evaluations count algorithm results; non-trivial: the graph has a triangle.", ["the file is a readable square matrix; counts fit 64 bits"]),
    "P18": (drivers.p_ktruss, "A case is one generated graph file given to the k-truss driver (k >= 3, mode, thread counts); evaluations count algorithm results; non-trivial: several rounds and a non-empty truss.", ["the file is a readable square matrix, k >= 3"]),
    "P19": (drivers.p_bc, "A case is one generated directed graph given to the betweenness driver (batch of sources, mode, thread counts); evaluations count algorithm results; non-trivial: some dependency is positive.", ["single-precision accumulation; the sums are compared with a tolerance"]),
    "P20": (drivers.p_compare, "A case is one set of generated operands given to a comparison driver; evaluations count algorithm results; non-trivial: the definition yields entries.", ["integer-valued operands, so that sums are exact"]),
    "P16": (p_grb, "A case is one matrix handed to or taken from GraphBLAS (1-4 rounds), or one GraphBLAS utility applied to it; non-trivial: several entries.", ["matrices given to GraphBLAS are zero-based with ascending ids and without duplicates (the copying form also takes one-based ones)", "a matrix taken from GraphBLAS is finished and sorted"]),
    "P15": (p_io, "A case is one generated matrix file (text or binary, well-formed or unusable) read by one reader; non-trivial: several entries.", ["the banner says general or symmetric, comment lines are shorter than 256 characters and do not contain these words", "integer-typed matrices are read from files of integers"]),
    "P13": (p_mem, "A case is a history of aligned allocations, or of hand-overs of one scratch buffer with random dirty prefixes, alignments and element sizes; non-trivial: several blocks / a non-empty clean part.", ["a buffer handed over is aligned to the least common multiple of the element sizes and large enough, as the accumulators size it"]),
    "P14": (p_cont, "A case is a history of operations on four matrices, one construction from triples/tuples/arrays/pairs, one conversion or one graph; non-trivial: several entries.", ["coordinates lie inside the matrix; graph edges are sorted by source as the generator emits them"]),
    "P11": (p_accum, "A case is a history of operations on one accumulator, heap or row algorithm (several rows, symbolic and numeric phase on one buffer); non-trivial: entries accumulated / keys erased / several usable rows.", ["keys differ from the reserved empty marker", "rows are passed with the flop bound the drivers compute"]),
    "P12": (p_scans, "A case is one scan (size, type, values, team) or one set of operands whose work is estimated and partitioned for a team; non-trivial: more than two elements / more than one thread and row with work.", ["totals fit the index type"]),
    "P04": (p_legacy, CASE_RULE + "non-trivial: the definition yields at least one entry and the mask excludes at least one candidate product.", ["fresh output object, at least one row and one thread, ascending ids (the stand-alone kernels' contract)"]),
    "P05": (p_unmasked, CASE_RULE + "non-trivial: the definition yields at least one entry.", ["fresh output object, at least one row and one thread; the outer products take int ids"]),
    "P01": (p_product([1, 2, 3, 4]), CASE_RULE + "non-trivial: the definition yields at least one entry and the mask excludes at least one candidate product.", []),
    "P02": (p_product([5, 6]), CASE_RULE + "non-trivial: the definition yields at least one entry and the mask excludes at least one candidate product.", []),
    "P03": (p_product([7]), CASE_RULE + "non-trivial: the definition yields at least one entry and the mask excludes at least one candidate product.", []),
    "P06": (p_chain, "A case is a chain of 4-11 products whose operands and masks are drawn from the inputs and all earlier results; non-trivial: a non-empty product used an earlier result.", []),
    "P07": (p_alias, "A case is one product under one of nine sharing patterns of output, operands and mask (plus a repetition into the same output); non-trivial: entries exist and objects are shared or stale.", []),
    "P08": (p_threads, "A case is (operands, kernel, semiring) run under 3-5 thread counts, native and under seeded schedules (one thread at a time in random order, or random delays); non-trivial: several rows, entries and team sizes.", []),
    "P09": (p_races, "A case is (operands, kernel, semiring) run under several team sizes with ThreadSanitizer and seeded delays/orders; non-trivial as in P08.", []),
    "P10": (p_memory, "A case is a product / aliasing pattern / chain executed under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer; non-trivial: entries exist and the mask excluded candidates (or objects are shared).", []),
}


def start(pid, tier, seed):
    return Check(pid, tier, seed, PLANS[pid][1], PLANS[pid][2])
