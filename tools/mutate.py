#!/usr/bin/env python3
"""mutate.py OUT SEED N group...: plants one small change at a time into a scratch copy of /repo and runs the checks of
the group against it; prints which changes no check noticed (candidates for new seeds, or changes without effect)."""
import os, random, re, subprocess, sys, time
G = {
 "hash": (["spgemm-blocks/hash/HashAccumulator.h", "spgemm-blocks/hash/MaskedHashAlgorithm.h"], "P11 P01 P02"),
 "msa": (["spgemm-blocks/msa/MSAAlgorithm.h", "spgemm-blocks/msa/MaskedSparseAccumulator1A.h", "spgemm-blocks/msa/MaskedSparseAccumulator2A.h"], "P11 P01 P02"),
 "heap": (["spgemm-blocks/heap/Heap.h", "spgemm-blocks/heap/MaskedHeapAlgorithm.h", "spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h"], "P11 P01 P02"),
 "mca": (["spgemm-blocks/mca/MCAAlgorithm.h", "spgemm-blocks/mca/MaskCompressedAccumulator.h"], "P11 P01"),
 "inner": (["spgemm-blocks/inner/InnerAlgorithm.h", "spgemm-blocks/inner/MaskedInnerSpGEMM.h", "spgemm-blocks/masked-spgemm-inner.h"], "P03 P08"),
 "drv": (["spgemm-blocks/common.h", "spgemm-blocks/scan.h", "spgemm-blocks/util.h", "spgemm-blocks/masked-spgemm.h", "spgemm-blocks/masked-spgemm-poly.h"], "P12 P13 P01 P08 P07"),
 "csr": (["CSR.h"], "P14 P16 P15"), "csc": (["CSC.h"], "P14 P26 P16 P15"), "io": (["IO.h"], "P15"),
 "util": (["utility.h"], "P12 P13 P21 P05"),
 "legacy": (["BIN.h", "hash_mult_hw.h", "mask_hash_mult.h", "SPA.h", "spa_mult.h", "inner_mult.h", "heap_mult.h", "heap_mult_generic.h", "multiply.h"], "P05 P04 P10"),
 "outer": (["outer_mult.h", "outer_mult2.h"], "P05 P10"),
 "grb": (["grb_util.h"], "P16"), "trans": (["util/transpose.h", "util/triple-util.h", "BitMap.h", "Triple.h"], "P25 P26"),
 "parmat": (["PaRMAT/src/" + f for f in "Edge.cpp GraphGen_notSorted.cpp GraphGen_sorted.cpp PaRMAT.cpp Square.cpp capacity_controller.hpp threadsafe_queue.hpp utils.cpp".split()], "P23 P24"),
 "gt": (["GTgraph/%s/%s.c" % (d, f) for d in ("R-MAT", "random", "SSCA2") for f in ("graph", "utils", "init")], "P22"),
 "sprng": (["GTgraph/sprng2.0-lite/src/%s.c" % f for f in "lcg/lcg lcg64/lcg64 lfg/lfg mlfg/mlfg cmrg/cmrg primes_32 primes_64 sprng/sprng".split()], "P27"),
 "sort": (["radix_sort/radix_sort.hpp", "pdqsort/pdqsort.h", "vergesort/vergesort.h", "cpp-TimSort/include/gfx/timsort.hpp", "timsort-cpp/include/tim/timsort.h"], "P21"),
}
OPS = [(r"(?<![<>=\-!])<(?![<=>])(?= )", "<="), (r"<=", "<"), (r"(?<![->=<])>(?![>=])(?= )", ">="), (r"(?<!>)>=", ">"), (r"\+ ?1\b(?!\.)", ""), (r"- ?1\b(?!\.)", ""), (r"\+=", "="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\blower_bound\b", "upper_bound"),
       (r"\bcontinue\b", "break"), (r"= 0;", "= 1;"), (r"(?<=[\w\])]) \+ (?=\w)", " - "), (r"==", "!="), (r"!=", "=="), (r"<<", ">>"), (r"/ ?2\b", ""), (r"% ", "/ "), ("STMT", "")]
R = "/tmp/mutrepo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def candidates(f):
    t = open(os.path.join(R, f), errors="replace").read().split("\n"); out = []; com = False
    for i, l in enumerate(t):
        s = l.strip()
        if com or s.startswith("/*"):
            com = "*/" not in s; continue
        if not s or s.startswith(("//", "#", "*", "using", "template", "typedef", "assert", "cout", "cerr", "printf", "fprintf", "std::cout", "std::cerr")) or "printf" in s: continue
        code = l.split("//")[0]
        for k, (p, r) in enumerate(OPS):
            if p == "STMT":
                if re.match(r"^\s*[\w:>\-\.\[\]\(\)\*\+]+( ?[-+*|&^]?= ?|\(|\+\+|--)[^{}]*;\s*$", code) and not re.match(r"^\s*(return|break|continue|delete|free|my_free|\w+ \w+ ?=)", code): out.append((f, i, k, None))
            else:
                for m in re.finditer(p, code):
                    if "<" in p and re.search(r"template|static_cast<|include|std::(vector|pair|tuple)<", code) and p != r"<=": continue
                    out.append((f, i, k, m.span()))
    return out
def main():
    out, seed, n, groups = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or list(G)
    rng = random.Random(seed); log = open(out, "a")
    for g in groups:
        files, checks = G[g]
        if not os.path.isdir(R): sh("git clone -q /repo " + R)
        sh("cd %s && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD" % R)
        c = [x for f in files if os.path.exists(os.path.join(R, f)) for x in candidates(f)]
        rng.shuffle(c); done = 0; seenl = set()
        for f, i, k, sp in c:
            if done >= n: break
            if (f, i) in seenl: continue
            seenl.add((f, i))
            p = os.path.join(R, f); src = open(p, errors="replace", newline="").read(); L = src.split("\n"); old = L[i]
            L[i] = "" if sp is None else old[:sp[0]] + OPS[k][1] + old[sp[1]:]
            open(p, "w", newline="").write("\n".join(L))
            t0 = time.time(); res = []
            try:
                for pid in checks.split():
                    try: r = sh("timeout 300 python3 check.py %s quick" % pid, cwd=os.environ.get("MUT_VERIF", "/verif"), env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1"))
                    except Exception: continue
                    txt = r.stdout.decode("utf8", "replace"); m = re.search(r"key=(\S+)", txt)
                    res.append((pid, r.returncode, m.group(1) if m else ""))
                    if r.returncode == 1: break
                    if r.returncode == 2 and "compilation failed" in txt: break
            finally:
                open(p, "w", newline="").write(src)
            if res and res[-1][1] == 2 and pid == checks.split()[0]: verdict = "NOBUILD"
            elif any(r == 1 for _, r, _ in res): verdict = "caught"
            else: verdict = "SURVIVED"
            if verdict != "NOBUILD": done += 1
            log.write("%s %s:%d [%s] -> [%s] %s %ds\n" % (verdict, f, i + 1, old.strip()[:110], L[i].strip()[:110], res, time.time() - t0)); log.flush()
main()
