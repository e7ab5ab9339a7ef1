"""Monitors of the application drivers: generated graphs in, LOG lines out, judged by definitions computed here."""
import collections
import os
import random
import struct

from .run import ASAN, REPO, VERIF

B = os.path.join(REPO, "benchmarks")


def driver(c, name, src, san=(), flags=("-O1",), optional=False):
    f = list(flags) + list(san)
    o = c.obj(os.path.join(B, src), f + ["-D_GLIBCXX_ASSERTIONS"] if san else f, tag=name, optional=optional)
    return c.exe(name, [o], ["g++", "-fopenmp"] + list(san) + ["-Wl,-z,muldefs", "-lgraphblas"], need=o)


# ---- graphs ------------------------------------------------------------------
FAMILIES = ["er", "dense", "complete", "star", "path", "bipartite", "cliques", "hub", "power", "edgeless", "tiny", "ring", "tree", "blocks"]


def graph(rng, nmax=48, fam=None):
    """(family, n, list of directed edges; self loops, duplicates and both directions may occur)"""
    fam = fam or rng.choice(FAMILIES)
    n = rng.randint(2, nmax)
    E = []
    if fam == "er":
        p = rng.choice([1, 2, 3, 5]) / n
        E = [(i, j) for i in range(n) for j in range(n) if rng.random() < p]
    elif fam == "dense":
        n = min(n, 28)
        p = rng.choice([.3, .5, .8])
        E = [(i, j) for i in range(n) for j in range(n) if rng.random() < p]
    elif fam == "complete":
        n = min(n, 20)
        E = [(i, j) for i in range(n) for j in range(n)]
    elif fam == "star":
        h = rng.randrange(n)
        E = [(h, j) for j in range(n)] + [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, n))]
    elif fam == "path":
        E = [(i, i + 1) for i in range(n - 1)] + [(i, i + 2) for i in range(n - 2) if rng.random() < .3]
    elif fam == "bipartite":
        h = rng.randint(1, n - 1)
        E = [(i, j) for i in range(h) for j in range(h, n) if rng.random() < .4]
    elif fam == "cliques":
        i = 0
        while i < n:
            k = rng.randint(1, 8)
            E += [(a, b) for a in range(i, min(n, i + k)) for b in range(i, min(n, i + k)) if a != b]
            i += k
        E += [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 4))]
    elif fam == "hub":
        hs = rng.sample(range(n), min(n, rng.randint(1, 3)))
        E = [(h, j) for h in hs for j in range(n) if rng.random() < .8] + [(rng.randrange(n), rng.randrange(n)) for _ in range(2 * n)]
    elif fam == "power":
        for _ in range(rng.randint(1, 5) * n):
            E.append((int(n * rng.random() ** 3), int(n * rng.random() ** 2)))
    elif fam == "tiny":
        n = rng.randint(1, 4)
        E = [(i, j) for i in range(n) for j in range(n) if rng.random() < .6]
    elif fam == "ring":
        E = [(i, (i + 1) % n) for i in range(n)] + [(i, (i + 2) % n) for i in range(n) if rng.random() < .7]
    elif fam == "tree":
        E = [(rng.randrange(i), i) for i in range(1, n)]
    elif fam == "blocks":       # empty leading, inner and trailing rows
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(n)
            b = min(n, a + rng.randint(1, 10))
            E += [(rng.randrange(a, b), rng.randrange(a, b)) for _ in range(4 * (b - a))]
    E = [e if rng.random() < .5 else (e[1], e[0]) for e in E] if rng.random() < .5 else list(E)
    if E and rng.random() < .4:
        E += [rng.choice(E) for _ in range(rng.randint(1, 6))]                      # duplicates
    if E and rng.random() < .4:
        E += [(b, a) for a, b in rng.sample(E, rng.randint(1, len(E)))]             # both directions
    if rng.random() < .4:
        E += [(v, v) for v in rng.sample(range(n), rng.randint(1, n))]              # self loops
    rng.shuffle(E)
    return fam, n, E


def write_mtx(path, rng, rows, cols, entries, sym=False, values=True):
    """entries: (i, j[, v]) zero-based; returns nothing"""
    with open(path, "w") as f:
        f.write("%%%%MatrixMarket matrix coordinate %s %s\n" % ("integer" if values else "pattern", "symmetric" if sym else "general"))
        if rng.random() < .5:
            f.write("% generated\n")
        f.write("%d %d %d\n" % (rows, cols, len(entries)))
        for e in entries:
            i, j = e[0], e[1]
            if sym and i < j:
                i, j = j, i
            f.write("%d %d" % (i + 1, j + 1) + (" %d" % (e[2] if len(e) > 2 else 1) if values else "") + "\n")


def log_lines(log, sep):
    res = []
    for l in log.splitlines():
        l = l.strip()
        if l.startswith("LOG" + sep):
            res.append([x.strip() for x in l.split(sep)])
    return res


def stat(evals, nontrivial, **k):
    return dict(evaluations=evals, distinct_nontrivial=nontrivial, counters=k.get("counters", {}), maxima=k.get("maxima", {}),
                distinct={}, samples=k.get("samples", []))


# ---- oracles -----------------------------------------------------------------
def simple(n, E):
    adj = [set() for _ in range(n)]
    for a, b in E:
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    return adj


def triangles(n, E):
    adj = simple(n, E)
    return sum(1 for a in range(n) for b in adj[a] if a < b for c in adj[a] & adj[b] if b < c), sum(len(x) for x in adj) // 2


def ktruss(n, E, k):
    """(stored entries of the k-truss, rounds until no edge is dropped)"""
    adj = simple(n, E)
    rounds = 0
    while True:
        rounds += 1
        keep = [set(b for b in adj[a] if len(adj[a] & adj[b]) >= max(1, k - 2)) for a in range(n)]
        done = keep == adj
        adj = keep
        if done:
            return sum(len(x) for x in adj), rounds


def dependencies(n, E):
    """sum over all sources s and v != s of the dependency of s on v, directed graph, self loops ignored"""
    out = [set() for _ in range(n)]
    for a, b in E:
        if a != b:
            out[a].add(b)
    tot = 0.0
    for s in range(n):
        dist, sig, order = {s: 0}, collections.Counter({s: 1}), []
        q = collections.deque([s])
        while q:
            v = q.popleft()
            order.append(v)
            for w in out[v]:
                if w not in dist:
                    dist[w] = dist[v] + 1
                    q.append(w)
                if dist[w] == dist[v] + 1:
                    sig[w] += sig[v]
        dep = collections.Counter()
        for v in reversed(order):
            for w in out[v]:
                if dist.get(w) == dist[v] + 1:
                    dep[v] += sig[v] / sig[w] * (1 + dep[w])
        tot += sum(dep[v] for v in order if v != s)
    return tot


def cksum(words, fmt):
    """the drivers' 16-bit one's complement sum; independent of the order of the items"""
    data = struct.pack("<%d%s" % (len(words), fmt), *words)
    s = 0
    for (w,) in struct.iter_unpack("<H", data):
        s += w
        if s & 0xFFFF0000:
            s = (s & 0xFFFF) + 1
    return ~s & 0xFFFF


def masked_product(A, Bm, M, complement):
    """dict rows -> {col: value}; operands are dicts row -> {col: value}"""
    C = {}
    for i, ra in A.items():
        acc = {}
        m = M.get(i, {})
        for k, va in ra.items():
            for j, vb in Bm.get(k, {}).items():
                if (j in m) != complement:
                    acc[j] = acc.get(j, 0) + va * vb
        if acc:
            C[i] = acc
    return C


def to_rows(entries):
    R = {}
    for i, j, v in entries:
        R.setdefault(i, {})[j] = v
    return R


# ---- checks ------------------------------------------------------------------
NOLEAK = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:malloc_context_size=12"}


def rng_of(c, i):
    return random.Random("%s/%d/%d" % (c.pid, c.seed, i))


def add_runs(c, plain, asan, total, asan_total, make, first=0):
    """make(rng, i, path) -> (argv tail, env, judge, inputs)"""
    for i in range(first, first + total + asan_total):
        exe = plain if i - first < total else asan
        rng = rng_of(c, i)
        base = os.path.join(c.dir, "in%d" % i)
        args, env, judge, inputs = make(rng, i, base)
        if exe is asan:
            env = dict(env, **NOLEAK)
        c.add("case%d" % i, exe, [], argv=[exe] + args, env=env, cpus=1, timeout=100, judge=judge, inputs=inputs)


def p_tricount(c):
    plain = driver(c, "tricnt", "TriCntAll.cpp")
    asan = driver(c, "tricnt_asan", "TriCntAll.cpp", san=ASAN)
    # not part of the default build: where it does not compile, the evidence says so
    api = ("-O1", "-include", os.path.join(VERIF, "harness/app/grb_api.hpp"))
    gplain = driver(c, "tricntgrb", "TriCntAllGrb.cpp", flags=api, optional=True)
    gasan = driver(c, "tricntgrb_asan", "TriCntAllGrb.cpp", flags=api, san=ASAN, optional=True)
    c.build()
    modes = ["all", "all1p", "all2p", "inner", "msa", "hash", "heap", "intersect"]

    def make(rng, i, base):
        big = i % 16 == 15
        while True:     # graphs without edges: see below
            fam, n, E = graph(rng, 400 if big else 48)
            if any(a != b for a, b in E):
                break
        sym = rng.random() < .4
        path = base + ".mtx"
        if sym:
            E = list({(max(e), min(e)) for e in E})
        write_mtx(path, rng, n, n, E, sym)
        mode = modes[i % 3] if rng.random() < .8 else rng.choice(modes)
        thr = rng.choice([1, 2, 3, 4, 7, 8])
        iters = rng.choice([1, 1, 2])
        exp, edges = triangles(n, E)
        tag = "family=%s n=%d edges=%d mode=%s threads=%d triangles=%d %s" % (fam, n, edges, mode, thr, exp, path)

        def judge(log):
            fails, L = [], log_lines(log, ",")
            if not L:
                fails.append(("tricnt:no-result", tag))
            for x in L:
                if int(x[-2]) != exp:
                    # known: one entry per edge of a triangle is counted as one triangle
                    what = "intersect-counts-entries" if x[2] == "HashIntersect" and int(x[-2]) == int(x[-3]) else "count:" + ",".join(x[2:-7])
                    fails.append(("tricnt:" + what, "%s: counted %s triangles" % (tag, x[-2])))
                if not exp >= int(x[-3]) >= (exp > 0):
                    fails.append(("tricnt:nnz:" + ",".join(x[2:-7]), "%s: %s entries for %d triangles" % (tag, x[-3], exp)))
            for col, what in ((-3, "entries"), (-1, "checksum")):
                ok = [x for x in L if x[2] != "HashIntersect" or int(x[-2]) == exp]
                if len({x[col] for x in ok}) > 1:
                    fails.append(("tricnt:disagree:" + what, "%s: %s" % (tag, {",".join(x[2:-7]): x[col] for x in L})))
            return fails, stat(len(L), 1 if exp else 0, counters={"algorithm runs": len(L), "triangles": exp * len(L), "graphs": 1}, maxima={"edges": edges}, samples=[tag])
        return [path, str(thr)], {"MODE": mode, "INNER_ITERS": str(iters)}, judge, [path]
    add_runs(c, plain, asan, c.n(110, 900), c.n(16, 120), make)

    def makeg(rng, i, base):
        fam, n, E = graph(rng, 300 if i % 16 == 15 else 48)
        sym = rng.random() < .4
        path = base + ".mtx"
        if sym:
            E = list({(max(e), min(e)) for e in E})
        write_mtx(path, rng, n, n, E, sym)
        mode = rng.choice(["all", "all", "all1p", "all2p", "benchmark", "heap", "msa", "hash", "inner", "grb"])
        thr = rng.sample([1, 2, 3, 4, 7, 8], rng.choice([1, 1, 2]))
        exp, edges = triangles(n, E)
        tag = "GraphBLAS driver: family=%s n=%d edges=%d mode=%s threads=%s triangles=%d %s" % (fam, n, edges, mode, thr, exp, path)

        def judge(log):
            fails, L = [], [x for x in log_lines(log, ";") if len(x) > 8]
            if not L:
                fails.append(("tricntgrb:no-result", tag))
            for x in L:
                if int(x[8]) != exp:
                    fails.append(("tricntgrb:count:" + x[2], "%s: counted %s triangles" % (tag, x[8])))
                if not exp >= int(x[7]) >= (exp > 0):
                    fails.append(("tricntgrb:nnz:" + x[2], "%s: %s entries" % (tag, x[7])))
            if len({x[7] for x in L}) > 1:
                fails.append(("tricntgrb:disagree", "%s: %s" % (tag, {x[2]: x[7] for x in L})))
            return fails, stat(len(L), 1 if exp else 0, counters={"algorithm runs": len(L), "triangles": exp * len(L), "graphs": 1, "graphs (GraphBLAS driver)": 1}, maxima={"edges": edges}, samples=[tag])
        return [path] + [str(t) for t in thr], {"MODE": mode, "INNER_ITERS": str(rng.choice([1, 2]))}, judge, [path]
    if os.path.exists(gplain) and os.path.exists(gasan):
        add_runs(c, gplain, gasan, c.n(60, 500), c.n(10, 80), makeg, first=50000)
    path = os.path.join(c.dir, "edgeless.mtx")
    write_mtx(path, rng_of(c, 9999), 5, 5, [], False)

    def judge0(log):
        L = log_lines(log, ",")
        return ([("tricnt:count", "counted %s triangles" % x[-2]) for x in L if int(x[-2])] or ([] if L else [("tricnt:no-result", path)])), stat(len(L), 0, counters={"algorithm runs": len(L)})
    c.add("edgeless", asan, [], argv=[asan, path, "1"], env=dict({"MODE": "all1p", "INNER_ITERS": "1"}, **NOLEAK), cpus=1, timeout=100, judge=judge0, inputs=[path], prefix="edgeless-graph:")
    c.run_all()


def p_ktruss(c):
    plain = driver(c, "ktruss", "KTrussAllGrb.cpp")
    asan = driver(c, "ktruss_asan", "KTrussAllGrb.cpp", san=ASAN)
    c.build()
    modes = ["all", "all1p", "all2p", "benchmark"]

    def make(rng, i, base):
        fam, n, E = graph(rng, 200 if i % 16 == 15 else 48)
        sym = rng.random() < .4
        path = base + ".mtx"
        if sym:
            E = list({(max(e), min(e)) for e in E})
        write_mtx(path, rng, n, n, E, sym)
        k = rng.choice([3, 3, 4, 4, 5, 6, 8])
        mode = modes[i % 4]
        thr = rng.sample([1, 2, 3, 4, 7, 8], rng.choice([1, 1, 2]))
        nnz, rounds = ktruss(n, E, k)
        tag = "family=%s n=%d stored=%d k=%d mode=%s threads=%s truss=%d rounds=%d %s" % (fam, n, len(E), k, mode, thr, nnz, rounds, path)

        def judge(log):
            fails, L = [], log_lines(log, ";")
            if not L:
                fails.append(("ktruss:no-result", tag))
            for x in L:
                if int(x[9]) != nnz:
                    fails.append(("ktruss:size:" + x[2], "%s: %s stored entries" % (tag, x[9])))
                if int(x[10]) != rounds:
                    fails.append(("ktruss:rounds:" + x[2], "%s: %s rounds" % (tag, x[10])))
            return fails, stat(len(L), 1 if nnz and rounds > 1 else 0, counters={"algorithm runs": len(L), "products": rounds * len(L), "graphs": 1, "non-empty trusses": int(nnz > 0)}, maxima={"rounds": rounds}, samples=[tag])
        return [path, str(k)] + [str(t) for t in thr], {"MODE": mode}, judge, [path]
    add_runs(c, plain, asan, c.n(110, 900), c.n(16, 120), make)
    c.run_all()


def p_bc(c):
    plain = driver(c, "bc", "BCAllGrb.cpp")
    asan = driver(c, "bc_asan", "BCAllGrb.cpp", san=ASAN)
    c.build()
    modes = ["all", "benchmark", "all", "msa", "hash", "heap"]

    def make(rng, i, base):
        fam, n, E = graph(rng, 90 if i % 16 == 15 else 40)
        path = base + ".mtx"
        sym = rng.random() < .3
        if sym:
            E = list({(max(e), min(e)) for e in E})
        write_mtx(path, rng, n, n, E, sym)
        D = E + [(b, a) for a, b in E] if sym else E
        mode = modes[i % 6]
        batch = n if rng.random() < .75 else rng.randint(1, n)
        thr = rng.sample([1, 2, 3, 4, 7, 8], rng.choice([1, 1, 2]))
        exp = dependencies(n, D) if batch == n else None
        tag = "family=%s n=%d stored=%d batch=%d mode=%s threads=%s sum=%s %s" % (fam, n, len(E), batch, mode, thr, exp, path)
        tol = 1e-3 + n * batch * 1e-6 + 1e-5 * (exp or 0)

        def judge(log):
            fails, L = [], log_lines(log, ";")
            if not L:
                fails.append(("bc:no-result", tag))
            v = [(x[2], float(x[10])) for x in L]
            ref = exp
            if ref is None and v:
                ref = sorted(a for _, a in v)[len(v) // 2]
            for a, r in v:
                if not abs(r - ref) <= tol + 1e-5 * abs(ref):
                    fails.append(("bc:sum:" + a, "%s: %s, expected %s" % (tag, r, ref)))
            return fails, stat(len(L), 1 if ref else 0, counters={"algorithm runs": len(L), "graphs": 1, "all-source batches": int(batch == n)}, maxima={"sources": batch}, samples=[tag])
        return [path, str(batch)] + [str(t) for t in thr], {"MODE": mode}, judge, [path]
    add_runs(c, plain, asan, c.n(110, 900), c.n(16, 120), make)
    c.run_all()


def rand_matrix(rng, m, n, lo=1, hi=9):
    kind = rng.choice(["er", "dense", "rows", "cols", "hub", "empty", "diag"])
    pos = set()
    if kind == "er":
        pos = {(rng.randrange(m), rng.randrange(n)) for _ in range(rng.randint(1, 4) * max(m, n))}
    elif kind == "dense":
        pos = {(i, j) for i in range(m) for j in range(n) if rng.random() < .5}
    elif kind == "rows":
        rs = rng.sample(range(m), rng.randint(1, m))
        pos = {(i, rng.randrange(n)) for i in rs for _ in range(rng.randint(0, n))}
    elif kind == "cols":
        cs = rng.sample(range(n), rng.randint(1, n))
        pos = {(i, rng.choice(cs)) for i in range(m) for _ in range(3)}
    elif kind == "hub":
        h = rng.randrange(m)
        pos = {(h, j) for j in range(n)} | {(rng.randrange(m), rng.randrange(n)) for _ in range(m)}
    elif kind == "diag":
        pos = {(i, i) for i in range(min(m, n))}
    pos = sorted(pos)
    rng.shuffle(pos)
    return kind, [(i, j, rng.choice([v for v in range(lo, hi + 1) if v])) for i, j in pos]     # no zeros: no negative zeros


def p_compare(c):
    mk = [driver(c, "masked", "MaskedAllSpGEMM.cpp"), driver(c, "masked_asan", "MaskedAllSpGEMM.cpp", san=ASAN)]
    ck = [driver(c, "compl", "ComplementMaskedSpGEMM.cpp"), driver(c, "compl_asan", "ComplementMaskedSpGEMM.cpp", san=ASAN)]
    c.build()

    def expected(C, rows, ifmt, vfmt, withptr):
        ids = [j for i in range(rows) for j in C.get(i, {})]
        vals = [v for i in range(rows) for v in C.get(i, {}).values()]
        s = "%d|%d" % (cksum(vals, vfmt), cksum(ids, ifmt))
        if withptr:
            ptr, a = [], 0
            for i in range(rows):
                ptr.append(a)
                a += len(C.get(i, {}))
            s = "%d|" % cksum(ptr, ifmt) + s
        return len(ids), s, sum(vals)

    def make_masked(rng, i, base):
        m, k, n = (rng.randint(1, 30) for _ in range(3))
        if i % 16 == 15:
            m, k, n = (rng.randint(40, 120) for _ in range(3))
        ka, A = rand_matrix(rng, m, k, -9, 9)
        kb, Bm = rand_matrix(rng, k, n, -9, 9)
        km, M = rand_matrix(rng, m, n)
        paths = [base + s for s in (".a.mtx", ".b.mtx", ".m.mtx")]
        for p, (r, cc, e) in zip(paths, ((m, k, A), (k, n, Bm), (m, n, M))):
            write_mtx(p, rng, r, cc, e)
        C = masked_product(to_rows(A), to_rows(Bm), to_rows(M), False)
        # zero sums: +0.0 in every kernel, whatever the order of the terms
        nnz, ck_, _ = expected({i: {j: float(v) for j, v in r.items()} for i, r in C.items()}, m, "i", "d", False)
        thr = rng.choice([1, 2, 3, 4, 7, 8])
        tag = "m=%d k=%d n=%d A=%s/%d B=%s/%d M=%s/%d threads=%d expect nnz=%d %s" % (m, k, n, ka, len(A), kb, len(Bm), km, len(M), thr, nnz, base)

        def judge(log):
            fails, L = [], log_lines(log, ",")
            if not L:
                fails.append(("masked-all:no-result", tag))
            for x in L:
                if int(x[8]) != nnz or x[9] != ck_:
                    fails.append(("masked-all:" + x[2].replace(" ", "_"), "%s: nnz %s checksum %s, expected %s" % (tag, x[8], x[9], ck_)))
            return fails, stat(len(L), 1 if nnz else 0, counters={"algorithm runs": len(L), "masked-all inputs": 1, "entries": nnz * len(L)}, maxima={"entries": nnz}, samples=[tag])
        return paths + [str(thr)], {"INNER_ITERS": str(rng.choice([1, 1, 2]))}, judge, paths

    def make_compl(rng, i, base):
        n = rng.randint(40, 120) if i % 16 == 15 else rng.randint(1, 36)
        ka, A = rand_matrix(rng, n, n)
        path = base + ".mtx"
        write_mtx(path, rng, n, n, A)
        R = to_rows(A)
        nnz, ck_, s = expected(masked_product(R, R, R, True), n, "q", "Q", True)
        thr = rng.choice([1, 2, 3, 4, 7, 8])
        tag = "n=%d A=%s/%d threads=%d expect nnz=%d sum=%d %s" % (n, ka, len(A), thr, nnz, s, path)

        def judge(log):
            fails, L = [], log_lines(log, ",")
            if not L:
                fails.append(("complement-all:no-result", tag))
            for x in L:
                y = x[-3:]
                if int(y[-3]) != nnz or int(y[-2]) != s or y[-1] != ck_:
                    fails.append(("complement-all:" + "".join(x[2:-7]).replace(" ", "_"), "%s: nnz %s sum %s checksum %s, expected %s" % (tag, y[-3], y[-2], y[-1], ck_)))
            return fails, stat(len(L), 1 if nnz else 0, counters={"algorithm runs": len(L), "complement-masked-all inputs": 1, "entries": nnz * len(L)}, maxima={"entries": nnz}, samples=[tag])
        return [path, str(thr)], {"MODE": "all", "INNER_ITERS": str(rng.choice([1, 1, 2]))}, judge, [path]

    def both(i):
        return (make_masked, 0) if i % 2 else (make_compl, 1)
    total, at = c.n(120, 1000), c.n(24, 160)
    for i in range(total + at):
        mkfn, w = both(i)
        rng = rng_of(c, i)
        args, env, judge, inputs = mkfn(rng, i // 2, os.path.join(c.dir, "in%d" % i))
        exe = (ck if w else mk)[0 if i < total else 1]
        if i >= total:
            env = dict(env, **NOLEAK)
        c.add("case%d" % i, exe, [], argv=[exe] + args, env=env, cpus=1, timeout=100, judge=judge, inputs=inputs)
    c.run_all()


# ---- the product programs of sample/ ------------------------------------------
SAMPLES = ("GenMatrices HashSpGEMM HeapSpGEMM InnerSpGEMM MaskedHashSpGEMM MaskedSPASpGEMM OuterSpGEMM OuterSpGEMM2 NUMA-aware all_parallel_tc blocked_parallel_tc").split()


def rect(rng, rows, cols, nmax=60):
    """entries (i, j, v) of a rectangular matrix in random order; no duplicates, no zero values"""
    k = rng.random()
    if k < .15:
        E = {(rng.randrange(rows), rng.randrange(cols)) for _ in range(rng.randint(0, 3))}
    elif k < .55:
        p = rng.choice([1, 2, 4, 8]) / max(rows, cols)
        E = {(i, j) for i in range(rows) for j in range(cols) if rng.random() < p}
    elif k < .7:
        E = {(i, j) for i in range(rows) for j in range(cols) if rng.random() < .6} if rows * cols < 4000 else {(rng.randrange(rows), rng.randrange(cols)) for _ in range(3 * rows)}
    elif k < .85:    # hub rows and columns
        h, g = rng.randrange(rows), rng.randrange(cols)
        E = {(h, j) for j in range(cols)} | {(i, g) for i in range(rows)} | {(rng.randrange(rows), rng.randrange(cols)) for _ in range(rows)}
    else:            # a block, empty rows and columns elsewhere
        a, b = rng.randrange(rows), rng.randrange(cols)
        E = {(i, j) for i in range(a, min(rows, a + 6)) for j in range(b, min(cols, b + 9)) if rng.random() < .7}
    E = [(i, j, rng.randint(1, 9)) for i, j in E]
    rng.shuffle(E)
    return E


def mults(A, B):
    """(number of scalar products, pattern of A*B)"""
    R, n, pat = to_rows(B), 0, set()
    for i, k, _ in A:
        r = R.get(k, {})
        n += len(r)
        pat.update((i, j) for j in r)
    return n, pat


def p_samples(c):
    S = os.path.join(REPO, "sample")
    G = os.path.join(REPO, "GTgraph")
    ex = {}
    from .gens import SPRNG
    for san, s in (("plain", []), ("asan", list(ASAN))):
        cc = ["gcc", "-g1", "-w", "-O1", "-DAdd_", "-I%s/sprng2.0-lite/src" % G, "-I%s/sprng2.0-lite/include" % G]
        lib = [c.obj("%s/sprng2.0-lite/src/%s.c" % (G, f), compiler=cc) for f in SPRNG]
        lib += [c.obj("%s/R-MAT/%s.c" % (G, f), compiler=cc) for f in ("graph", "utils", "init", "globals")]
        lib += [c.obj("%s/PaRMAT/src/%s.cpp" % (REPO, f), compiler=["g++", "-std=c++17", "-O1", "-g1", "-w"]) for f in "Edge GraphGen_notSorted GraphGen_sorted Square utils".split()]
        for f in SAMPLES:
            o = c.obj("%s/%s.cpp" % (S, f), ["-O1", "-DCPP"] + s, tag="sample", optional=f != "HashSpGEMM")
            ex[san, f] = c.exe("%s_%s" % (f, san), [o] + lib, ["g++", "-fopenmp"] + s + ["-Wl,-z,muldefs", "-lgraphblas", "-lm", "-lpthread"], need=o)
    c.build()

    def num(log, pat):
        import re
        return [int(x) for x in re.findall(pat, log)]

    def one(i, san):
        rng = rng_of(c, i)
        f = SAMPLES[i % len(SAMPLES)]
        exe = ex[san, f]
        if not os.path.exists(exe):
            return
        d = os.path.join(c.dir, "s%d" % i)
        os.makedirs(os.path.join(d, "assets"))
        big = rng.random() < .08
        n, k, m = [rng.randint(1, 250 if big else rng.choice([4, 14, 40])) for _ in range(3)]
        t = rng.choice([1, 1, 2, 3, 4, 8])
        fails0, expect, args, cwd, extra = [], [], [], d, None

        def mat(name, r, q):
            E = rect(rng, r, q)
            write_mtx(os.path.join(d, name), rng, r, q, E)
            return E
        if f == "blocked_parallel_tc":
            g = rng.randint(1, 3)
            dims = [rng.randint(1, 12) for _ in range(g)]
            os.makedirs(os.path.join(d, "parts"))
            blk = [[mat("parts/splitmatrix_%d_%d.mtx" % (i + 1, j + 1), dims[i], dims[j]) for j in range(g)] for i in range(g)]
            fl, masked, tri = 0, 0, 0
            for a in range(g):
                for b in range(g):
                    for k_ in range(g):
                        p, pat = mults(blk[a][k_], blk[k_][b])
                        R = to_rows(blk[k_][b])
                        acc = {}
                        for x, y, v in blk[a][k_]:
                            for z, w in R.get(y, {}).items():
                                acc[x, z] = acc.get((x, z), 0) + v * w
                        M = {(x, y) for x, y, _ in blk[a][b]}
                        fl += 2 * p
                        masked += len(pat & M)
                        tri += sum(acc[x] for x in pat & M)
            args = ["parts", g, g]
            expect = [("flops", r"operations in SpGEMM \(A \* A\): (\d+)", [fl]), ("masked entries", r"masked nnz outputs in SpGEMM \(A \* A\): (\d+)", [masked]),
                      ("inner entries", r"masked nnz outputs in InnerProductSpGEMM \(A \* A\): (\d+)", [masked]), ("sum", r"triangles found by MaskedSpGEMM \(L \* L \.\* L\): (-?\d+)", [tri]),
                      ("inner", r"\nInnerSpGEMM returned with (\d+)", [masked]), ("spa", r"\nMaskedSPASpGEMM returned with (\d+)", [masked])]
            n, k, m, size = g, sum(dims), 0, fl
        elif f in ("MaskedHashSpGEMM", "all_parallel_tc"):
            Q = mat("Q.mtx", n, n)
            p, pat = mults(Q, Q)
            w = len(pat & {(a, b) for a, b, _ in Q})
            args = ["text", "Q.mtx", "Q.mtx", "x", t] if f == "MaskedHashSpGEMM" else ["Q.mtx", t]
            expect = [("flops", r"multiplication in SpGEMM \(A \* A\): (\d+)", [2 * p]), ("hash", r"mxm_hash_mask returned with (\d+)", [w])]
            expect += [("hash-wobin", r"mxm_hash_mask_wobin returned with (\d+)", [w])] if f == "MaskedHashSpGEMM" else [("spa", r"MaskedSPASpGEMM returned with (\d+)", [w]), ("dot", r"DotSpGEMM returned with (\d+)", [w])]
            size = w
        elif f in ("InnerSpGEMM", "MaskedSPASpGEMM"):
            A, B_, M = mat("A.mtx", n, k), mat("B.mtx", k, m), mat("M.mtx", n, m)
            p, pat = mults(A, B_)
            w = len(pat & {(a, b) for a, b, _ in M})
            args = ["A.mtx", "B.mtx", "M.mtx", t]
            expect = [("flops", r"multiplication in SpGEMM \(A \* A\): (\d+)", [2 * p])]
            expect += [("dot", r"DotSpGEMM returned with (\d+)", [w])] if f == "InnerSpGEMM" else [
                ("hash", r"\nHashSpGEMM returned with (\d+)", [len(pat)]), ("intersect", r"AB \*\. M has (\d+)", [w]), ("spa", r"MaskedSPASpGEMM returned with (\d+)", [w])]
            size = w
        else:
            gen = rng.random() < .2
            A, B_ = ([], []) if gen else (mat("A.mtx", n, k), mat("B.mtx", k, m))
            p, pat = mults(A, B_)
            size = len(pat)
            args = ["text", "A.mtx", "B.mtx", "x", t]
            if gen:
                args = ["gen", rng.choice(["rmat", "er"]), rng.randint(2, 6), rng.randint(1, 6), t]
                n = k = m = 1 << args[2]
                size = 1
            if f.startswith("Outer") or f == "NUMA-aware":
                args += [rng.choice([1, 2, 3, 8]), rng.choice([1, 16, 64, 512])]
            if f == "GenMatrices":
                name = "%s%s_%s.mtx" % tuple(args[1:4])

                def extra(log):
                    bad = []
                    for side, E, r, q in (("left", A, n, k), ("right", B_, k, m)):
                        try:
                            L = open(os.path.join(d, "assets/%s_%s" % (side, name))).read().split("\n")
                            body = [tuple(int(x) for x in l.split()) for l in L[1:] if l]
                        except (OSError, ValueError) as e:
                            bad.append(("sample:GenMatrices:file", "%s" % e))
                            continue
                        ents = body[1:]
                        if not L[0].startswith("%%MatrixMarket matrix coordinate pattern general") or body[0] != (r, q, len(ents)) or len(set(ents)) != len(ents) \
                           or any(not (1 <= x <= r and 1 <= y <= q) for x, y in ents) or (not gen and set(ents) != {(x + 1, y + 1) for x, y, _ in E}) or (gen and not 0 < len(ents) <= r * int(args[3])):
                            bad.append(("sample:GenMatrices:" + side, "%d lines, header %s for %d entries of %dx%d" % (len(ents), body[0], len(E), r, q)))
                    return bad
                expect = [] if gen else [("sizes", r"Left matrix has (\d+) nonzeros, right matrix has (\d+) nonzeros, nrows (\d+)", [(len(A), len(B_), n)])]
            elif gen:
                kern_ = {"HashSpGEMM": r"HashSpGEMM returned with (\d+)", "HeapSpGEMM": r"HeapSpGEMM returned with (\d+)"}.get(f, r"flops, returned with (\d+)")

                def extra(log):
                    fl, r = num(log, r"multiplication in SpGEMM \(A \* B\): (\d+)"), num(log, kern_)
                    ok = fl and r and fl[0] % 2 == 0 and all(x <= fl[0] // 2 and x <= n * n and (x > 0) == (fl[0] > 0) for x in r)
                    return [] if ok else [("sample:%s:generated" % f, "flops %s, entries %s" % (fl, r))]
            else:
                expect = [("flops", r"multiplication in SpGEMM \(A \* B\): (\d+)", [2 * p])]
                if f == "HashSpGEMM":
                    expect += [("entries", r"\nHashSpGEMM returned with (\d+)", [len(pat)])]
                elif f == "HeapSpGEMM":
                    expect += [("entries", r"\nHeapSpGEMM returned with (\d+)", [len(pat)])]
                else:
                    expect += [("entries", r"OuterSpGEMM generated (\d+) flops, returned with (\d+)", [(p, len(pat))])]
                if f == "NUMA-aware":
                    left = sum(1 for a in A if a[0] < n // 2)
                    expect += [("left", r"left non-zeros = (\d+)", [left]), ("right", r"right non-zeros = (\d+)", [len(A) - left])]
        args = [str(a) for a in args]
        tag = "%s %s dims=%dx%dx%d size=%d in %s" % (f, " ".join(args), n, k, m, size, d)

        def judge(log):
            import re
            bad, got = [], 0
            for what, pat_, want in expect:
                v = [x if isinstance(x, tuple) and len(x) > 1 else x for x in re.findall(pat_, "\n" + log)]
                v = [tuple(int(y) for y in x) if isinstance(x, tuple) else int(x) for x in v]
                got += len(v)
                if not v:
                    bad.append(("sample:%s:no-%s" % (f, what), tag))
                elif any(x != want[0] for x in v):
                    bad.append(("sample:%s:%s" % (f, what), "%s: reported %s, expected %s" % (tag, v, want[0])))
            if extra:
                bad += extra(log)
                got += 1
            return bad, stat(max(got, 1), 1 if size else 0, counters={"reported numbers": got, "runs": 1, "runs of " + f: 1}, maxima={"entries": size}, samples=[tag])
        env = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:handle_abort=1:malloc_context_size=12"} if san == "asan" else {}
        c.add("sample%d-%s" % (i, f), exe, [], argv=[exe] + args, env=env, cpus=2, timeout=100, judge=judge, cwd=cwd)
    for i in range(c.n(200, 1600)):
        one(i, "plain" if i // len(SAMPLES) % 3 else "asan")
    c.run_all()
