"""Checks of the graph generators and their concurrent queue."""
import os
import random
import re
import shutil

from .run import ASAN, CXX, TSAN, REPO, VERIF
from .drivers import NOLEAK, rng_of, stat

WRAPS = ",".join(["-Wl"] + ["--wrap=" + s for s in (
    "time", "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
    "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv")])
SAN = {"opt": (["-O2"], []), "asan": (["-O1"], ASAN), "tsan": (["-O1"], TSAN)}


def p_queue(c):
    ex = {}
    for n, (fl, san) in SAN.items():
        f = fl + san
        ex[n] = c.exe("q_" + n, [c.obj("harness/queue.cpp", f + ["-DPART=%d" % p]) for p in (0, 1, 2)] + [c.obj("harness/sched.cpp", f)],
                      ["g++"] + san + [WRAPS.replace("--wrap=time,", ""), "-lpthread"])
    c.build()
    for n, q, t in (("opt", 1500, 6000), ("asan", 900, 4000), ("tsan", 500, 2500)):
        for part in range(c.n(2, 6)):
            o = 100000 * (part + 1)
            c.add("%s-%d" % (n, part), ex[n], ["--from", o, "--cases", o + c.n(q, t)], cpus=2, timeout=800)
    c.run_all()


def sources(c, config=None):
    """the generator's sources; with other values of its compile-time configuration in a copy"""
    src = os.path.join(REPO, "PaRMAT/src")
    if config:
        dst = os.path.join(c.dir, "src_" + "_".join(config))
        shutil.copytree(src, dst)
        p = os.path.join(dst, "internal_config.hpp")
        s = open(p).read()
        for k in config:
            s, n = re.subn(r"(\b%s\s*=\s*)false" % k, r"\1true", s)
            if not n:
                c.notes.append("no switch %s" % k)
        open(p, "w").write(s)
        src = dst
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cpp") and f != "PaRMAT.cpp"), src


def p_parmat(c):
    other = ("USE_FUTURES_INSTEAD_OF_EXPLICIT_THREADS", "USE_A_MUTEX_TO_CONTROL_WRITE_TO_FILE_INSTEAD_OF_CONCURRENT_QUEUES")
    base, alt = sources(c), sources(c, other)
    cli = ["g++", "-g1", "-w", "-std=c++17"]
    ex = {}
    for cfg, (srcs, d) in (("", base), ("alt-", alt)):
        for n, (fl, san) in SAN.items():
            f = fl + san
            ex[cfg + n] = c.exe("p_" + cfg + n, [c.obj(s, compiler=cli + f) for s in srcs] + [c.obj("harness/parmat.cpp", f), c.obj("harness/sched.cpp", f)], ["g++"] + san + [WRAPS, "-lpthread"])
    prog = c.exe("PaRMAT", [c.obj(s, compiler=cli + ["-O1"] + ASAN) for s in base[0] + [os.path.join(base[1], "PaRMAT.cpp")]], ["g++"] + ASAN + ["-lpthread"])
    c.build()
    for i, (n, e) in enumerate(sorted(ex.items())):
        q, t = {"opt": (4000, 20000), "asan": (900, 5000), "tsan": (500, 3000)}[n.replace("alt-", "")]
        for part in range(c.n(1, 5)):
            o = 1000000 * (i + 1) + 100000 * part
            c.add("%s-%d" % (n, part), e, ["--from", o, "--cases", o + c.n(q, t)], cpus=2, timeout=800)
    for i in range(c.n(16, 120)):
        rng = rng_of(c, i)
        out = os.path.join(c.dir, "graph%d.txt" % i)
        E = rng.choice([1, 7, 500, 12000, 40000])
        self_, dup, dire, srt = (rng.random() < .5 for _ in range(4))
        N = rng.choice([1 << 15, 60000, 100003]) if not dup else max(int((3 * E) ** .5) + 2, rng.choice([5, 1000, 30000]))
        if not self_ and E >= 10000:
            N = max(N, 30000)
        args = ["-nEdges", str(E), "-nVertices", str(N), "-output", out, "-memUsage", "0.05"]
        if E < 10000 or rng.random() < .8:
            args += ["-threads", str(rng.choice([1, 2, 3, 8, 16]))]
        ab = rng.choice([(.45, .22, .22), (.25, .25, .25), (.57, .19, .19)])
        if rng.random() < .5:
            args += ["-a", str(ab[0]), "-b", str(ab[1]), "-c", str(ab[2])]
        args += ["-sorted"] * srt + ["-noEdgeToSelf"] * (not self_) + ["-noDuplicateEdges"] * (not dup) + ["-undirected"] * (not dire)

        def judge(log, out=out, E=E, N=N, self_=self_, dup=dup, dire=dire, srt=srt, args=args):
            fails, tag = [], " ".join(args)
            try:
                e = [tuple(map(int, l.split("\t"))) for l in open(out)]
                assert all(len(x) == 2 for x in e)
            except (OSError, ValueError, AssertionError) as x:
                return [("program:format", "%s: %r" % (tag, x))], stat(1, 0)
            if len(e) != E:
                fails.append(("program:count", "%s: %d edges" % (tag, len(e))))
            if any(not 0 <= v < N for x in e for v in x):
                fails.append(("program:range", tag))
            if not self_ and any(a == b for a, b in e):
                fails.append(("program:self", tag))
            if not dup and len(set(e)) != len(e):
                fails.append(("program:duplicate", tag))
            if not dire and any(a > b for a, b in e):
                fails.append(("program:undirected", tag))
            if srt and any(x[0] > y[0] for x, y in zip(e, e[1:])):
                fails.append(("program:order", tag))
            os.unlink(out)
            return fails, stat(1, 1 if E > 7 else 0, counters={"program runs": 1, "edges": len(e)}, samples=[tag])
        c.add("program%d" % i, prog, [], argv=[prog] + args, env=NOLEAK, cpus=2, timeout=100, judge=judge)
    c.run_all()


SPRNG = ("lcg/lcg lfg/lfg lcg64/lcg64 mlfg/mlfg cmrg/cmrg sprng/sprng primes_32 primes_64 fwrap_mpi cputime makeseed simple_mpi "
         "memory communicate checkid store").split()
UB = {"opt": (["-O2"], []), "asan": (["-O1"], ["-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=undefined"])}


def read_dimacs(path):
    head, edges = None, []
    for l in open(path):
        w = l.split()
        if not w or w[0] == "c":
            continue
        if w[0] == "p":
            assert head is None and w[1] == "sp" and len(w) == 4
            head = (int(w[2]), int(w[3]))
        else:
            assert w[0] == "a" and len(w) == 4 and head
            edges.append(tuple(int(x) for x in w[1:]))
    assert head and len(edges) == head[1]
    return head, edges


def p_gtgraph(c):
    G = os.path.join(REPO, "GTgraph")
    S = os.path.join(G, "sprng2.0-lite")
    inc = ["-I%s/src" % S, "-I%s/include" % S]
    ex, prog = {}, {}
    for san, (fl, s) in UB.items():
        cc = ["gcc", "-g1", "-w", "-DAdd_"] + fl + s + inc
        lib = [c.obj("%s/src/%s.c" % (S, f), compiler=cc) for f in SPRNG]
        for k, d in enumerate(("R-MAT", "random", "SSCA2"), 1):
            own = [c.obj("%s/%s/%s.c" % (G, d, f), compiler=cc) for f in ("graph", "utils", "init", "globals")]
            ex[san, d] = c.exe("%s_%s" % (d, san), own + lib + [c.obj("harness/gtgraph.cpp", fl + s + ["-DGEN=%d" % k, "-I%s/include" % S])],
                               ["g++"] + s + ["-Wl,--wrap=init_rng,--wrap=get_rn_dbl,--wrap=get_rn_int", "-lm"])
            if san == "asan":
                prog[d] = c.exe("%s_program" % d, own + lib + [c.obj("%s/%s/drive.c" % (G, d), compiler=cc)], ["g++"] + s + ["-lm"])
    c.build()
    for i, ((san, d), e) in enumerate(sorted(ex.items())):
        q, t = {"opt": (900, 8000), "asan": (250, 1500)}[san]
        for part in range(c.n(1, 4)):
            o = 1000000 * (i + 1) + 100000 * part
            c.add("%s-%s-%d" % (d, san, part), e, ["--from", o, "--cases", o + c.n(q, t)], cpus=1, timeout=800)
    for i in range(c.n(30, 240)):
        rng = rng_of(c, i)
        d = ("R-MAT", "random", "SSCA2")[i % 3]
        wd = os.path.join(c.dir, "graph%d" % i)
        os.makedirs(wd)
        conf, args, want = rng.random() < .5, [], {}
        name = rng.choice(["out.gr", "g", "x" * 20])
        n, m = rng.randrange(2, 600), rng.randrange(0, 4000)
        lo, width, self_, srt = rng.choice([0, 0, 7, 1000]), rng.choice([0, 1, 50, 100000]), rng.random() < .5, rng.randrange(3)
        lines = []
        if d == "SSCA2":
            scale = rng.randrange(3, 10)
            want["n"], width = 1 << scale, max(width, 1)
            if conf:
                lines = ["SCALE %d" % scale, "MinWeight %d" % lo, "MaxWeight %d" % (lo + width), "MaxParallelEdges %d" % rng.randrange(1, 4),
                         "ProbUnidirectional %.2f" % rng.random(), "ProbIntercliqueEdges 0.0"]
                if rng.random() < .5:
                    want["clique"] = rng.randrange(2, 12)
                    lines.append("MaxCliqueSize %d" % want["clique"])
                else:
                    want["clique"] = int(2 ** (scale / 3.0) + 1e-9)
                head, tail = lines[:1], lines[1:]
                rng.shuffle(tail)
                lines = head + tail
            else:
                args = [["-s", str(scale)]]
                lo, width = 0, 1 << scale
            self_ = False
        else:
            want["n"] = n
            model = 1 if d == "R-MAT" else rng.randrange(2)
            if model:
                want["m"] = m
            p = rng.random() ** 3
            if conf:
                lines = ["n %d" % n, "m %d" % m, "SELF_LOOPS %d" % self_, "MIN_WEIGHT %d" % lo, "MAX_WEIGHT %d" % (lo + width),
                         "STORE_IN_MEMORY %d" % (1 if srt else rng.randrange(2))]
                lines += ["GRAPH_MODEL %d" % model, "p %f" % p] if d == "random" else ["a 0.4", "b 0.2", "c 0.25", "d 0.15"]
                rng.shuffle(lines)
            else:
                args = [["-n", str(n)], ["-m", str(m)]] if model else [["-n", str(n)], ["-p", "%f" % p]]
                lo, width, self_ = 0, 100, False
        if conf:
            lines += ["SORT_EDGELISTS %d" % (srt > 0), "SORT_TYPE %d" % (srt == 2), "WRITE_TO_FILE 1"]
            for extra in ("# a comment", "", "an_unknown_word_of_more_than_thirty_one_characters 3", "unknown 4"):
                if rng.random() < .5:
                    lines.insert(rng.randrange(len(lines) + 1), extra)
            open(os.path.join(wd, "conf"), "w").write("\n".join(lines) + "\n")
            args = [["-o", name], ["-c", "conf"]] if rng.random() < .5 else [["-c", "conf"], ["-o", name]] if rng.random() < .7 else [["-c", "conf"]]
            if len(args) == 1:
                name = "sample.gr"
        else:
            srt = 1     # the default
            args.append(["-o", name])
            if d == "SSCA2" or d == "R-MAT":
                rng.shuffle(args)
            if d == "random":
                args = [["-t", str(model)]] + args
        argv = [prog[d]] + sum(args, [])

        def judge(log, wd=wd, name=name, want=want, lo=lo, hi=lo + width, self_=self_, srt=srt, d=d, tag=d + " " + " ".join(argv[1:]) + (" : " + "; ".join(lines) if conf else "")):
            fails, e, head = [], [], (0, 0)
            try:
                head, e = read_dimacs(os.path.join(wd, name))
            except (OSError, ValueError, AssertionError) as x:
                fails.append(("program:file", "%s: %r" % (tag, x)))
            else:
                if head[0] != want["n"]:
                    fails.append(("program:vertices", "%s: %d" % (tag, head[0])))
                if head[1] != want.get("m", head[1]):
                    fails.append(("program:edges", "%s: %d" % (tag, head[1])))
                if any(not 1 <= v <= want["n"] for x in e for v in x[:2]):
                    fails.append(("program:range", tag))
                if not self_ and any(x[0] == x[1] for x in e):
                    fails.append(("program:self", tag))
                if any(not (lo <= x[2] < hi or x[2] == lo == hi) for x in e):
                    fails.append(("program:weight", tag))
                if srt and any(x[0] > y[0] for x, y in zip(e, e[1:])):
                    fails.append(("program:order", tag))
                if "clique" in want:
                    deg = {}
                    for u, v in {(min(x[:2]), max(x[:2])) for x in e}:
                        deg[u] = deg.get(u, 0) + 1
                        deg[v] = deg.get(v, 0) + 1
                    if deg and max(deg.values()) > want["clique"] - 1:
                        fails.append(("program:clique", "%s: degree %d" % (tag, max(deg.values()))))
            shutil.rmtree(wd, ignore_errors=True)
            return fails, stat(1, 1 if len(e) > 2 else 0, counters={"program runs": 1, "edges": len(e)}, samples=[tag])
        c.add("program%d" % i, prog[d], [], argv=argv, cwd=wd, cpus=1, timeout=100, judge=judge)
    c.run_all()


def p_sprng(c):
    S = os.path.join(REPO, "GTgraph/sprng2.0-lite")
    inc = ["-I%s/src" % S, "-I%s/include" % S]
    ex = {}
    for san, (fl, s) in UB.items():
        cc = ["gcc", "-g1", "-w", "-DAdd_"] + fl + s + inc
        ex[san] = c.exe("sprng_" + san, [c.obj("%s/src/%s.c" % (S, f), compiler=cc) for f in SPRNG] + [c.obj("harness/sprng.cpp", fl + s + ["-I%s/include" % S])],
                        ["g++"] + s + ["-lm"])
    c.build()
    data = ["--data", os.path.join(VERIF, "harness/sprng")]
    for san, q, t, parts in (("asan", 300, 4000, 3), ("opt", 500, 8000, 4)):
        for part in range(parts):
            o = 1000000 * (san == "opt") + 100000 * part
            c.add("%s-%d" % (san, part), ex[san], ["--from", o, "--cases", o + c.n(q, t)] + data, cpus=1, timeout=850)
    c.run_all()
