"""Check driver: compiles harnesses against /repo's working tree, runs them under
sanitizers / monitors with a watchdog, turns their observations into a verdict,
a replay file and an evidence file.

Verdicts: held (exit 0), violated (exit 1 + VIOLATION line), inconclusive (exit 2).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
STALL = 120.0      # seconds on one case before a run counts as hung
GRACE = 60.0       # seconds the remaining runs still get once one has shown a violation
MEMORY = 4 << 30   # resident bytes of one run beyond which it counts as growing without bound (the largest run here stays below 2 GB)


def resident(pid):
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


INC = ["-I" + REPO, "-I" + REPO + "/GTgraph/R-MAT", "-I" + REPO + "/GTgraph/sprng2.0-lite/include",
       "-I" + VERIF + "/harness", "-I" + VERIF]
CXX = ["g++", "-g1", "-w", "-std=c++17", "-fopenmp", "-DCPP", "-include", "cstdint"] + INC
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread"]

PRECIOUS_ENV = {"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "OMP_PROC_BIND": "false", "OMP_NUM_THREADS": "8", "MALLOC_PERTURB_": "165"}


class Inconclusive(Exception):
    pass


class Run:
    def __init__(self, name, exe, args, env=None, timeout=240, cpus=4, known=None, cwd=None, kind="plain", argv=None, stats=True, judge=None, inputs=(), prefix=""):
        self.judge, self.inputs = judge, list(inputs)   # judge(log) -> (failures [(key, detail)], statistics)
        self.name, self.exe, self.args = name, exe, [str(a) for a in args]
        self.env, self.timeout, self.cpus, self.cwd, self.kind = env or {}, timeout, cpus, cwd, kind
        self.argv, self.stats, self.prefix = argv, stats, prefix    # prefix of the finding keys of a run on one specific input


class Check:
    def __init__(self, pid, tier, seed, rule, assumptions=(), level="exploration"):
        self.pid, self.tier, self.seed, self.rule, self.level = pid, tier, seed, rule, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.jobs, self.links, self.runs = {}, [], []
        self.violations, self.known_hits, self.notes, self.incon = [], {}, [], []
        self.stats, self.runinfo, self.extra = [], [], {}
        self.known = load_known()
        self.lock, self.cclock = threading.Lock(), threading.Lock()
        self.hung, self.failed, self.fattest = False, None, (0, "")
        self.optional_missing = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building -----------------------------------------------------------
    def obj(self, src, flags=(), compiler=None, tag="", optional=False):
        """schedule one compilation; returns the object path"""
        src = src if os.path.isabs(src) else os.path.join(VERIF, src)
        cmd = list(compiler or CXX) + list(flags)
        key = (src, tuple(cmd), tag)
        if key in self.jobs:
            return self.jobs[key][0]
        out = os.path.join(self.dir, "%s_%d.o" % (re.sub(r"\W", "_", os.path.basename(src)), len(self.jobs)))
        self.jobs[key] = (out, cmd + ["-c", src, "-o", out], optional)
        return out

    def exe(self, name, objs, link, need=None):
        """schedule one link; without the object `need` (an optional one that does not compile) there is no executable"""
        out = os.path.join(self.dir, name)
        self.links.append((out, list(objs), list(link), need))
        return out

    def _cc(self, cmd):
        for again in (True, False):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir)
            out = p.stdout.decode("utf8", "replace")
            if again and p.returncode and (p.returncode < 0 or "Killed signal" in out):
                with self.cclock:           # the machine ran out of memory: once more, one at a time
                    time.sleep(2)
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir)
                    out = p.stdout.decode("utf8", "replace")
            if not p.returncode or p.returncode > 0 and "Killed signal" not in out:
                break
        return p.returncode, out

    def build(self):
        bad = set()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            todo = [(o, opt, ex.submit(self._cc, cmd), cmd) for (o, cmd, opt) in self.jobs.values() if not os.path.exists(o)]
            for o, opt, f, cmd in todo:
                rc, out = f.result()
                if rc:
                    if opt:
                        bad.add(o)
                        self.optional_missing.append(os.path.basename(o))
                        self.notes.append("optional probe did not compile: " + " ".join(cmd[-3:]) + ": " + out.strip().splitlines()[0][:200] if out.strip() else "?")
                    else:
                        raise Inconclusive("compilation failed: %s\n%s" % (" ".join(cmd), out[-3000:]))
            todo = []
            for out, objs, link, need in self.links:
                if os.path.exists(out) or need in bad:
                    continue
                objs = [o for o in objs if o not in bad]
                todo.append((out, link, ex.submit(self._cc, link[:1] + objs + link[1:] + ["-o", out])))
            for out, link, f in todo:
                rc, msg = f.result()
                if rc:
                    raise Inconclusive("link failed: %s\n%s" % (out, msg[-3000:]))
        if os.environ.get("VERIF_DEBUG"):
            print("build", round(time.time() - self.t0, 1))
        self.build_s = round(time.time() - self.t0, 1)

    # ---- running ------------------------------------------------------------
    def add(self, *a, **k):
        r = Run(*a, **k)
        self.runs.append(r)
        return r

    def _env(self, r):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        env.update(PRECIOUS_ENV)
        env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12"
        env["LSAN_OPTIONS"] = "exitcode=78:report_objects=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=79"
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=76:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1"
        env.update(r.env)
        return env

    def _exec(self, r, n):
        wd = os.path.join(self.dir, "run_%s_%d" % (re.sub(r"\W", "_", r.name), n))
        os.makedirs(wd, exist_ok=True)
        out, cur = os.path.join(wd, "stats.json"), os.path.join(wd, "cur")
        if r.argv is not None:
            argv = r.argv
        else:
            argv = [r.exe, "--seed", str(self.seed), "--tier", self.tier, "--out", out, "--cur", cur] + r.args
        log = os.path.join(wd, "log")
        t0 = time.time()
        with open(log, "wb") as lf:
            p = subprocess.Popen(argv, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=self._env(r), cwd=r.cwd or wd, start_new_session=True)
            timed, seen, since, mem, fat = False, None, t0, 0, False
            while True:
                try:
                    rc = p.wait(timeout=.25)
                    break
                except subprocess.TimeoutExpired:
                    now = time.time()
                    mem = max(mem, resident(p.pid))
                    if self.late():
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return dict(stopped=True, timed=False, fat=False, log="", rc=0, case="", stats=None, argv=argv, wall=now - t0)
                    if mem > MEMORY:
                        fat = True
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
                    try:
                        c = open(cur, "rb").read(512)
                    except OSError:
                        c = b""
                    if c != seen or not c.strip(b"\0"):
                        seen, since = c, now
                    # cases take milliseconds to seconds: one that is still the current one after this long hangs
                    if now - t0 > r.timeout or now - since > (STALL if n == 0 else STALL / 2):
                        timed = True
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        with open(log, "rb") as lf:
            data = lf.read(40 << 20).decode("utf8", "replace")
        st = None
        try:
            st = json.load(open(out))
        except (OSError, ValueError):
            pass
        case = ""
        try:
            case = open(cur, "rb").read(512).split(b"\n")[0].split(b"\0")[0].decode("utf8", "replace")
        except OSError:
            pass
        self.fattest = max(self.fattest, (mem, r.name))
        return dict(argv=argv, rc=rc, fat=fat, timed=timed, log=data, stats=st, case=case, wall=time.time() - t0)

    def _one(self, r):
        d = self._exec(r, 0)
        if re.search(r"FATAL: ThreadSanitizer: unexpected memory mapping", d["log"]) and shutil.which("setarch"):
            keep = r.argv
            for _ in range(2):
                r.argv = ["setarch", "-R"] + d["argv"]
                d = self._exec(r, 0)
            r.argv = keep
        if "LeakSanitizer has encountered a fatal error" in d["log"]:
            with self.lock:
                note = "LeakSanitizer cannot run here (ptrace refused): leaks are judged by the allocation counters only"
                if note not in self.notes:
                    self.notes.append(note)
            r.env = dict(r.env)
            r.env["ASAN_OPTIONS"] = self._env(r)["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
            d = self._exec(r, 0)
        if d["rc"] == -9 and not d["timed"] and not d["fat"]:
            d = self._exec(r, 1)           # ended from outside, when the machine ran out of memory: once more
        if d["timed"]:
            first = d["case"]
            d = self._exec(r, 1)           # a busy machine is no violation: run once more
            if d["timed"] and (first == d["case"] or not first):
                self.hung = True           # settled: the remaining runs would only repeat the wait
        return r, d

    def run_all(self):
        if not self.runs:
            return
        # a simple CPU-budget scheduler
        cond = threading.Condition()
        free = [NCPU]

        def go(r):
            need = min(r.cpus, NCPU)
            with cond:
                while free[0] < need:
                    cond.wait()
                free[0] -= need
            try:
                return (r, None) if self.hung or self.late() else self._one(r)
            finally:
                with cond:
                    free[0] += need
                    cond.notify_all()
        runs, self.runs = self.runs, []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in cf.as_completed([ex.submit(go, r) for r in runs]):
                r, d = f.result()
                if d is None or d.get("stopped"):
                    self.notes.append("%s: not finished, another run has failed already" % r.name)
                else:
                    self._judge(r, d)
                    if self.violations and self.failed is None:
                        self.failed = time.time()

    def late(self):
        """a violation is settled and the other runs had GRACE seconds more: they cannot change the verdict"""
        return self.failed is not None and time.time() - self.failed > GRACE

    def violation(self, key, detail, replay):
        for k, txt in self.known:
            if re.search(k, key):
                self.known_hits[k] = txt
                return
        self.violations.append(dict(key=key, detail=detail, replay=replay))

    def _judge(self, r, d):
        n = len(self.violations)
        hold, self.known = self.known, [] if r.prefix else self.known
        self._judge1(r, d)
        self.known = hold
        if r.prefix:
            new, self.violations = self.violations[n:], self.violations[:n]
            for v in new:
                self.violation(r.prefix + v["key"], v["detail"], v["replay"])

    def _judge1(self, r, d):
        rep = dict(run=r.name, argv=d["argv"], env=r.env, case=d["case"], rc=d["rc"], cwd=r.cwd)
        nf = 0
        for m in re.finditer(r"^FAIL key=(\S+) case=\[(.*?)\] detail=(.*)$", d["log"], re.M):
            nf += 1
            rp = dict(rep, case=m.group(2))
            self.violation(m.group(1), m.group(2) + " :: " + m.group(3)[:400], rp)
        sans = parse_sanitizers(d["log"])
        for key, text in sans:
            rp = dict(rep, report=text[:6000])
            self.violation(key + sep(alg_of(d["case"])) if not key.startswith("race") else key, (d["case"] + " :: " + text.splitlines()[0])[:500], rp)
        if d["timed"]:
            self.violation("hang" + sep(alg_of(d["case"]) or r.name), "no progress for %ds, twice; %s" % (d["wall"], d["case"]), rep)
        elif d["fat"]:
            self.violation("memory" + sep(alg_of(d["case"]) or r.name), "more than %d MB resident; %s" % (MEMORY >> 20, d["case"]), rep)
        elif d["rc"] < 0 and not sans:
            tail = d["log"][-600:]
            self.violation("crash:sig%d" % -d["rc"] + sep(alg_of(d["case"]) or r.name), d["case"] + " :: " + tail.replace("\n", " | "), dict(rep, report=d["log"][-4000:]))
        elif d["rc"] not in (0, 3) and not sans:
            self.violation("exit%d" % d["rc"] + sep(alg_of(d["case"]) or r.name), d["case"] + " :: " + d["log"][-600:].replace("\n", " | "), dict(rep, report=d["log"][-4000:]))
        elif d["rc"] == 3 and nf == 0 and not sans:
            self.incon.append("%s: exit 3 without a report" % r.name)
        if r.judge and d["rc"] == 0 and not d["timed"] and not sans:
            fails, d["stats"] = r.judge(d["log"])
            for key, det in fails:
                txt = {os.path.basename(p): open(p).read()[:200000] for p in r.inputs if os.path.exists(p)}
                self.violation(key, det, dict(rep, inputs=txt, output=d["log"][-4000:]))
        if d["stats"]:
            self.stats.append((r.name, d["stats"]))
            if d["stats"].get("evaluations", 0) == 0:
                self.incon.append("%s observed nothing" % r.name)
        elif d["rc"] in (0, 3) and r.stats:
            self.incon.append("%s wrote no statistics" % r.name)
        self.runinfo.append(dict(run=r.name, wall_s=round(d["wall"], 1), rc=d["rc"],
                                 evaluations=(d["stats"] or {}).get("evaluations", 0)))

    # ---- verdict ------------------------------------------------------------
    def finish(self):
        ev, dn = 0, 0
        self.stats.sort(key=lambda s: s[0])
        self.runinfo.sort(key=lambda s: s["run"])
        counters, maxima, distinct, samples = {}, {}, {}, []
        for name, s in self.stats:
            ev += s["evaluations"]
            dn += s["distinct_nontrivial"]
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in s["maxima"].items():
                maxima[k] = max(maxima.get(k, 0), v)
            for k, v in s["distinct"].items():
                distinct[k] = max(distinct.get(k, 0), v)
            samples += [name + ": " + x for x in s["samples"][:3]]
        cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=self.rule, samples=samples[:16],
                   observed=counters, maxima=maxima, distinct_seen_per_run_max=distinct, runs=self.runinfo,
                   build_s=getattr(self, "build_s", None))
        cov.update(self.extra)
        cov["largest_resident_mb"] = [self.fattest[0] >> 20, self.fattest[1]]
        if self.notes:
            cov["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if self.known_hits:
            e["coverage"]["known_findings_seen"] = sorted(self.known_hits)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        for k, txt in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            seen = {}
            for v in self.violations:
                seen.setdefault(v["key"], v)
            for i, (k, v) in enumerate(sorted(seen.items())[:12]):
                path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.pid, self.tier, i))
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, key=k, detail=v["detail"], **v["replay"]), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  key=%s %s" % (k, v["detail"][:300]))
            return 1
        if self.incon:
            print("INCONCLUSIVE property=%s %s" % (self.pid, "; ".join(self.incon)))
            return 2
        print("held property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.pid, ev, dn, time.time() - self.t0))
        return 0


def sep(s):
    return ":" + s if s else ""


def alg_of(case):
    m = re.search(r"\balg=(\S+)", case or "")
    return m.group(1) if m else ""


def load_known():
    """lines 'KNOWN-FINDING: property=Pxx key=<regex> <text>' of known_findings.txt"""
    res = []
    pid = os.environ.get("VERIF_PID", "")
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return res


FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S+?):(\d+)(?::\d+)?(?: \(.*\))?$", re.M)


def top_frames(block):
    """repository frames of a report: (function without template arguments, file)"""
    res = []
    for m in FRAME.finditer(block):
        fn, path = m.group(1), m.group(2)
        if not path.startswith(REPO + "/"):
            continue
        fn = re.sub(r"<.*", "", fn.split("(")[0]).strip().split(" ")[-1]
        res.append("%s@%s" % (fn or "?", path[len(REPO) + 1:]))
    return res


def parse_sanitizers(log):
    out = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.+?) \(pid=\d+\)(.*?)={18}", log, re.S):
        fr = top_frames(m.group(2))
        out.append(("race:%s:%s" % (m.group(1).strip().replace(" ", "-"), (fr or ["?"])[0]), m.group(0)))
    for m in re.finditer(r"ERROR: AddressSanitizer:? (.+?)(?: on | \(pid|\n)(.*?)(?=\n=====|\Z)", log, re.S):
        kind = re.sub(r"\W+", "-", m.group(1).strip().split(" ")[0] if not m.group(1).startswith("attempting") else m.group(1).strip())
        out.append(("asan:%s:%s" % (kind, (top_frames(m.group(2)) or ["?"])[0]), m.group(0)))
    for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.+)$", log, re.M):
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))
        kind = re.sub(r"\W+", "-", kind)[:50]
        p = m.group(1)
        out.append(("ubsan:%s:%s" % (kind, p[len(REPO) + 1:] if p.startswith(REPO) else os.path.basename(p)), log[m.start():m.start() + 2500]))
    for m in re.finditer(r"ERROR: LeakSanitizer: detected memory leaks(.*)", log, re.S):
        seen = set()
        for b in re.finditer(r"(Direct|Indirect) leak of .*?(?=\n\n|\Z)", m.group(1), re.S):
            fr = top_frames(b.group(0))
            k = "leak:" + (fr or ["?"])[0]
            if b.group(1) == "Direct" and k not in seen:
                seen.add(k)
                out.append((k, b.group(0)))
        if not seen:
            out.append(("leak:?", m.group(0)[:2000]))
    # the same report over and over is one finding
    uniq = {}
    for k, t in out:
        uniq.setdefault(k, t)
    return sorted(uniq.items())
