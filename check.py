#!/usr/bin/env python3
"""Run the monitor of one property against /repo's working tree.

    check.py <ID> [quick|thorough]      run the check (tier from VERIF_TIER otherwise)
    check.py --replay <file>            re-run the single recorded case, verbosely

Exit 0: held on everything explored (known findings are printed, not raised).
Exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
Exit 2: the check itself could not give an answer (build failure, no progress, ...).
"""
import sys, os, json, subprocess, tempfile, shutil, time, glob, re, struct, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
CXX = os.environ.get("VERIF_CXX", "/usr/bin/clang++")
STALL = 90          # seconds one case may take before it is suspected of not terminating
BUDGET = {"quick": 780, "thorough": 6 * 3600}

BASE = ["-std=c++20", "-include", "optional", "-include", "iostream", "-w"]
VARIANTS = {
    # every memory access, integer operation, shift, enum/bool load and alignment monitored
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # the optimisation level and flags the repository itself builds with
    "rel": ["-O3", "-g1"],
    # every pair of unordered accesses to the same memory from different threads monitored
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-pthread"],
    # run under valgrind: the definedness of every bit followed from allocation to use (no optimisation, so that no
    # branch is speculated on a value the program does not look at)
    "mem": ["-O0", "-g1"],
    # what `san` watches, and also conversions of floating point numbers to integers that cannot hold them, accesses to
    # arrays by computed index, and the validity of every iterator of the standard containers
    "ub": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow,local-bounds",
           "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"],
}
PREFIX = {"mem": ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--max-stackframe=16000000"]}
# Variants in which the monitors of other properties are run again ("borrowed"): all their suites in one process.
BORROW = {"tsan": ["--mix", "4"], "mem": [], "ub": []}
# long double is emulated with 64 bits under valgrind, so that only its own reports count there, and not the oracles
ORACLE_BLIND = {"mem"}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:max_allocation_size_mb=4096",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "LC_ALL": "C",
}
REL_SCALE = 4
# What counts when monitors of other properties are run again; anything else is for the property they belong to.
BORROWED_SIG = {"tsan": ("tsan-data-race", "tsan-heap-use-after-free"), "mem": ("memcheck-undefined",), "ub": ("asan-", "ubsan", "iterator", "killed-by-signal")}
# seconds of borrowed suites: altogether for each thread under tsan, for each suite otherwise
BORROWED_TIME = {"tsan": 7, "mem": 1.2, "ub": 1}
BORROWED_TIME_THOROUGH = {"tsan": 600, "mem": 60, "ub": 60}

def log(*a): print(*a, file=sys.stderr, flush=True)

def sources(pid):
    d = os.path.join(VERIF, "harness", pid)
    src = sorted(glob.glob(d + "/*.cpp"))
    if not src: raise SystemExit("no harness for " + pid)
    rsrc = sorted(glob.glob(REPO + "/geomc/**/*.cpp", recursive=True))
    return src, rsrc

# Sources named *.multi.cpp are compiled, together with the library, once for each of these, into a shared object of its own
# which the monitor loads.
BUILDS = {"clang_O0": ["/usr/bin/clang++", "-O0", "-ftrivial-auto-var-init=pattern"], "clang_O2": ["/usr/bin/clang++", "-O2"], "clang_O3": ["/usr/bin/clang++", "-O3"],
          "gcc_O0": ["/usr/bin/g++", "-O0", "-ftrivial-auto-var-init=zero"], "gcc_O3": ["/usr/bin/g++", "-O3"]}

def build(pid, work, variants, borrow=()):
    jobs, objs, shared = [], {}, {}
    made = set()
    for w in [(v, pid) for v in variants] + [(v, b) for v in variants if v in BORROW for b in borrow]:
        v, name = w[0], w[0] if w[1] == pid else w[0] + ":" + w[1]
        objs[name] = []
        src, rsrc = sources(w[1])
        multi = [s for s in src if s.endswith(".multi.cpp")]; src = [s for s in src if s not in multi]
        for b, cc in BUILDS.items() if multi else []:
            shared[os.path.join(work, "multi-" + b + ".so")] = (cc, os_ := [])
            for s in multi + rsrc:
                o = os.path.join(work, v + "-" + b + "-" + re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".o")
                os_.append(o)
                jobs.append((cc + BASE + ["-fPIC", "-fvisibility=hidden", "-I" + REPO, "-I" + VERIF + "/harness", "-c", s, "-o", o], s in multi, s))
        for s in src + [VERIF + "/harness/main.cpp"] + rsrc:
            o = os.path.join(work, v + "-" + re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".o")
            objs[name].append(o)
            if o in made: continue
            made.add(o)
            jobs.append(([CXX] + BASE + VARIANTS[v] + ["-DVH_VARIANT_" + v.upper(), "-I" + REPO, "-I" + VERIF + "/harness", "-c", s, "-o", o], s in src, s))
    jobs.sort(key=lambda j: not j[1])
    def one(j):
        r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return (j[2], r.returncode, r.stdout, j[0])
    with ThreadPoolExecutor(JOBS) as ex:
        for s, rc, out, cmd in ex.map(one, jobs):
            if rc != 0:
                log("BUILD FAILED:", s); log(out[:6000]); return None
    for so, (cc, os_) in shared.items():
        r = subprocess.run(cc[:1] + ["-shared", "-Wl,-Bsymbolic"] + os_ + ["-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log("LINK FAILED"); log(r.stdout[-6000:]); return None
    bins = {}
    for v in objs:
        b = os.path.join(work, "mon-" + v.replace(":", "-"))
        r = subprocess.run([CXX] + VARIANTS[v.split(":")[0]] + objs[v] + ["-o", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log("LINK FAILED"); log(r.stdout[-6000:]); return None
        bins[v] = b
    return bins

def crash_sig(text, rc):
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", text)
    kind = None
    if m: kind = "asan-" + m.group(1)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", text)
        if m: kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"==\d+== (.*uninitialised.*|Invalid .*|Mismatched .*|.*overlap.*)", text)
        if m: kind = ("memcheck-undefined: " if "uninit" in m.group(1) else "memcheck: ") + m.group(1)
    if not kind:
        m = re.search(r"Error: (attempt to .*|.*iterator.*)", text)
        if m: kind = "iterator: " + m.group(1)[:100]
    if not kind:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            msg = m.group(1)
            msg = re.sub(r"0x[0-9a-fA-F]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "#", msg)
            kind = "ubsan: " + msg[:100]
    if not kind:
        kind = "killed-by-signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    return kind

class Runner:
    def __init__(self, pid, tier, seed, work, bins):
        self.pid, self.tier, self.seed, self.work, self.bins = pid, tier, seed, work, bins
        self.deadline = time.time() + BUDGET[tier]
        self.results, self.fails, self.inconclusive, self.foreign = [], [], [], []
        self.lock = threading.Lock()

    def vseed(self, v): return self.seed if v == "san" else self.seed + 1000003

    def command(self, v, suite, frm, to):
        base = v.split(":")[0]
        cmd = PREFIX.get(base, []) + [self.bins[v], "--from", str(frm), "--seed", str(self.vseed(v)), "--scale", str(REL_SCALE if v == "rel" else 1)]
        if ":" in v or (base == "mem"): cmd += ["--time", str((BORROWED_TIME_THOROUGH if self.tier == "thorough" else BORROWED_TIME)[base])]
        if ":" in v: return cmd + BORROW[base]
        return cmd + ["--suite", suite]

    def run_once(self, v, suite, frm, to, stall, tag):
        st = os.path.join(self.work, "st-" + tag); out = os.path.join(self.work, "out-" + tag); err = os.path.join(self.work, "err-" + tag)
        for p in (st, out):
            if os.path.exists(p): os.remove(p)
        cmd = self.command(v, suite, frm, to) + ["--state", st, "--out", out]
        if to is not None: cmd += ["--to", str(to)]
        if self.tier == "thorough": cmd.append("--thorough")
        env = dict(os.environ); env.update(SAN_ENV)
        with open(err, "wb") as e:
            p = subprocess.Popen(cmd, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=env, cwd=self.work)
            last, t_last, status, t0 = None, time.time(), None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.25); break
                except subprocess.TimeoutExpired: pass
                cur = self.state(st)
                if cur != last: last, t_last = cur, time.time()
                if time.time() - t_last > stall: status = "stall"
                elif time.time() > self.deadline: status = "budget"
                elif os.path.getsize(err) > 50_000_000: status = "output"
                if status:
                    p.kill(); p.wait(); rc = None; break
        with open(err, "rb") as e:
            text = e.read(200000).decode("utf8", "replace")
        data = None
        if rc == 0:
            try: data = json.load(open(out))
            except Exception as ex: rc = 98; text += "\nno result: %r" % ex
        return rc, status, self.state(st), text, data

    @staticmethod
    def state(st):
        try:
            b = open(st, "rb").read(24)
            return struct.unpack("<QQQ", b)
        except Exception: return None

    def suite(self, job):
        v, suite, n = job
        tag = re.sub(r"\W", "_", v + "-" + suite)
        frm, crashes = 0, 0
        while True:
            rc, status, state, text, data = self.run_once(v, suite, frm, None, STALL, tag)
            if rc == 0:
                with self.lock:
                    self.results.append((v, suite, data))
                    for f in data["fails"] if v.split(":")[0] not in ORACLE_BLIND and not v.startswith("ub:") else []:
                        self.fails.append(dict(variant=v, suite=suite, index=f["index"], what=f["what"], msg=f["msg"], count=data["fail_counts"].get(f["what"], 1)))
                return
            idx = state[0] if state else 0
            if status == "stall":
                rc2, status2, _, text2, _ = self.run_once(v, suite, idx, idx + 1, STALL, tag + "-re")
                if status2 == "stall":
                    with self.lock: self.fails.append(dict(variant=v, suite=suite, index=idx, what="does-not-terminate", msg="case made no progress for %d s, twice" % STALL, count=1))
                else:
                    with self.lock: self.inconclusive.append("%s/%s: stalled at case %d, not on re-run" % (v, suite, idx))
                return
            if status:
                with self.lock: self.inconclusive.append("%s/%s: stopped (%s) at case %d" % (v, suite, status, idx))
                return
            if state is None or rc == 97:
                with self.lock: self.inconclusive.append("%s/%s: could not start, rc=%s %s" % (v, suite, rc, text[-300:]))
                return
            if rc == -9:
                with self.lock: self.inconclusive.append("%s/%s: killed (SIGKILL) at case %d" % (v, suite, idx))
                return
            crashes += 1
            if ":" in v and not crash_sig(text, rc).startswith(BORROWED_SIG[v.split(":")[0]]):
                # not what this property is about: the property that owns the suite reports it
                with self.lock: self.foreign.append("%s: %s" % (v, crash_sig(text, rc)))
                return
            with self.lock:
                self.fails.append(dict(variant=v, suite=suite, index=idx, what="crash: " + crash_sig(text, rc), msg=text[:6000], count=1))
            frm = idx + 1
            if crashes >= 3 or ":" in v: return

    def run(self):
        jobs = []
        for v, b in self.bins.items():
            if ":" in v: jobs.append((v, "all", 0)); continue
            env = dict(os.environ); env.update(SAN_ENV)
            o = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True, env=env)
            if o.returncode != 0:
                self.inconclusive.append(v + ": --list failed"); continue
            for line in o.stdout.split("\n"):
                if line.strip():
                    name, q, t = line.split()
                    n = int(t if self.tier == "thorough" else q)
                    if n: jobs.append((v, name, n))
        only = os.environ.get("VERIF_SUITE")
        if only: jobs = [j for j in jobs if re.search(only, j[1])]
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(self.suite, jobs))
        return jobs

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line: continue
            e = json.loads(line)
            if e.get("status") == "open" and e["property"] == pid: out.append(e)
    return out

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = vs = abs(hash(os.environ["VERIF_SEED"])) % 2**31
    meta = json.load(open(os.path.join(VERIF, "harness", "meta.json"))).get(pid, {})
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="geomc-%s-" % pid)
    variants = os.environ.get("VERIF_VARIANTS", ",".join(meta.get("variants", ["san", "rel"]))).split(",")
    try:
        bins = build(pid, work, variants, meta.get("borrow", []))
        if bins is None: return 2
        t_build = time.time() - t0
        R = Runner(pid, tier, seed, work, bins)
        jobs = R.run()
        return report(pid, tier, seed, meta, R, jobs, t0, t_build)
    finally:
        if os.environ.get("VERIF_KEEP"): log("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)

def report(pid, tier, seed, meta, R, jobs, t0, t_build):
    known = load_known(pid)
    hit, viol = {}, []
    for f in R.fails:
        k = next((e for e in known if e["suite"] == f["suite"] and re.fullmatch(e["what"], f["what"], re.S)), None)
        if k: hit.setdefault(k["id"], (k, f))
        else: viol.append(f)
    cover, maxima, samples, per = {}, {}, [], {}
    ev = dist = cases = 0
    for v, suite, d in sorted(R.results, key=lambda r: (r[0], r[1])):
        ev += d["evaluations"]; cases += d["cases"]; dist += d["distinct"]
        per[v + "/" + suite] = {"cases": d["cases"], "oracle_evaluations": d["evaluations"], "distinct_nontrivial": d["distinct"]}
        for k, n in d["cover"].items(): cover[k] = cover.get(k, 0) + n
        for k, n in d["maxima"].items(): maxima[k] = max(maxima.get(k, 0), n)
        if v == "san" or len(R.bins) == 1:
            for s in d["samples"][:1]: samples.append(suite + ": " + s[:400])
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    paths = []
    for f in viol[:20]:
        p = os.path.join(VERIF, "evidence", "replay", "%s-%s-%s-%d.json" % (pid, f["variant"], re.sub(r"\W", "_", f["suite"]), f["index"]))
        json.dump(dict(property=pid, tier=tier, seed=seed, **f), open(p, "w"), indent=1)
        paths.append(p)
    need = meta.get("require", {})
    blind = []
    if not viol and not R.inconclusive and not os.environ.get("VERIF_SUITE"):
        # a monitor that did not see what it exists to see gives no verdict
        for k, n in need.items():
            if cover.get(k, 0) < n: blind.append("%s=%d, required %d" % (k, cover.get(k, 0), n))
    e = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
         "coverage": {"evaluations": ev, "distinct_nontrivial": dist,
                      "rule": meta.get("rule", ""), "samples": samples[:10] or ["(none)"],
                      "cases_run": cases, "observed": cover, "largest_observed": maxima, "suites": per,
                      "builds": {v: " ".join(PREFIX.get(v, []) + VARIANTS[v]) for v in variants_of(R.bins)}, "build_s": round(t_build, 1),
                      "ended_for_another_reason": R.foreign, "known_findings_reproduced": sorted(hit), "inconclusive": R.inconclusive, "blind": blind},
         "assumptions": meta.get("assumptions", []),
         "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(e, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k, f in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["summary"]))
    seen = {}
    for f, p in zip(viol[:20], paths):
        k = (f["variant"], f["suite"], f["what"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 1 or len(seen) > 10: continue
        log("  [%s/%s case %d] %s (x%d)\n     %s" % (f["variant"], f["suite"], f["index"], f["what"], f["count"], f["msg"][:900]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, paths[0]))
        return 1
    if R.inconclusive or blind:
        log("NO ANSWER:", R.inconclusive, blind)
        return 2
    print("OK property=%s tier=%s cases=%d evaluations=%d distinct=%d suites=%d wall=%.1fs (build %.1fs)" % (pid, tier, cases, ev, dist, len(jobs), time.time() - t0, t_build))
    return 0

def variants_of(bins): return sorted({v.split(":")[0] for v in bins})

def replay(path):
    f = json.load(open(path))
    work = tempfile.mkdtemp(prefix="geomc-replay-")
    try:
        v = f["variant"]; base = v.split(":")[0]
        bins = build(f["property"], work, [base], v.split(":")[1:])
        if bins is None: return 2
        R = Runner(f["property"], f["tier"], f["seed"], work, bins)
        cmd = R.command(v, f["suite"], 0 if ":" in v else f["index"], None) + ["-v"]
        if ":" not in v: cmd += ["--to", str(f["index"] + 1), "--scale", "1000000"]
        if f["tier"] == "thorough": cmd.append("--thorough")
        env = dict(os.environ); env.update(SAN_ENV)
        r = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, text=True)
        print(r.stdout)
        bad = r.returncode != 0 or '"fails":[]' not in r.stdout
        if bad: print("VIOLATION property=%s replay=%s" % (f["property"], path))
        return 1 if bad else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
