#!/usr/bin/env python3
"""Builds one harness from /repo's working tree, runs it and reports a verdict.

usage: run_check.py ID [--tier quick|thorough] [--seed N] [--replay SECTION:IDX] [--scale X]

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
any other exit: no verdict (harness does not build, too little was observed, watchdog).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS

OCC_INC = "/usr/include/opencascade"
OCC_LIBS = "TKBO TKTopAlgo TKBRep TKGeomAlgo TKPrim TKGeomBase TKG3d TKG2d TKMath TKernel".split()
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           LC_ALL="C", OMP_NUM_THREADS="1")

def log(*a): print(*a, flush=True)

class Inconclusive(Exception): pass

def run(cmd, timeout, cwd=None, env=None, stderr=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.DEVNULL,
                         stderr=stderr or subprocess.DEVNULL, start_new_session=True)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
        return None

class Check:
    def __init__(self, cid, tier, seed, scale):
        self.id, self.tier, self.seed, self.scale = cid, tier, seed, scale
        self.c = CHECKS[cid]
        self.nshards = self.c.get("shards", 8)
        self.dir = os.path.join(VERIF, "build", "%s-%s" % (cid, tier))
        if os.path.isdir(self.dir): shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.wall = self.c.get("wall", {}).get(tier, 600 if tier == "quick" else 3600)

    # ------------------------------------------------------------- building
    def build(self):
        """list of programs: (label, command prefix)"""
        self.programs = []
        jobs = []
        for label, b in self.c["programs"].items():
            if b.get("tier") and b["tier"] != self.tier: continue
            if "python" in b:
                self.programs.append((label, b)); continue
            exe = os.path.join(self.dir, label)
            cmd = [b.get("cxx", "g++"), "-w", "-std=c++17", b.get("opt", "-O1"), "-g1"]
            if b.get("san", True): cmd += SAN
            cmd += b.get("flags", [])
            cmd += ["-I" + os.path.join(VERIF, "harness"), "-I" + OCC_INC, "-I" + REPO]
            cmd += [os.path.join(VERIF, "harness", b["src"]), "-o", exe]
            cmd += ["-l" + l for l in OCC_LIBS] + b.get("libs", [])
            jobs.append((label, cmd))
            if b.get("run", True): self.programs.append((label, dict(b, exe=exe)))
        if self.c.get("pymodules"):
            import pybuild
            jobs += pybuild.jobs(REPO, os.path.join(self.dir, "py"), self.c["pymodules"], OCC_INC, OCC_LIBS)
        def one(job):
            label, cmd = job
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.dir)
            return label, r
        with cf.ThreadPoolExecutor(8) as ex:
            for label, r in ex.map(one, jobs):
                if r.returncode != 0:
                    log((r.stderr or "")[:4000])
                    raise Inconclusive("%s does not compile against %s" % (label, REPO))

    def command(self, b):
        if "python" in b:
            return ["/usr/bin/python3.12", "-B", os.path.join(VERIF, "harness", b["python"]), os.path.join(self.dir, "py")]
        return [b["exe"]]

    # -------------------------------------------------------------- running
    def invoke(self, label, b, shard, extra, tag, timeout):
        out = os.path.join(self.dir, "%s.%s.json" % (label, tag))
        cur = os.path.join(self.dir, "%s.%s.cur" % (label, tag))
        err = os.path.join(self.dir, "%s.%s.err" % (label, tag))
        work = os.path.join(self.dir, "%s.%s.work" % (label, tag))
        os.makedirs(work, exist_ok=True)
        for f in (out, cur):
            if os.path.exists(f): os.remove(f)
        cmd = self.command(b) + ["--seed", str(self.seed), "--tier", self.tier, "--shard", str(shard),
                                 "--nshards", str(self.nshards), "--out", out, "--cur", cur,
                                 "--scale", str(self.scale)] + extra
        with open(err, "wb") as e:
            rc = run(cmd, timeout, cwd=work, stderr=e)
        shutil.rmtree(work, ignore_errors=True)
        data = None
        if rc == 0:
            try: data = json.load(open(out))
            except Exception: rc = -1000
        where = None
        if rc != 0 and os.path.exists(cur):
            t = open(cur, errors="replace").read().split()
            if len(t) >= 2 and t[0] != "-": where = (t[0], int(t[1]))
        return dict(rc=rc, data=data, where=where, err=open(err, errors="replace").read(), cmd=cmd)

    @staticmethod
    def describe(r):
        e = r["err"]
        if r["rc"] in (97, -27): return "hang", "the call did not return within the CPU limit of one case"
        m = re.search(r"(SUMMARY: .*|runtime error: .*|ERROR: AddressSanitizer.*|Assertion .*|terminate called.*(?:\n.*what.*)?|Fatal Python error.*)", e)
        frames = [f for f in re.findall(r"#\d+ .*? in (.*)", e) if "/repo" in f or "rackit" in f][:4]
        return "crash", (m.group(1) if m else "exit status %s" % r["rc"]) + ("; " + " < ".join(frames) if frames else "")

    def shard(self, args):
        label, b, s = args
        skip, viols = [], []
        deadline = time.time() + self.wall
        for attempt in range(5):
            left = deadline - time.time()
            if left < 5: raise Inconclusive("watchdog: %s shard %d" % (label, s))
            extra = sum((["--skip", "%s:%d" % k] for k in skip), [])
            r = self.invoke(label, b, s, extra, "s%d" % s, left)
            if r["rc"] == 0: return r["data"], viols
            if r["rc"] is None: raise Inconclusive("watchdog: %s shard %d did not finish (at %s)" % (label, s, r["where"]))
            if r["where"] is None:
                raise Inconclusive("%s shard %d ended with %s outside any case: %s" % (label, s, r["rc"], r["err"][-1500:]))
            kind, detail = self.describe(r)
            sec, idx = r["where"]
            # confirm in a process of its own, then (state carried over between cases) by the whole shard
            r2 = self.invoke(label, b, s, ["--only", "%s:%d" % (sec, idx)], "s%d.confirm" % s, max(10, deadline-time.time()))
            if r2["rc"] in (0, None):
                r2 = self.invoke(label, b, s, extra, "s%d.again" % s, max(10, deadline-time.time()))
                if r2["rc"] == 0 : raise Inconclusive("%s:%d ended with %s once and did not do so again" % (sec, idx, r["rc"]))
            if r2["rc"] is None: raise Inconclusive("watchdog while confirming %s:%d" % (sec, idx))
            viols.append(dict(section=sec, idx=idx, kind=kind, detail=detail, input="", report=r["err"][-6000:]))
            skip.append((sec, idx))
            if kind == "hang" or len(skip) >= 3: return None, viols
        return None, viols

    def execute(self):
        tasks = [(l, b, s) for l, b in self.programs for s in range(self.nshards)]
        merged = dict(evaluated={}, counters={}, required={}, distinct=set(), samples=[], violations=[], violation_counts={})
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda t: self._guard(t), tasks))
        errors = []
        for (l, b, s), res in zip(tasks, results):
            if isinstance(res, Exception): errors.append(str(res)); continue
            d, v = res
            for x in v: x["program"] = l
            merged["violations"] += v
            for x in v:
                k = x["section"] + "/" + x["kind"]
                merged["violation_counts"][k] = merged["violation_counts"].get(k, 0) + 1
            if d is None: continue
            for f in ("evaluated", "counters", "violation_counts"):
                for k, n in d[f].items(): merged[f][k] = merged[f].get(k, 0) + n
            merged["required"].update(d["required"])
            merged["distinct"].update(l + ":" + h for h in d["distinct"])
            merged["samples"] += d["samples"]
            merged["violations"] += [dict(x, program=l) for x in d["violations"]]
        return merged, errors

    def _guard(self, t):
        try: return self.shard(t)
        except Inconclusive as e: return e

def load_findings():
    try: return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except FileNotFoundError: return []

def matches(f, cid, v):
    if f.get("status") != "open" or f["property"] != cid: return False
    m = f["match"]
    if m["section"] != v["section"] or m["kind"] != v["kind"]: return False
    if "input" in m and m["input"] not in v.get("input", ""): return False
    return True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    ck = Check(a.id, a.tier, a.seed, a.scale)
    try:
        ck.build()
    except Inconclusive as e:
        log("NO VERDICT: %s" % e); return 2
    tb = time.time() - t0
    if a.replay:
        for l, b in ck.programs:
            r = subprocess.run(ck.command(b) + ["--seed", str(a.seed), "--tier", a.tier, "--only", a.replay, "--verbose",
                                                "--scale", str(a.scale)], env=ENV, cwd=ck.dir)
            log("exit status %s" % r.returncode)
        return 0
    m, errors = ck.execute()

    findings = load_findings()
    known, fresh = [], {}
    for v in m["violations"]:
        f = next((f for f in findings if matches(f, a.id, v)), None)
        if f:
            if f["id"] not in [k["id"] for k in known]: known.append(f)
        else: fresh.setdefault(v["section"] + "/" + v["kind"], []).append(v)

    for k in known: log("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    rdir = os.path.join(VERIF, "evidence", "replays", a.id)
    if os.path.isdir(rdir): shutil.rmtree(rdir)
    for key, vs in sorted(fresh.items()):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]+", "_", key) + ".json")
        json.dump(dict(property=a.id, tier=a.tier, seed=a.seed, key=key, cases=vs[:8],
                       replay="python3 run_check.py %s --tier %s --seed %d --replay %s:%d" % (a.id, a.tier, a.seed, vs[0]["section"], vs[0]["idx"])),
                  open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (a.id, path))
        log("  %s: %s" % (key, vs[0]["detail"][:300]))
        if vs[0].get("input"): log("  input: %s" % vs[0]["input"][:300])

    short = []
    if not errors and not fresh and a.scale >= 1.0:
        short = ["%s: %d of %d" % (k, m["counters"].get(k, 0), n) for k, n in m["required"].items() if m["counters"].get(k, 0) < n]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(m["evaluated"].values()), distinct_nontrivial=len(m["distinct"]),
                            rule=ck.c["rule"], samples=m["samples"][:24] or ["none"],
                            cases_per_section=m["evaluated"], observed=dict(sorted(m["counters"].items())),
                            required=m["required"], build_s=round(tb, 1)),
              assumptions=ck.c.get("assumptions", []) + COMMON,
              wall_s=round(time.time() - t0, 1), violations=sum(len(v) for v in fresh.values()))
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs" %
        (a.id, a.tier, a.seed, ev["coverage"]["evaluations"], len(m["distinct"]), tb, ev["wall_s"]))
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(ck.dir, ignore_errors=True)
    if fresh: return 1
    for e in errors: log("NO VERDICT: %s" % e)
    for s in short: log("NO VERDICT: too little observed: %s" % s)
    return 2 if errors or short else 0

COMMON = ["OpenCASCADE (binary, not instrumented) behaves as it does in this sandbox",
          "double precision arithmetic of the harness' reference models is exact enough for the margins used"]

if __name__ == "__main__":
    sys.exit(main())
