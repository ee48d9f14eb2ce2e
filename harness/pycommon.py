# Harness runtime for checks written in Python; same protocol as common.hh.
import sys, os, json, math, random, signal, hashlib, resource
PYDIR = sys.argv[1]
sys.path.insert(0, PYDIR)
class S: pass
st = S()
st.seed, st.tier, st.shard, st.nshards, st.out, st.cur, st.only, st.scale, st.verbose, st.skip = 1, "quick", 0, 1, None, None, None, 1.0, False, set()
st.cpu = 60
def _parse(a):
    i = 0
    while i < len(a):
        k = a[i]
        def val():
            return a[i+1]
        if k == "--seed": st.seed = int(val()); i += 1
        elif k == "--tier": st.tier = val(); i += 1
        elif k == "--shard": st.shard = int(val()); i += 1
        elif k == "--nshards": st.nshards = int(val()); i += 1
        elif k == "--out": st.out = val(); i += 1
        elif k == "--cur": st.cur = val(); i += 1
        elif k == "--scale": st.scale = float(val()); i += 1
        elif k == "--only": s, x = val().rsplit(":", 1); st.only = (s, int(x)); i += 1
        elif k == "--skip": st.skip.add(val()); i += 1
        elif k == "--verbose": st.verbose = True
        i += 1
_parse(sys.argv[2:])
R = dict(evaluated={}, counters={}, required={}, distinct=[], samples=[], violations=[], violation_counts={})
_distinct = set(); _persec = {}
_fd = os.open(st.cur, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o644) if st.cur else -1
def _mark(s, i):
    if _fd >= 0: os.pwrite(_fd, ("%s %d" % (s, i)).ljust(255).encode() + b"\n", 0)
def require(k, n): R["required"][k] = n
class Skip(Exception): pass
class Case:
    def __init__(self, s, i): self.section, self.idx, self.input, self.nt, self.failed = s, i, "", False, False
    def say(self, *a): self.input += " ".join(str(x) for x in a) + " "
    def nontrivial(self): self.nt = True
    def count(self, k, n=1): k = self.section + ":" + k; R["counters"][k] = R["counters"].get(k, 0) + n
    def fail(self, kind, detail):
        self.failed = True; k = self.section + "/" + kind; n = R["violation_counts"].get(k, 0) + 1; R["violation_counts"][k] = n
        if n <= 4: R["violations"].append(dict(section=self.section, idx=self.idx, kind=kind, detail=str(detail)[:600], input=self.input[:2000]))
        if st.verbose: print("  VIOLATED %s: %s" % (kind, detail), file=sys.stderr)
class Rng(random.Random):
    def u(self, a=0.0, b=1.0): return a + (b-a)*self.random()
    def lu(self, a, b): return math.exp(self.u(math.log(a), math.log(b)))
    def b(self, p=0.5): return self.random() < p
    def i(self, a, b): return self.randint(a, b)
    def unit(self):
        while True:
            v = [self.u(-1, 1) for _ in range(3)]; n = math.sqrt(sum(x*x for x in v))
            if 0.1 < n <= 1: return [x/n for x in v]
def section(name, quick, thorough, body):
    if st.only and st.only[0] != name: return
    n = int(math.ceil((thorough if st.tier == "thorough" else quick)*st.scale))
    for i in range(n):
        if st.only:
            if i != st.only[1]: continue
        elif i % st.nshards != st.shard: continue
        if "%s:%d" % (name, i) in st.skip: continue
        _mark(name, i); signal.setitimer(signal.ITIMER_PROF, st.cpu)
        c = Case(name, i); key = "%d/%s/%d" % (st.seed, name, i); r = Rng(key); random.seed("global" + key); skipped = False
        try: body(r, c)
        except Skip as e: skipped = True; c.count("skipped:" + str(e))
        except Exception as e:
            import traceback; c.fail("exception", "%s: %s at %s" % (type(e).__name__, e, traceback.format_exc().strip().split("\n")[-3:-1]))
        R["evaluated"][name] = R["evaluated"].get(name, 0) + 1
        if c.nt and not skipped:
            _distinct.add(hashlib.sha1((name + c.input).encode()).hexdigest()[:16])
            if st.shard == 0 and _persec.get(name, 0) < 2: _persec[name] = _persec.get(name, 0) + 1; R["samples"].append("%s #%d: %s" % (name, i, c.input[:600]))
        if st.verbose: print(name, i, "FAIL" if c.failed else "skip" if skipped else "ok", c.input[:800], file=sys.stderr)
    _mark("-", 0)
def finish():
    signal.setitimer(signal.ITIMER_PROF, 0); R["distinct"] = sorted(_distinct)
    if st.out: json.dump(R, open(st.out, "w"))
# -------------------------------------------------------------- small vectors
def add(a, b): return [x+y for x, y in zip(a, b)]
def sub(a, b): return [x-y for x, y in zip(a, b)]
def mul(s, a): return [s*x for x in a]
def dot(a, b): return sum(x*y for x, y in zip(a, b))
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def norm(a): return math.sqrt(dot(a, a))
def xyz(p): return [p.x(), p.y(), p.z()]
def rot(v, axis, t):
    c, s = math.cos(t), math.sin(t); return add(add(mul(c, v), mul(s, cross(axis, v))), mul((1-c)*dot(axis, v), axis))
def frame(r):
    w = r.unit() if r.b(0.8) else [0.0, 0.0, 1.0]; h = [1.0, 0, 0] if abs(w[0]) < 0.6 else [0, 1.0, 0]; u = cross(w, h); u = mul(1/norm(u), u); v = cross(w, u); t = r.u(0, 2*math.pi)
    u2 = add(mul(math.cos(t), u), mul(math.sin(t), v)); return u2, cross(w, u2), w
SCALES = [1e-3, 1e-2, 0.1, 1, 1, 1, 10, 100, 1e3]
def scale(r): return r.choice(SCALES)*r.u(0.5, 2)
