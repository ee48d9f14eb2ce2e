# C01: point samplers of the Python package
import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pycommon import *
from frackit.geometry import Box, Cylinder, HollowCylinder, Point_3, Direction_3, Vector_3, Circle_3
from frackit.sampling import makePointSampler, BoxPointSampler, CylinderPointSampler
def domain(r, kind):
    s = scale(r); o = mul(r.choice([0, 1, 5, 50])*s, [r.u(-1, 1) for _ in range(3)])
    if kind == 0:
        h = [s*r.lu(0.05, 1) for _ in range(3)]; lo, hi = sub(o, h), add(o, h); return dict(kind=0, lo=lo, hi=hi, obj=Box(*(lo+hi)), size=norm(sub(hi, lo)), off=norm(o))
    u, v, w = frame(r); R = s*r.u(0.2, 1); H = s*r.lu(0.1, 5); ri = R*(r.u(0.02, 0.95) if kind == 2 else 0); c, d = Point_3(*o), Direction_3(Vector_3(*w))
    obj = Cylinder(Circle_3(c, d, R), H) if kind == 1 else HollowCylinder(c, d, ri, R, H)
    return dict(kind=kind, o=o, w=w, R=R, H=H, ri=ri, obj=obj, size=math.hypot(2*R, H), off=norm(o))
def local(D, p):   # distance outside of the domain, uniform coordinates
    if D["kind"] == 0: return max(max(a-x, x-b) for a, b, x in zip(D["lo"], D["hi"], p)), [(x-a)/(b-a) for a, b, x in zip(D["lo"], D["hi"], p)]
    q = sub(p, D["o"]); h = dot(q, D["w"]); e1, e2 = xyz(D["obj"].base1()), xyz(D["obj"].base2()); a, b = dot(q, e1), dot(q, e2); rad = math.hypot(a, b); t = (math.atan2(b, a)/(2*math.pi)) % 1.0
    return max(rad - D["R"], D["ri"] - rad, -h, h - D["H"]), [(rad*rad - D["ri"]**2)/(D["R"]**2 - D["ri"]**2), t, h/D["H"]]
def uniform(kind):
    def body(r, c):
        D = domain(r, kind); c.say({k: v for k, v in D.items() if k != "obj"}); c.nontrivial(); s = makePointSampler(D["obj"]); N = 1500; bad = 0; us = []
        for _ in range(N):
            q = s(); p = xyz(q); out, u = local(D, p); us.append(u); c.count("draws")
            if not out <= 1e-10*(D["size"]+D["off"]) or not D["obj"].contains(q): bad += 1; msg = "point %s is %g outside of the domain" % (p, out)
        if bad: c.fail("outside", "%d of %d draws: %s" % (bad, N, msg))
        for k in range(3):
            v = sorted(u[k] for u in us); d = max(max(abs(x-i/N), abs(x-(i+1)/N)) for i, x in enumerate(v)); c.count("distributions")
            if d*math.sqrt(N) > 3.45: c.fail("not-uniform", "coordinate %d: Kolmogorov-Smirnov distance %g of %d draws" % (k, d, N))
        cells = {}
        for u in us: k = tuple(min(2, max(0, int(3*x))) for x in u); cells[k] = cells.get(k, 0) + 1
        e = N/27; chi = sum((cells.get((i, j, k), 0)-e)**2/e for i in range(3) for j in range(3) for k in range(3)); c.count("distributions")
        if chi > 115: c.fail("not-uniform", "chi-square %g of 27 equal-volume cells" % chi)
    return body
section("py-uniform-box", 60, 1200, uniform(0)); section("py-uniform-cylinder", 80, 1600, uniform(1)); section("py-uniform-hollow", 80, 1600, uniform(2))
def mapping(r, c):
    D = domain(r, r.i(0, 2)); c.say({k: v for k, v in D.items() if k != "obj"}); c.nontrivial(); tol = 1e-10*(D["size"]+D["off"]); last = {}; bounds = {}
    def creator(k):
        def make(a, b):
            bounds[k] = (a, b)
            def draw(): last[k] = r.choice([a, b, r.u(a, b), r.u(a, b)]); return last[k]
            return draw
        return make
    s = makePointSampler(D["obj"], creator(0), creator(1), creator(2))
    want = list(zip(D["lo"], D["hi"])) if D["kind"] == 0 else [(D["ri"]**2, D["R"]**2), (0, 2*math.pi), (0, D["H"])]
    for k in range(3):
        c.count("judged")
        if any(abs(x-y) > 1e-9*(abs(want[k][0])+abs(want[k][1])) for x, y in zip(bounds[k], want[k])): c.fail("bounds", "distribution %d over %s, domain %s" % (k, bounds[k], want[k]))
    for _ in range(10):
        p = xyz(s()); out, u = local(D, p); c.count("judged")
        if not out <= tol: c.fail("outside", "point %s is %g outside of the domain" % (p, out))
        w = [last[0], last[1], last[2]]
        if D["kind"]: rad = math.sqrt(w[0]); w = add(add(add(D["o"], mul(rad*math.cos(w[1]), xyz(D["obj"].base1()))), mul(rad*math.sin(w[1]), xyz(D["obj"].base2()))), mul(w[2], D["w"]))
        c.count("judged")
        if norm(sub(p, w)) > tol: c.fail("coordinates", "drawn coordinates give %s, the sampler %s" % (w, p))
section("py-mapping", 400, 8000, mapping)
require("py-uniform-box:draws", 20000); require("py-uniform-cylinder:draws", 20000); require("py-uniform-hollow:draws", 20000); require("py-mapping:judged", 4000)
finish()
