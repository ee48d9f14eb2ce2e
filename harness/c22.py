# C22: the Python package answers as the C++ library does.
# The same request is put to a C++ program (c22_oracle) and, through the package, to the library.
import os, subprocess, select, itertools
from pycommon import *
st.cpu = 120
import frackit.geometry as G, frackit.common as K, frackit.precision as PR, frackit.occutilities as O, frackit.sampling as SA, frackit.entitynetwork as N, frackit.io as IO

# ------------------------------------------------------------------ the C++ side
class Oracle:
    def __init__(self): self.p = None
    def ask(self, tokens):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([os.path.join(os.path.dirname(os.path.abspath(PYDIR)), "oracle")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        self.p.stdin.write(" ".join(t if isinstance(t, str) else repr(float(t)) for t in tokens) + "\n"); self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l: raise RuntimeError("the C++ program ended with %s" % self.p.wait())
            if l.startswith("="): break
        res = []
        for t in l[1:].split():
            if t[0] == "?": raise AssertionError("request not understood: " + l)
            res.append(t if t[0] in "$!" else float(t))
        return res
oracle = Oracle()

# ------------------------------------------------------------------ the Python side
THROWN = (RuntimeError, ValueError, IndexError)
class T(list):
    def n(self, *x):
        for v in x: self.append(float(v))
    def s(self, x): self.append("$" + x.replace(" ", "_").replace("\n", "_"))
    def part(self, f):
        t = T()
        try: f(t)
        except THROWN as e:
            if isinstance(e, RecursionError): raise
            self.append("!"); st.last = e; return
        self.extend(t)
def co(t, p):
    d = p.worldDimension; t.n(p.x())
    if d > 1: t.n(p.y())
    if d > 2: t.n(p.z())
def elliptical(t, e): co(t, e.center()); co(t, e.majorAxis()); co(t, e.minorAxis()); co(t, e.normal()); t.n(e.majorAxisLength(), e.minorAxisLength()); desc(t, e.supportingPlane())
def corners(t, g):
    t.n(g.numCorners())
    for i in range(g.numCorners()): co(t, g.corner(i))
    edges(t, g)
def edges(t, g):
    t.n(g.numEdges())
    for i in range(g.numEdges()): co(t, g.edge(i).source()); co(t, g.edge(i).target())
def bases(t, c): co(t, c.base1()); co(t, c.base2()); co(t, c.base3()); desc(t, c.centerSegment()); t.n(c.height())
def bbox(t, b): t.n(b.xMin(), b.yMin(), b.zMin(), b.xMax(), b.yMax(), b.zMax())
WRAPPERS = (G.OCCShapeWrapper, G.OCCVertexWrapper, G.OCCEdgeWrapper, G.OCCWireWrapper, G.OCCFaceWrapper, G.OCCShellWrapper, G.OCCSolidWrapper, G.OCCCompoundWrapper)
def generic(s): return s if isinstance(s, G.OCCShapeWrapper) else G.OCCShapeWrapper(s)
def shape(t, s):
    g = generic(s); e, f, so = O.getEdges(g), O.getFaces(g), O.getSolids(g)
    t.n(len(O.getVertices(g)), len(e), len(O.getWires(g)), len(f), len(O.getShells(g)), len(so), sum(G.computeLength(x) for x in e), sum(G.computeArea(x) for x in f), sum(G.computeVolume(x) for x in so))
    t.part(lambda t: bbox(t, O.getBoundingBox(s)))
def desc(t, g):
    if isinstance(g, (list, tuple)):
        t.s("list"); t.n(len(g))
        for x in g: t.s("item"); desc(t, x)
        return
    if isinstance(g, WRAPPERS): t.s("shape"); shape(t, g); return
    t.s(g.name()); k = type(g)
    if isinstance(g, (G.PointBase_1, G.PointBase_2, G.PointBase_3, G.VectorBase_1, G.VectorBase_2, G.VectorBase_3, G.Direction_1, G.Direction_2, G.Direction_3)): co(t, g)
    elif k is G.Line_3: co(t, g.supportingPoint()); co(t, g.direction())
    elif k is G.Segment_3: co(t, g.source()); co(t, g.target()); co(t, g.direction()); t.n(g.length()); desc(t, g.supportingLine()); co(t, g.center()); co(t, g.getReversed().source()); co(t, g.getReversed().target())
    elif k is G.Plane_3: co(t, g.supportingPoint()); co(t, g.normal()); co(t, g.base1()); co(t, g.base2())
    elif k is G.Ellipse_3: elliptical(t, g)
    elif k is G.Circle_3: elliptical(t, g); t.n(g.radius()); co(t, g.base1()); co(t, g.base2())
    elif k is G.EllipseArc_3: elliptical(t, g); co(t, g.source()); co(t, g.target()); desc(t, g.supportingEllipse()); t.n(g.isFullEllipse(), g.sourceAngleOnEllipse(), g.targetAngleOnEllipse())
    elif k is G.Triangle_3: t.n(g.area()); co(t, g.center()); co(t, g.normal()); desc(t, g.supportingPlane()); corners(t, g)
    elif k in (G.Quadrilateral_3, G.Polygon_3):
        t.part(lambda t: t.n(g.area()))
        if k is G.Polygon_3: t.part(lambda t: co(t, g.center()))
        else: co(t, g.center())
        desc(t, g.supportingPlane()); t.n(g.isConvex()); corners(t, g)
    elif k is G.Disk: elliptical(t, g); t.n(g.area()); desc(t, g.boundingEllipse())
    elif k is G.Box:
        t.n(g.volume()); bbox(t, g); co(t, g.center()); t.n(g.numCorners())
        for i in range(g.numCorners()): co(t, g.corner(i))
        edges(t, g); t.n(g.numFaces())
        for i in range(g.numFaces()): desc(t, g.face(i))
    elif k is G.Sphere: co(t, g.center()); t.n(g.radius(), g.volume())
    elif k is G.Cylinder: bases(t, g); co(t, g.direction()); t.n(g.radius(), g.volume()); desc(t, g.topFace()); desc(t, g.bottomFace()); t.n(g.lateralFace().area()); desc(t, g.lateralFace().lowerBoundingCircle())
    elif k is G.CylinderSurface: bases(t, g); co(t, g.direction()); t.n(g.radius(), g.area()); desc(t, g.upperBoundingCircle()); desc(t, g.lowerBoundingCircle()); t.n(g.cylinder().volume()); desc(t, g.cylinder().bottomFace())
    elif k is G.HollowCylinder:
        bases(t, g); co(t, g.axis()); t.n(g.innerRadius(), g.outerRadius(), g.volume()); desc(t, g.bottomInnerCircle()); desc(t, g.topInnerCircle()); desc(t, g.bottomOuterCircle()); desc(t, g.topOuterCircle())
        t.n(g.innerLateralFace().area(), g.outerLateralFace().area(), g.fullCylinder().volume()); desc(t, g.fullCylinder().bottomFace())
    elif k in (G.EmptyIntersection_1, G.EmptyIntersection_2, G.EmptyIntersection_3): pass
    else: raise AssertionError("kind " + str(k))

# ------------------------------------------------------------------ comparison
def close(a, b, tol):
    if isinstance(a, str) or isinstance(b, str): return a == b
    return a == b or (a != a and b != b) or abs(a-b) <= tol + 1e-9*max(abs(a), abs(b))
def same(a, b, tol): return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
def split(t, mark):
    parts = [[]]
    for x in t:
        if x == mark: parts.append([])
        parts[-1].append(x)
    return parts
def difference(py, cc, tol):
    if same(py, cc, tol): return None
    a, b = split(py, "$item"), split(cc, "$item")
    if len(a) > 1 and len(a) == len(b) and a[0] == b[0]:  # the order of a list is the kernel's
        left = b[1:]
        for x in a[1:]:
            k = next((i for i, y in enumerate(left) if same(x, y, tol)), None)
            if k is None: break
            left.pop(k)
        else: return None
    k = next((i for i, (x, y) in enumerate(zip(py, cc)) if not close(x, y, tol)), min(len(py), len(cc)))
    return "Python %s, C++ %s (item %d of %d/%d: %s)" % (py[k:k+4], cc[k:k+4], k, len(py), len(cc), " ".join(str(x) for x in py[max(0, k-6):k]))
def compare(c, kind, py, request, tol, ordered=True):
    cc = oracle.ask(request); d = difference(py, cc, tol)
    c.count("values compared", len(cc)); c.count("thrown", cc.count("!"))
    if d: c.fail(kind, d)
    return cc
def attempt(f):
    t = T(); t.part(f); return t

# ------------------------------------------------------------------ geometries: request and Python object
class Item:
    def __init__(self, kind, req, obj, size): self.kind, self.req, self.obj, self.size = kind, req, obj, size
def P(p): return G.Point_3(*p)
def D(v): return G.Direction_3(G.Vector_3(*v))
class Place:
    def __init__(self, r, S=None, flat=False):
        self.S = S or scale(r); self.u, self.v, self.w = frame(r); self.c = mul(self.S, [r.u(-3, 3) for _ in range(3)]) if not flat else [0.0, 0.0, 0.0]
    def at(self, x, y, z): return add(self.c, add(mul(x*self.S, self.u), add(mul(y*self.S, self.v), mul(z*self.S, self.w))))
def item(r, kind, pl):
    S = pl.S
    if kind == "point": p = pl.at(r.u(-1, 1), r.u(-1, 1), r.u(-.3, .3)); return Item(kind, [kind, *p], P(p), S)
    if kind == "seg": a, b = pl.at(r.u(-1, -.2), r.u(-1, 1), r.u(-.3, .3)), pl.at(r.u(.2, 1), r.u(-1, 1), r.u(-.3, .3)); return Item(kind, [kind, *a, *b], G.Segment_3(P(a), P(b)), S)
    if kind == "line": return Item(kind, [kind, *pl.c, *pl.u], G.Line_3(P(pl.c), D(pl.u)), S)
    if kind == "plane": return Item(kind, [kind, *pl.c, *pl.w], G.Plane_3(P(pl.c), D(pl.w)), S)
    if kind == "circle": R = S*r.u(.3, 1); return Item(kind, [kind, *pl.c, *pl.w, R], G.Circle_3(P(pl.c), D(pl.w), R), S)
    if kind in ("ellipse", "disk", "arc"):
        a = S*r.u(.5, 1); b = a*r.u(.2, 1) if r.b(.8) else a; q = [*pl.c, *pl.u, *pl.v, a, b]; e = G.Ellipse_3(P(pl.c), D(pl.u), D(pl.v), a, b)
        if kind == "ellipse": return Item(kind, [kind] + q, e, S)
        if kind == "disk": return Item(kind, [kind] + q, G.Disk(e), S)
        s = r.u(0, 2*math.pi); t = s if r.b(.15) else r.u(0, 2*math.pi); return Item(kind, [kind] + q + [s, t], G.EllipseArc_3(e, e.getPointFromAngle(s), e.getPointFromAngle(t)), S)
    if kind == "tri": p = [pl.at(-r.u(.3, 1), -r.u(.3, 1), 0), pl.at(r.u(.3, 1), -r.u(.3, 1), 0), pl.at(r.u(-1, 1), r.u(.3, 1), 0)]; return Item(kind, [kind] + sum(p, []), G.Triangle_3(*[P(x) for x in p]), S)
    if kind == "quad":
        p = [pl.at(-r.u(.3, 1), -r.u(.3, 1), 0), pl.at(r.u(.3, 1), -r.u(.3, 1), 0), pl.at(-r.u(.3, 1), r.u(.3, 1), 0), pl.at(r.u(.3, 1), r.u(.3, 1), 0)]; return Item(kind, [kind] + sum(p, []), G.Quadrilateral_3(*[P(x) for x in p]), S)
    if kind == "poly":
        n = r.i(3, 8); a, b = r.u(.5, 1), r.u(.5, 1); t0 = r.u(0, 6); p = [pl.at(a*math.cos(t0 + 2*math.pi*(i + r.u(-.3, .3))/n), b*math.sin(t0 + 2*math.pi*(i + r.u(-.3, .3))/n), 0) for i in range(n)]; return Item(kind, [kind, float(n)] + sum(p, []), G.Polygon_3([P(x) for x in p]), S)
    if kind in ("cyl", "cylsurf"):
        R, h = S*r.u(.3, 1), S*r.u(.5, 2); c = add(pl.c, mul(-.5*h, pl.w)); return Item(kind, [kind, *c, *pl.w, R, h], (G.Cylinder if kind == "cyl" else G.CylinderSurface)(G.Circle_3(P(c), D(pl.w), R), h), S)
    if kind == "box": a, b = sub(pl.c, mul(S, [r.u(.3, 1) for _ in range(3)])), add(pl.c, mul(S, [r.u(.3, 1) for _ in range(3)])); return Item(kind, [kind, *a, *b], G.Box(*a, *b), S)
    if kind == "sphere": R = S*r.u(.3, 1); return Item(kind, [kind, *pl.c, R], G.Sphere(P(pl.c), R), S)
    what, base = kind.split(":"); i = item(r, base, pl); s = G.OCCShapeWrapper(O.getShape(i.obj))
    o = s if what == "shape" else (O.getEdges(s) if what == "edge" else O.getFaces(s) if what == "face" else O.getSolids(s))[0]
    return Item(kind, [what] + i.req, o, S)
EDGES = ["edge:seg", "edge:arc"]; FACES = ["face:disk", "face:quad", "face:poly", "face:cylsurf"]; SOLIDS = ["solid:box", "solid:cyl", "solid:sphere"]; SHAPES = ["shape:quad", "shape:cyl", "shape:seg", "shape:box", "shape:circle"]
CLASSES = ["point", "seg", "line", "plane", "circle", "ellipse", "arc", "tri", "quad", "poly", "disk", "cylsurf", "cyl", "box", "sphere"]

# ------------------------------------------------------------------ sections
def describe(r, c):
    kind = r.choice(CLASSES*2 + EDGES + FACES + SOLIDS + SHAPES); pl = Place(r); i = item(r, kind, pl); g = i.obj; S = pl.S
    def near():
        z = 0 if r.b(.6) else r.u(-.5, .5)
        if kind == "seg" and r.b(.5): a, b = g.source(), g.target(); t = r.u(-.2, 1.2); return [a.x()+t*(b.x()-a.x()), a.y()+t*(b.y()-a.y()), a.z()+t*(b.z()-a.z())]
        if kind == "circle" and r.b(.6): return xyz(g.getPoint(r.u()))
        if kind in ("ellipse", "arc") and r.b(.6): return xyz(g.getPointFromAngle(r.u(0, 6)))
        if kind == "line" and r.b(.5): return pl.at(r.u(-2, 2), 0, 0)
        if kind == "cylsurf" and r.b(.6): R = g.radius()/S; t = r.u(0, 6); return pl.at(R*math.cos(t), R*math.sin(t), r.u(-.6, .6)*g.height()/S)
        return pl.at(r.u(-1.1, 1.1), r.u(-1.1, 1.1), z)
    pts = [near() for _ in range(4)]; eps, t, t2 = S*r.lu(1e-6, .3), r.u(), r.u(); c.say("describe", *i.req); c.nontrivial(); c.count(kind)
    def py(o):
        desc(o, g); Q = [P(p) for p in pts]
        c1, c2 = kind in ("circle", "cylsurf", "cyl", "box", "sphere", "line"), kind in ("seg", "ellipse", "arc", "tri", "quad", "poly", "disk")
        if c1 or c2 or kind == "plane":
            for q in Q:
                o.part(lambda o: o.n(g.contains(q))); o.part(lambda o: o.n(g.contains(q, eps)))
                if c2: o.part(lambda o: o.n(g.contains(q, False))); o.part(lambda o: o.n(g.contains(q, eps, False)))
        if kind in ("line", "plane"):
            for q in Q: co(o, g.projection(q))
        if kind == "plane": o.part(lambda o: desc(o, g.projection(G.Segment_3(Q[0], Q[1])))); o.part(lambda o: desc(o, g.projection(G.Line_3(Q[0], G.Direction(G.Vector(Q[0], Q[1]))))))
        if kind in ("seg", "circle", "ellipse", "arc"): o.part(lambda o: co(o, g.getPoint(t))); o.part(lambda o: co(o, g.getPoint(t2)))
        if kind == "disk": o.part(lambda o: co(o, g.getPoint(t, t2)))
        if kind in ("circle", "ellipse"): o.part(lambda o: co(o, g.getPointFromAngle(7*t)))
        if kind == "ellipse":
            for q in Q: o.part(lambda o: o.n(g.getParam(q))); o.part(lambda o: o.n(g.getAngle(q))); o.part(lambda o: o.n(g.getParam(q, False))); o.part(lambda o: o.n(g.getAngle(q, False)))
        if kind == "cylsurf":
            for q in Q: o.part(lambda o: desc(o, g.getTangentPlane(q)))
        sub = kind.split(":")[0]
        if kind in ("seg", "circle", "ellipse", "arc", "disk", "tri", "quad", "poly", "cylsurf", "cyl", "box", "sphere") or sub in ("edge", "face", "solid"): o.part(lambda o: o.n(G.computeMagnitude(g)))
        if kind in ("box", "cyl", "cylsurf", "disk", "sphere", "circle", "ellipse", "arc", "poly", "quad", "seg") or ":" in kind: o.part(lambda o: bbox(o, G.getBoundingBox(g)))
        if kind in ("seg", "circle", "ellipse", "disk", "quad", "cylsurf", "box") or sub == "shape": o.part(lambda o: o.n(PR.defaultEpsilon(g)))
        if kind in ("point", "seg", "circle", "ellipse", "arc", "quad", "poly", "disk", "box", "cyl", "cylsurf", "sphere"): o.part(lambda o: desc(o, O.getShape(g)))
        if sub != "shape": o.n(g.myDimension, g.worldDimension)
    compare(c, "geometry", attempt(py), ["describe"] + i.req + [4.0] + sum(pts, []) + [eps, t, t2], 1e-9*S*S if S > 1 else 1e-9*S)
    # lengths, areas and volumes by their name
    d = getattr(g, "myDimension", None)
    if kind in ("seg", "circle", "ellipse", "arc", "disk", "tri", "quad", "poly", "cylsurf", "cyl", "box", "sphere") or kind.split(":")[0] in ("edge", "face", "solid"):
        for k, f in ((1, G.computeLength), (2, G.computeArea), (3, G.computeVolume)):
            try: v = f(g)
            except TypeError: v = None
            except THROWN: continue
            if (v is None) != (d != k): c.fail("measures", "%s of a %s of dimension %s: %s" % (f.__name__, kind, d, v))
            elif v is not None and v != G.computeMagnitude(g): c.fail("measures", "%s %r, magnitude %r" % (f.__name__, v, G.computeMagnitude(g)))

def hollow(r, c):
    pl = Place(r); S = pl.S; ri = S*r.u(.1, .8); ro = ri + S*r.u(.05, .6); h = S*r.u(.2, 2); pts = [pl.at(r.u(-1, 1), r.u(-1, 1), r.u(-.3, 2.2)) for _ in range(6)]; q = [*pl.c, *pl.w, ri, ro, h]; c.say(q); c.nontrivial()
    def py(o):
        g = G.HollowCylinder(P(pl.c), D(pl.w), ri, ro, h) if r.b() else G.HollowCylinder(bottomCenter=P(pl.c), axis=D(pl.w), innerRadius=ri, outerRadius=ro, height=h); desc(o, g)
        for p in pts: o.n(g.contains(P(p)), g.contains(P(p), 1e-3*ro))
        o.n(G.computeMagnitude(g)); desc(o, G.HollowCylinder(ri, ro, h))
    compare(c, "hollow", attempt(py), ["hollow"] + q + [6.0] + sum(pts, []), 1e-9*S*max(1, S*S))

def construct(r, c):
    """the constructors of the package that choose the class or the arguments"""
    pl = Place(r); S = pl.S; c.say("construct", *pl.c, *pl.u, S); c.nontrivial()
    def eq(kind, a, b):
        x, y = T(), T(); desc(x, a); desc(y, b); d = difference(x, y, 1e-12*max(S, S**3)); c.count("values compared", len(x))
        if d: c.fail("construct", kind + ": " + d)
    a, b, q = pl.at(0, 0, 0), pl.at(r.u(.2, 1), r.u(.2, 1), r.u(.2, 1)), pl.at(r.u(-1, -.2), r.u(.2, 1), 0); kinds = {1: (G.Point_1, G.Vector_1, G.Direction_1), 2: (G.Point_2, G.Vector_2, G.Direction_2), 3: (G.Point_3, G.Vector_3, G.Direction_3)}
    for d, (Pd, Vd, Dd) in kinds.items():
        x, y = a[:d], b[:d]
        for g in (G.Point(*x), G.Point(list(x)), Pd(list(x)), Pd(**dict(zip("xyz", x)))):
            if type(g) is not Pd: c.fail("construct", "Point of %d coordinates is a %s" % (d, type(g).__name__))
            else: eq("point", g, Pd(*x))
        for g in ([G.Vector(*x)] if d > 1 else []) + [G.Vector(list(x)), Vd(list(x)), Vd(*x)]: eq("vector", g, Vd(*x))
        diff = [t-s for s, t in zip(x, y)]
        for g in (G.Vector(Pd(*x), Pd(*y)), Vd(Pd(*x), Pd(*y)), Vd(source=Pd(*x), target=Pd(*y))): eq("vector of points", g, Vd(*diff))
        n = norm(diff); eq("direction", G.Direction(Vd(*diff)), Dd(Vd(*diff))); eq("vector of a direction", G.Vector(Dd(Vd(*diff))), Vd(*[t/n for t in diff]))
        for v in (Pd(), Vd()):
            t = T(); co(t, v)
            if any(t): c.fail("construct", "default %s is %s" % (v.name(), t))
    eq("circle", G.Circle(P(a), D(pl.w), S), G.Circle_3(P(a), D(pl.w), S))
    eq("box", G.Box(P([min(s, t) for s, t in zip(a, b)]), P([max(s, t) for s, t in zip(a, b)])), G.Box(*[min(s, t) for s, t in zip(a, b)], *[max(s, t) for s, t in zip(a, b)]))
    R, h, z = S*r.u(.2, 1), S*r.u(.2, 1), S*r.u(-1, 1); up = D([0, 0, 1.]); k = G.Circle_3(P([0, 0, z]), up, R)
    def extents(g): t = T(); bbox(t, G.getBoundingBox(g)); t.n(g.volume() if hasattr(g, "volume") else g.area()); t.n(g.radius(), g.height()); return t
    for u, v in ((G.Cylinder(R, h, z), G.Cylinder(k, h)), (G.Cylinder(R, h), G.Cylinder(G.Circle_3(P([0, 0, 0]), up, R), h)), (G.CylinderSurface(R, h), G.CylinderSurface(G.Circle_3(P([0, 0, 0]), up, R), h)), (G.Cylinder(G.Disk(G.Ellipse_3(P(a), D(pl.u), D(pl.v), R, R)), h), G.Cylinder(G.Circle_3(P(a), D(pl.w), R), h))):
        d = difference(extents(u), extents(v), 2e-6*S + 1e-6)
        if d: c.fail("construct", "cylinder: " + d)
    p = G.Plane_3(P(a), P(b), P(q)); n = cross(sub(b, a), sub(q, a)); n = mul(1/norm(n), n); m = [p.normal().x(), p.normal().y(), p.normal().z()]
    if norm(cross(n, m)) > 1e-9: c.fail("construct", "plane through three points: normal %s, expected %s" % (m, n))
    eq("plane", G.Plane_3(P(a), D(pl.u), D(pl.v), D(pl.w)), G.Plane_3(supportPoint=P(a), base1=D(pl.u), base2=D(pl.v), normal=D(pl.w)))
    # plane curves in one and two dimensions
    for d, (Pd, Vd, Dd) in list(kinds.items())[:2]:
        Sd = G.Segment_1 if d == 1 else G.Segment_2; Ld = G.Line_1 if d == 1 else G.Line_2; s = Sd(Pd(*a[:d]), Pd(*b[:d])); t = r.u(); diff = sub(b[:d], a[:d]); x = T(); y = T()
        co(x, s.source()); y.n(*a[:d]); co(x, s.target()); y.n(*b[:d]); x.n(s.length()); y.n(norm(diff)); co(x, s.getPoint(t)); y.n(*add(a[:d], mul(t, diff))); co(x, s.direction()); y.n(*mul(1/norm(diff), diff)); co(x, s.center()); y.n(*add(a[:d], mul(.5, diff)))
        x.n(s.contains(s.getPoint(t)), s.contains(Pd(*add(a[:d], mul(1.1, diff))))); y.n(1, 0); l = Ld(Pd(*a[:d]), Dd(Vd(*diff))); pr = l.projection(Pd(*b[:d])); co(x, pr); y.n(*b[:d]); x.n(l.contains(Pd(*b[:d]))); y.n(1); e = difference(x, y, 1e-9*S)
        if e: c.fail("construct", "segment or line in %d dimensions: %s" % (d, e))

def algebra(r, c):
    d = r.i(1, 3); S = r.lu(1e-3, 1e3); f = lambda: [S*r.u(-1, 1) for _ in range(d)]; a, b, p, q = f(), f(), f(), f()
    if r.b(.2): b = mul(r.u(-2, 2), a)
    if r.b(.2): q = add(p, mul(1e-8, f()))
    s, eps = r.u(.1, 6), S*r.lu(1e-12, 2); c.say(d, a, b, p, q, s, eps); c.nontrivial(); Pd, Vd, Dd = {1: (G.Point_1, G.Vector_1, G.Direction_1), 2: (G.Point_2, G.Vector_2, G.Direction_2), 3: (G.Point_3, G.Vector_3, G.Direction_3)}[d]
    def py(o):
        A, B, X, Y = Vd(*a), Vd(*b), Pd(*p), Pd(*q)
        desc(o, A); o.n(A.squaredLength(), A.length(), A.isParallel(B), A.isParallel(B, eps), A*B); co(o, A + B); co(o, A - B); C = Vd(*a); C *= s; co(o, C); C /= s; co(o, C); desc(o, G.Direction(A)); E = Dd(A); E.invert(); co(o, E); co(o, E*s); co(o, G.Vector(X, Y)); co(o, Vd(Dd(B)))
        desc(o, X); co(o, X + A); co(o, X - A); C = Pd(*p); C += A; co(o, C); C -= B; co(o, C); C *= s; co(o, C); C /= s; co(o, C); o.n(X.isEqual(Y), X.isEqual(Y, eps), X.isEqual(X + A, eps), distance(X, Y, d))
        if d == 3: C = Vd(*a); K.rotate(C, Dd(B), s); co(o, C); o.n(G.computeMagnitude(A))
        o.n(K.toDegrees(s), K.toRadians(s)); co(o, A); co(o, X)
    def distance(X, Y, d): return G.computeDistance(X, Y) if d == 3 else math.sqrt(sum((u-v)**2 for u, v in zip(p, q)))
    cc = oracle.ask(["algebra%d" % d] + a + b + p + q + [s, eps]) + a + p; e = difference(attempt(py), cc, 1e-11*S); c.count("values compared", len(cc))
    if e: c.fail("algebra", e)

DIST = ["point", "point", "seg", "seg", "disk", "quad", "poly", "box", "cylsurf", "face:disk", "face:quad", "shape:cyl", "shape:seg"]
def spread(r, pl, far): p = Place(r, pl.S); p.c = add(pl.c, mul(pl.S*far, r.unit())); return p
def distance(r, c):
    pl = Place(r); a = item(r, r.choice(DIST), pl); n = r.choice([1, 1, 1, 2, 4]); b = [item(r, r.choice(DIST), spread(r, pl, r.u(0, 4))) for _ in range(n)]; c.say(a.kind, *[x.kind for x in b], a.req, *[x.req for x in b]); c.nontrivial(); c.count("lists", n > 1)
    obj = [x.obj for x in b] if n > 1 or r.b(.2) else b[0].obj
    cc = compare(c, "distance", attempt(lambda o: o.n(G.computeDistance(a.obj, obj))), ["distance"] + a.req + [float(n)] + sum([x.req for x in b], []), 1e-7*pl.S)
    c.count("positive", cc != ["!"] and cc[0] > 1e-6*pl.S)
def boundary(r, c):
    pl = Place(r); t = r.choice(["disk", "quad", "poly", "cylsurf", "box", "face:quad", "face:disk", "face:poly", "solid:box", "solid:cyl"]); b = item(r, t, pl); a = item(r, "point" if t == "box" or r.b(.4) else r.choice(["point", "seg", "edge:seg", "disk", "quad", "face:disk", "arc"]), spread(r, Place_small(r, pl), r.u(0, 3))); c.say(a.kind, b.kind, a.req, b.req); c.nontrivial()
    cc = compare(c, "boundary", attempt(lambda o: o.n(G.computeDistanceToBoundary(a.obj, b.obj))), ["boundary"] + a.req + b.req, 1e-7*pl.S); c.count("positive", cc != ["!"] and cc[0] > 1e-6*pl.S)
def Place_small(r, pl): p = Place(r, pl.S*r.choice([.1, .3, 1])); p.c = pl.c; return p

MEET = [("seg", "seg"), ("quad", "quad"), ("poly", "poly"), ("disk", "disk"), ("quad", "disk"), ("poly", "disk"), ("face", "disk"), ("face", "quad"), ("face", "poly"), ("face", "face"), ("cylsurf", "disk"), ("cylsurf", "quad"), ("cylsurf", "poly"), ("cylsurf", "face")]
def face(r, k): return r.choice(FACES[:3] if r.b(.8) else FACES) if k == "face" else k
def intersections(r, c):
    pl = Place(r, r.choice([.1, 1, 1, 10, 100])*r.u(.5, 2)); p, q = r.choice(MEET)
    if r.b(): p, q = q, p
    a, b = item(r, face(r, p), pl), item(r, face(r, q), spread(r, pl, r.u(0, 1)))
    if p == q == "seg":
        s = pl.at(r.u(-.1, .1), r.u(-.2, .2), 0); d = r.unit(); g = a.obj; m = [.5*(g.source().x()+g.target().x()), .5*(g.source().y()+g.target().y()), .5*(g.source().z()+g.target().z())]; m = m if r.b(.6) else s; u, v = sub(m, mul(pl.S*r.u(.2, 1), d)), add(m, mul(pl.S*r.u(.2, 1), d)); b = Item("seg", ["seg", *u, *v], G.Segment_3(P(u), P(v)), pl.S)
    eps = pl.S*r.choice([1e-7, 1e-6, 1e-5]) if r.b() else 0.0; c.say(a.kind, b.kind, eps, a.req, b.req); c.nontrivial()
    def py(o): desc(o, G.intersect(a.obj, b.obj, eps) if eps else G.intersect(a.obj, b.obj))
    cc = compare(c, "intersect", attempt(py), ["intersect", eps] + a.req + b.req, 1e-6*pl.S); c.count("met", not any(isinstance(x, str) and "Empty" in x for x in cc) and cc != ["!"])
def contained(r, c):
    pl = Place(r); b = item(r, r.choice(["box", "cyl", "solid:box", "solid:cyl"]), pl); a = item(r, r.choice(["seg", "disk", "quad", "face:disk", "face:poly", "face:quad"]), spread(r, pl, r.u(0, 1.2))); c.say(a.kind, b.kind, a.req, b.req); c.nontrivial()
    cc = compare(c, "contained", attempt(lambda o: o.n(G.computeContainedMagnitude(a.obj, b.obj))), ["contained"] + a.req + b.req, 1e-6*pl.S*max(1, pl.S)); c.count("positive", cc != ["!"] and cc[0] > 0)

def program(r, S):
    """settings of a constraints object: (request, function that applies them)"""
    calls = []
    for _ in range(r.i(0, 6)):
        k = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10]); v = {0: S*r.lu(1e-3, 1), 1: r.u(.05, 1.5), 2: S*r.lu(1e-3, .7), 3: S*r.lu(1e-3, .3), 4: S*r.choice([1e-7, 1e-6, 1e-5]), 6: float(r.b(.7))}.get(k, 0.0); calls.append((k, v))
    def make():
        o = N.EntityNetworkConstraints()
        for k, v in calls:
            if k == 0: o.setMinDistance(v)
            elif k == 1: o.setMinIntersectingAngle(v)
            elif k == 2: o.setMinIntersectionMagnitude(v)
            elif k == 3: o.setMinIntersectionDistance(v)
            elif k == 4: o.setIntersectionEpsilon(v)
            elif k == 5: o.setDefaultIntersectionEpsilon()
            elif k == 6: o.allowEquiDimensionalIntersections(v > 0)
            elif k == 7: o.neglectMinDistance()
            elif k == 8: o.neglectMinIntersectionAngle()
            elif k == 9: o.neglectMinIntersectionMagnitude()
            else: o.neglectMinIntersectionDistance()
        return o
    return [float(len(calls))] + [x for k, v in calls for x in (float(k), v)], make
def constraint(r, c):
    S = r.choice([.1, 1, 1, 10])*r.u(.5, 2); pl = Place(r, S); req, make = program(r, S); nopoly = r.b(); kinds = ["disk", "quad", "face:disk", "face:quad"] if nopoly else ["disk", "poly", "face:disk", "face:poly"]
    def some(n): return [item(r, r.choice(kinds), spread(r, pl, r.choice([r.u(0, 1), r.u(0, 3)]))) for _ in range(n)]
    la, lb = r.b(.6), r.b(.6); a, b = some(r.i(1, 3) if la else 1), some(r.i(1, 3) if lb else 1); c.say(req, *[x.kind for x in a], "|", *[x.kind for x in b], *[x.req for x in a + b]); c.nontrivial(); c.count("lists", la + lb)
    def py(o): o.n(make().evaluate([x.obj for x in a] if la else a[0].obj, [x.obj for x in b] if lb else b[0].obj))
    cc = compare(c, "verdict", attempt(py), ["constraint"] + req + [float(len(a))] + sum([x.req for x in a], []) + [float(len(b))] + sum([x.req for x in b], []), 0)
    c.count("admissible" if cc == [1.0] else "rejected" if cc == [0.0] else "thrown")
def matrix(r, c):
    S = r.choice([.1, 1, 10])*r.u(.5, 2); pl = Place(r, S); n = r.i(1, 3); cons = [program(r, S) for _ in range(n)]; kind = r.choice(["disk", "quad", "poly"]); m = N.EntityNetworkConstraintsMatrix(); objs = [f() for _, f in cons]; ids = [1, 2, 3, 7][:r.i(2, 4)]; sets = {}; req = ["matrix", float(n)] + sum([q for q, _ in cons], []) + [kind]; steps = []; o = T(); useId = r.b(.3); key = (lambda i: K.Id(i)) if useId else (lambda i: i)
    for _ in range(r.i(4, 12)):
        x = r.u()
        if x < .3:
            k = r.i(0, n-1); pairs = [(r.choice(ids), r.choice(ids)) for _ in range(r.choice([1, 1, 2, 3]))]; steps.append(["reg", float(k), float(len(pairs))] + [float(y) for p in pairs for y in p]); arg = [[key(a), key(b)] for a, b in pairs]; arg = arg[0] if len(arg) == 1 and r.b() else arg
            try: m.addConstraints(objs[k], arg); o.n(1)
            except RuntimeError: o.n(0)
        elif x < .6: i = r.choice(ids); g = item(r, kind, spread(r, pl, r.u(0, 2))); steps.append(["add", float(i)] + g.req); sets.setdefault(key(i), []).append(g.obj)
        else: i = r.choice(ids); g = item(r, kind, spread(r, pl, r.u(0, 2))); steps.append(["eval", float(i)] + g.req); o.part(lambda o: o.n(m.evaluate(sets, g.obj, key(i)))); c.count("evaluated")
    c.say(req, *steps); c.nontrivial(); cc = compare(c, "matrix", o, req + [float(len(steps))] + sum(steps, []), 0); c.count("rejected", cc.count(0.0))

def records(t):
    head = t[:6]; parts = []; cur = None
    for x in t[6:]:
        if isinstance(x, str) and x[0] == "$": cur = [x]; parts.append(cur)
        else: cur.append(x)
    return head, parts
def network(r, c):
    S = r.choice([.5, 1, 10]); plain = r.b(); nd = r.i(0, 2) if plain else r.i(1, 2); req, doms, ents = [], [], []; un = r.b(.7); eps = 0.0 if r.b(.5) else -1.0 if r.b(.3) else 1e-5*S
    q = [float(un), eps, float(nd)]; base = Place(r, S, flat=True); base.u, base.v, base.w = [1., 0, 0], [0, 1., 0], [0, 0, 1.]
    for i in range(nd):
        p = Place(r, S); p.c = [3*S*i, 0.0, 0.0]; k = r.choice(["box", "cyl", "solid:box", "solid:cyl"]); d = item(r, k, p); conf = r.b(.7); doms.append((d, 5 + 3*i, conf)); q += [float(5 + 3*i), float(conf)] + d.req
    ne = r.i(1, 4); q.append(float(ne)); lists = r.b(.4)
    for i in range(ne):
        j = r.randrange(nd) if nd else 0; p = Place(r, S*r.u(.5, 1)); p.c = add([3*S*j if nd else 0.0, 0.0, 0.0], mul(.3*S, r.unit())); e = item(r, r.choice(["disk", "quad", "poly", "face:disk", "face:poly"]), p); how = 1 if plain and (nd == 0 or r.b(.3)) else 0; sd = doms[j][1] if nd else 0; ents.append((e, sd, how)); q += [float(sd), float(how)] + e.req
    h, h2 = S*r.u(.05, .3), S*r.u(.05, .3) if r.b() else 0.0; name = "net_%d" % c.idx; c.say("plain" if plain else "contained", q, h, h2)
    def py(o):
        b = N.EntityNetworkBuilder() if plain else N.ContainedEntityNetworkBuilder()
        if not un: b.setConfineToSubDomainUnion(False)
        if eps > 0: b.setEpsilon(eps)
        if eps < 0: b.setDefaultEpsilon()
        for d, i, conf in doms: (b.addConfiningSubDomain if conf else b.addSubDomain)(d.obj, K.Id(i))
        for e, sd, how in ents:
            if lists: continue
            b.addEntity(e.obj) if how else b.addSubDomainEntity(e.obj, K.Id(sd))
        k = 0
        while lists and k < ne:   # lists of entities with the same destination
            m = k
            while m < ne and ents[m][1:] == ents[k][1:]: m += 1
            l = [e.obj for e, _, _ in ents[k:m]]; sd, how = ents[k][1:]; k = m; c.count("lists of several entities", 1 if len(l) > 1 else 0)
            b.addEntities(l) if how else b.addSubDomainEntities(l, K.Id(sd))
        w = IO.GmshWriter(b.build()); w.write(name + "_p", h, h2) if h2 else w.write(name + "_p", h); o.n(1)
    try:
        cc = compare(c, "build", attempt(py), ["network", name + "_c", float(plain), h, h2] + q, 0)
        if cc != [1.0]: c.count("not built"); return
        (h1, a), (h0, b) = records(oracle.ask(["file", name + "_p"])), records(oracle.ask(["file", name + "_c"])); c.nontrivial(); c.count("files compared"); c.count("records", len(b)); tol = 1e-5*S
        if h1 != h0: c.fail("files", "numbers of solids, faces, edges, vertices, errors, merges: Python %s, C++ %s" % (h1, h0)); return
        left = list(b)
        for x in a:
            def match(y): return x[0] == y[0] and x[1] == y[1] and x[2] == y[2] and x[3] == y[3] and all(close(s, t, tol*max(1, S) if k == 0 else 1e-4*S) for k, (s, t) in enumerate(zip(x[4:], y[4:]))) if x[0] != "$vertex" else y[0] == "$vertex" and close(x[1], y[1], 1e-9) and all(close(s, t, 1e-4*S) for s, t in zip(x[5:], y[5:]))
            k = next((i for i, y in enumerate(left) if match(y)), None)
            if k is None: c.fail("files", "record %s of the Python files is not in the C++ files; there: %s" % (x, [y for y in left if y[0] == x[0]][:3])); return
            left.pop(k)
    finally:
        for s in "pc":
            for x in ("geo", "brep"):
                f = "%s_%s.%s" % (name, s, x)
                if os.path.exists(f): os.remove(f)

def booleans(r, c):
    S = r.choice([.1, 1, 10]); pl = Place(r, S); k = r.choice(["cut", "intersect", "fragment", "fuse"]); n = 2 if k in ("cut", "intersect") else r.i(2, 3); kinds = ["box", "cyl", "quad", "disk", "solid:box", "shape:cyl"] if k in ("cut", "intersect", "fragment") else ["box", "cyl", "solid:box"]; eps = S*r.choice([1e-7, 1e-6])
    s = [item(r, r.choice(kinds), spread(r, pl, r.u(.2, 1))) for _ in range(n)]; c.say(k, eps, *[x.kind for x in s], *[x.req for x in s]); c.nontrivial()
    def py(o): shape(o, O.cut(s[0].obj, s[1].obj, eps) if k == "cut" else O.intersect(s[0].obj, s[1].obj, eps) if k == "intersect" else O.fragment([x.obj for x in s], eps) if k == "fragment" else O.fuse([x.obj for x in s], eps))
    compare(c, "boolean", attempt(py), ["booleans", k, eps, float(n)] + sum([x.req for x in s], []), 1e-6*max(S, S**3))
def translate(r, c):
    pl = Place(r); i = item(r, r.choice(EDGES + FACES + SOLIDS + SHAPES), pl); v = mul(pl.S, [r.u(-2, 2) for _ in range(3)]); c.say(i.req, v); c.nontrivial()
    compare(c, "translate", attempt(lambda o: shape(o, O.translate(i.obj, G.Vector(*v)))), ["translate", *v] + i.req, 1e-8*pl.S*max(1, pl.S*pl.S))
    a, b = T(), T(); shape(a, i.obj); comp = G.OCCCompoundWrapper(); comp.add(i.obj); shape(b, comp); e = difference(a, b, 1e-7*pl.S)
    if e: c.fail("compound", "a compound of the shape: " + e)
    f = "shape_%d.brep" % c.idx; O.write(i.obj, f); b = T(); shape(b, O.readShape(f)); os.remove(f); e = difference(a, b, 1e-7*pl.S*max(1, pl.S*pl.S))
    if e: c.fail("file", "the shape written and read: " + e)
    t = G.OCCShapeWrapper(i.obj) if not isinstance(i.obj, G.OCCShapeWrapper) else i.obj
    for get, cls in ((O.getVertices, "Vertex"), (O.getEdges, "Edge"), (O.getWires, "Wire"), (O.getFaces, "Face"), (O.getShells, "Shell"), (O.getSolids, "Solid")):
        for x in get(t):
            if type(x).__name__ != "OCC%sWrapper" % cls: c.fail("parts", "%s of the shape is a %s" % (cls, type(x).__name__))

def queue(r, f, n): return [f() for _ in range(n)]
def sampler(r, c):
    pl = Place(r); S = pl.S; k = r.choice(["box", "cyl", "disk"]); n = r.i(1, 5); c.say(k, *pl.c, S); c.nontrivial()
    def given(v): it = itertools.cycle(v); return lambda: next(it)
    def ans(q): return [float(len(q))] + q
    if k == "box": q = [queue(r, lambda: S*r.u(-2, 2), n) for _ in range(3)]; s = SA.BoxPointSampler(*[given(x) for x in q]); req = sum([ans(x) for x in q], []); out = co
    elif k == "cyl": g = item(r, "cyl", pl); q = [queue(r, lambda: (S*r.u(0, 1))**2, n), queue(r, lambda: r.u(0, 2*math.pi), n), queue(r, lambda: S*r.u(0, 2), n)]; s = SA.CylinderPointSampler(g.obj, *[given(x) for x in q]); req = g.req + sum([ans(x) for x in q], []); out = co
    else:
        axis = lambda: S*r.u(.1, 1) if r.b(.7) else S*r.u(-1, 0) if r.b(.8) else 0.0
        q = [queue(r, axis, r.i(2, 5)) + [S*r.u(.1, 1)] for _ in range(2)] + [queue(r, lambda: r.u(-7, 7), n) for _ in range(3)]; s = SA.DiskSampler(lambda: P(pl.c), *[given(x) for x in q]); req = [*pl.c] + sum([ans(x) for x in q], []); out = desc
    def py(o):
        for _ in range(n): out(o, s())
    compare(c, "sampler", attempt(py), ["sampler", k, float(n)] + req, 1e-9*S*max(1, S))
def polygons(r, c):
    """the polygon sampler of the package draws its shape itself: a convex polygon of the given kind around the given point"""
    S = r.choice([1e-8, 1e-6, 1e-4, 1e-2, 1, 1, 100, 1e4])*r.u(.5, 2); far = r.choice([0, 0, 1]); P0 = mul(S*far, [r.u(-3, 3) for _ in range(3)]); n = r.i(3, 12); a, b, ls, ld = r.u(-4, 4), r.u(-4, 4), S*r.u(.2, 2), S*r.u(.2, 2); quad = r.b(.3); c.say("quad" if quad else n, P0, a, b, ls, ld); c.nontrivial(); draws = dict(s=0, d=0, n=0)
    bad = lambda: r.choice([0.0, -S, -1e-300, -0.0]); never = r.choice(["s", "d", "n"]) if not quad and r.b(.06) else "d" if r.b(.05) else None; pre = {k: r.choice([0, 0, 0, 1, 5, 90]) for k in "sdn"}
    def draw(k, good, wrong):
        def f():
            draws[k] += 1
            if draws[k] > 10000: raise MemoryError("the sampler goes on drawing")
            return wrong() if never == k or draws[k] <= pre[k] else good
        return f
    if quad: n = 4; draws["d"] = 0
    args = [lambda: P(P0), lambda: a, lambda: b, draw("s", ls, bad), draw("d", ld, bad)]; s = SA.QuadrilateralSampler(*args) if quad else SA.PolygonSampler(*args, draw("n", n, lambda: r.choice([-3, 0, 1, 2])))
    try: g = s()
    except THROWN as e:
        if never is None: c.fail("polygon", "no polygon: %s" % e)
        else: c.count("refused")
        return
    if never: c.fail("polygon", "a polygon although no admissible %s was drawn" % never); return
    m = g.numCorners(); p = [xyz(g.corner(i)) for i in ([0, 1, 3, 2] if quad else range(m))]
    if m != n: c.fail("polygon", "%d corners, %d were drawn" % (m, n)); return
    nrm = [math.cos(a)*math.sin(b), math.sin(a)*math.sin(b), math.cos(b)]; lo = [min(x[i] for x in p) for i in range(3)]; hi = [max(x[i] for x in p) for i in range(3)]; mid = mul(.5, add(lo, hi))
    if norm(sub(mid, P0)) > 1e-9*S: c.fail("polygon", "centre %s, sampled %s" % (mid, P0))
    if max(abs(dot(sub(x, p[0]), nrm)) for x in p) > 1e-9*S: c.fail("polygon", "the plane is not that of the strike and dip angle")
    e = [sub(p[(i+1) % m], p[i]) for i in range(m)]; turn = [dot(cross(e[i], e[(i+1) % m]), nrm) for i in range(m)]; tol = 1e-12*S*S
    if not (all(t > -tol for t in turn) or all(t < tol for t in turn)): c.fail("polygon", "not convex: turns %s" % turn)
    total = sum(math.atan2(turn[i], dot(e[i], e[(i+1) % m])) for i in range(m))
    if abs(abs(total) - 2*math.pi) > 1e-5: c.fail("polygon", "the corners turn by %g" % total)
    # extents along strike and dip
    s1 = [-math.sin(a), math.cos(a), 0.0]; s2 = cross(s1, nrm)
    for ax, l, what in ((s1, ls, "strike"), (s2, ld, "dip")):
        w = [dot(x, ax) for x in p]; w = max(w) - min(w)
        if not .8*l - 1e-9*S <= w <= l*(1 + 1e-9): c.fail("polygon", "extent %g in %s direction, length %g" % (w, what, l))
    c.count("polygons"); c.count("small" if S < 1e-5 else "other")
def quads(r, c):
    """the older algorithm of the quadrilateral sampler: four half edges along strike and dip"""
    import warnings; S = scale(r); P0 = mul(S, [r.u(-3, 3) for _ in range(3)]); a, b = r.u(-4, 4), r.u(-4, 4); bad = r.b(.5); l = [S*r.u(.2, 1) for _ in range(4)]
    if bad:
        for _ in range(r.i(1, 6)): l.insert(r.i(0, len(l)), S*r.u(-1, .09))
        l += [S*r.u(.2, 1) for _ in range(8)]
    it = iter(l + [S]*8); c.say(P0, a, b, l); c.nontrivial()
    with warnings.catch_warnings(): warnings.simplefilter("ignore"); s = SA.QuadrilateralSampler(lambda: P(P0), lambda: a, lambda: b, lambda: next(it), .1*S)
    g = s(); p = [xyz(g.corner(i)) for i in range(4)]; y = [-math.sin(a), math.cos(a), 0.0]; x = rot([math.cos(a), math.sin(a), 0.0], y, b); h = mul(.5, [1, 1])
    if bad:   # which of the admissible draws went where is left open, but four different ones have to be used
        d0, d3 = sub(p[0], P0), sub(p[3], P0); used = [-2*dot(d0, x), 2*dot(d3, x), -2*dot(d0, y), 2*dot(d3, y)]; at = [next((k for k, v in enumerate(l) if abs(v - u) <= 1e-9*S), None) for u in used]; c.count("with inadmissible draws")
        if None in at or len(set(at)) < 4 or min(used) < .1*S: c.fail("quad", "edge lengths %s are not four admissible draws of %s" % (used, l)); return
        l = used
    exp = [add(P0, add(mul(sx*l[0 if sx < 0 else 1]/2, x), mul(sy*l[2 if i in (0, 2) else 3]/2, y))) for i, (sx, sy) in enumerate(((-1, -1), (1, -1), (-1, 1), (1, 1)))]
    for i, (u, v) in enumerate(zip(p, exp)):
        if norm(sub(u, v)) > 1e-9*S: c.fail("quad", "corner %d is %s, expected %s" % (i, u, v)); return
def status(r, c):
    s = SA.SamplingStatus(); n = r.i(3, 40); calls = [(r.i(0, 9), r.choice([1, 2, 5]), r.i(0, 3)) for _ in range(n)]; o = T(); c.say(calls); c.nontrivial(); null = os.open(os.devnull, os.O_WRONLY); keep = os.dup(1); os.dup2(null, 1)
    try:
        for k, i, v in calls:
            I = K.Id(i)
            def f(o):
                if k == 0: s.setTargetCount(I, v)
                elif k == 1: s.increaseCounter(I)
                elif k == 2: s.increaseRejectedCounter()
                elif k == 3: s.resetCounter(I)
                elif k == 4: s.resetCounters()
                elif k == 5: s.reset()
                elif k == 6: o.n(s.finished())
                elif k == 7: o.n(s.finished(I))
                elif k == 8: o.n(s.getCount())
                else: o.n(s.getCount(I))
            o.part(f)
    finally: os.dup2(keep, 1); os.close(keep); os.close(null)
    for i in (1, 2, 5):
        if K.Id(i) != K.Id(i) or hash(K.Id(i)) != hash(K.Id(i)) or K.Id(i).get() != i or K.Id(i) == K.Id(i+1): c.fail("id", "ids %d" % i)
    compare(c, "status", o, ["status", float(n)] + [float(x) for t in calls for x in t], 0)

for k, n in dict(describe=9000, construct=2000, algebra=6000, distance=150, boundary=100, intersect=4000, constraint=120, matrix=150, boolean=600, translate=1000, sampler=1500, status=800, hollow=4000).items(): require(k + ":values compared", n)
for k, n in {"distance:lists": 40, "distance:positive": 80, "boundary:positive": 80, "intersect:met": 120, "contained:positive": 20, "constraint:lists": 100, "constraint:admissible": 60, "constraint:rejected": 15, "matrix:evaluated": 150, "network:files compared": 40, "network:records": 500, "polygon:polygons": 300, "polygon:small": 40, "polygon:refused": 15}.items(): require(k, n)
section("describe", 1600, 20000, describe)
section("hollow", 100, 1000, hollow)
section("construct", 100, 1000, construct)
section("algebra", 400, 4000, algebra)
section("distance", 400, 5000, distance)
section("boundary", 300, 4000, boundary)
section("intersect", 500, 6000, intersections)
section("contained", 120, 1500, contained)
section("constraint", 400, 5000, constraint)
section("matrix", 150, 1500, matrix)
section("network", 120, 1500, network)
section("boolean", 120, 1500, booleans)
section("translate", 200, 2000, translate)
section("sampler", 300, 3000, sampler)
section("polygon", 800, 20000, polygons)
section("quad", 100, 1000, quads)
section("status", 200, 2000, status)
finish()
