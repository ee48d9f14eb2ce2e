// C20: shapes, bounding boxes, boolean helpers, conversions.
#include "objs.hh"
#include "net.hh"
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/geometryutilities/isplanar.hh>
#include <frackit/occ/geomutilities.hh>
#include <frackit/occ/gputilities.hh>
#include <BRepCheck_Analyzer.hxx>
#include <BRepClass3d_SolidClassifier.hxx>
#include <BRepBuilderAPI_MakeVertex.hxx>
#include <filesystem>
#include <fstream>
using namespace vf;
namespace U = F::OCCUtilities;
namespace fs = std::filesystem;
namespace {
double place0(Rng& r) { static const double f[] = {0, 0, 1, 10}; return f[r.i(4)]; }
double scaleOf(Rng& r) { static const double s[] = {0.1, 1, 1, 1, 10, 100, 1000}; return s[r.i(7)]*r.u(0.5, 2); }
int dimOf(int k) { return k == KPoint ? 0 : k <= KArc ? 1 : k <= KLateral ? 2 : 3; }
double measureOf(const Obj& o)
{
    switch (o.k) { case KPoint: return 0; case KSegment: return dist(o.p, o.q); case KCircle: return 2*M_PI*o.m.a; case KEllipse: return ellipseLength(o.m.a, o.m.b); case KArc: return ellipseArcLength(o.m.a, o.m.b, o.t0, o.t0 + o.dt); case KDisk: case KQuad: case KPolygon: case KStar: return o.m.area(); case KLateral: return 2*M_PI*o.d.cyl.r*o.d.cyl.h; default: return o.d.volume(); }
}
double sizeOf(const Obj& o) { return o.k == KPoint ? 0 : o.k == KSegment ? dist(o.p, o.q) : o.k <= KStar ? o.m.size() : o.d.diag(); }
template<class T> struct ShapeOf { static constexpr int type = -1; };
std::vector<V3> cornersOf(const Obj& o)
{
    std::vector<V3> v; if (o.k == KPoint) v = {o.p}; else if (o.k == KSegment) v = {o.p, o.q}; else if (o.k == KArc) v = {o.at(0), o.at(1)}; else if (o.k == KQuad || o.k == KPolygon || o.k == KStar) for (std::size_t i = 0; i < o.m.poly.size(); ++i) v.push_back(o.m.corner(int(i))); else if (o.k == KBox) for (int i = 0; i < 8; ++i) v.push_back(V3(i & 1 ? o.d.hi.x : o.d.lo.x, i & 2 ? o.d.hi.y : o.d.lo.y, i & 4 ? o.d.hi.z : o.d.lo.z)); return v;
}
double distToShape(V3 x, const TopoDS_Shape& s) { return occDistance(BRepBuilderAPI_MakeVertex(gp_Pnt(x.x, x.y, x.z)).Shape(), s); }
template<class S> void accessors(Case& c, const S& s)
{
    auto same = [&](const auto& got, TopAbs_ShapeEnum t, const char* what) { TopTools_IndexedMapOfShape want, have; TopExp::MapShapes(s, t, want); int n = 0; for (TopExp_Explorer x(s, t); x.More(); x.Next()) n++; for (const auto& g : got) { if (g.IsNull() || g.ShapeType() != t) { c.fail("accessor", str(what, " returned another kind of shape")); return; } have.Add(g); if (!want.Contains(g)) { c.fail("accessor", str(what, " returned a shape that is not part of it")); return; } } if (have.Extent() != want.Extent() || int(got.size()) != n) c.fail("accessor", str(what, " returned ", got.size(), " (", have.Extent(), " distinct) of ", n, " (", want.Extent(), ")")); };
    same(U::getVertices(s), TopAbs_VERTEX, "getVertices"); same(U::getEdges(s), TopAbs_EDGE, "getEdges"); same(U::getWires(s), TopAbs_WIRE, "getWires"); same(U::getFaces(s), TopAbs_FACE, "getFaces"); same(U::getShells(s), TopAbs_SHELL, "getShells"); same(U::getSolids(s), TopAbs_SOLID, "getSolids");
}
// Gauss-Legendre (5 points) on 64 pieces of the parameter range; one piece suffices for lines
double curveLength(const BRepAdaptor_Curve& c)
{
    static const double x[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640}, w[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891};
    const int n = c.GetType() == GeomAbs_Line ? 1 : 256; const double a = c.FirstParameter(), h = (c.LastParameter() - a)/n; double A = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) { gp_Pnt p; gp_Vec d; c.D1(a + h*(i + 0.5 + 0.5*x[k]), p, d); A += 0.5*h*w[k]*d.Magnitude(); } return A;
}
double measure(const TopoDS_Shape& s, int dim)
{ GProp_GProps g; if (s.IsNull()) return 0; if (dim == 1) { double A = 0; for (TopExp_Explorer e(s, TopAbs_EDGE); e.More(); e.Next()) { if (BRep_Tool::Degenerated(TopoDS::Edge(e.Current()))) continue; BRepAdaptor_Curve c(TopoDS::Edge(e.Current())); A += curveLength(c); } return A; } else if (dim == 2) BRepGProp::SurfaceProperties(s, g, 1e-9); else BRepGProp::VolumeProperties(s, g, 1e-9); return std::abs(g.Mass()); }
// sum over the distinct sub-shapes of that dimension
double total(const TopoDS_Shape& s, int dim) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, dim == 3 ? TopAbs_SOLID : dim == 2 ? TopAbs_FACE : TopAbs_EDGE, m); double A = 0; for (int i = 1; i <= m.Extent(); ++i) A += measure(m(i), dim); return A; }
int countOf(const TopoDS_Shape& s, int dim) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, dim == 3 ? TopAbs_SOLID : dim == 2 ? TopAbs_FACE : TopAbs_EDGE, m); return m.Extent(); }
struct Scratch { std::string dir; Scratch() { std::string t = (fs::temp_directory_path()/"verif_c20_XXXXXX").string(); if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory"); dir = t; } ~Scratch() { std::error_code e; if (dir.find("verif_c20_") != std::string::npos) fs::remove_all(dir, e); } };
Obj solidObj(const Solid& d) { Obj o; o.k = KBox + d.kind; o.d = d; return o; }
}
int main(int argc, char** argv)
{
    parse(argc, argv); Scratch scratch;
    section("shape", 1300, 40000, [](Rng& r, Case& c) {
        const double s = scaleOf(r); const int k = r.i(NKinds); Obj o = randObj(r, k, randVec(r, place0(r)*s), s); o.describe(c.in); const double L = sizeOf(o), at = norm(o.center()), tol = 2e-7*L + 1e-12*at + (k == KPoint ? 1e-15 : 0) + 1e-9; c.nontrivial(kindName(k));
        TopoDS_Shape sh; int dim = -1; bool typed = true; o.visit([&](const auto& g) { const auto x = U::getShape(g); sh = x; accessors(c, x); dim = F::getDimension(g); if constexpr (!std::is_same<std::decay_t<decltype(x)>, TopoDS_Shape>::value) { const auto& y = U::getShape(x); typed = y.IsSame(x) && F::getDimension(x) == dim; } });
        const int D = dimOf(k); if (dim != D) c.fail("dimension", str("getDimension() = ", dim)); if (!typed) c.fail("identity", "getShape() of a shape is not the shape, or its dimension differs"); c.count(kindName(k)); if (!BRepCheck_Analyzer(sh).IsValid()) c.fail("invalid", "OpenCascade considers the shape invalid");
        if (D > 0) { const double m = measure(sh, D), want = measureOf(o); if (!(std::abs(m - want) <= (k == KArc || k == KEllipse ? 2e-6 : 1e-7)*want + 1e-13*at*std::pow(L, D-1))) c.fail("measure", str("the shape measures ", m, ", the geometry ", want)); }
        // corners
        auto corners = cornersOf(o); if (!corners.empty())
        {
            TopTools_IndexedMapOfShape vm; TopExp::MapShapes(sh, TopAbs_VERTEX, vm); if (vm.Extent() != int(corners.size())) c.fail("vertices", str(vm.Extent(), " vertices for ", corners.size(), " corners")); std::vector<char> hit(corners.size(), 0);
            for (const auto& v : U::getVertices(sh)) { const V3 x = rp(U::point(v)); int best = -1; for (std::size_t i = 0; i < corners.size(); ++i) if (dist(x, corners[i]) <= 1e-9*L + 1e-14*at) best = int(i); if (best < 0) { c.fail("vertices", str("vertex ", x, " is no corner")); break; } hit[best] = 1; } for (char h : hit) if (!h) c.fail("vertices", "a corner has no vertex"); c.count("corners");
        }
        // edges lie on the boundary, edges of polygons connect consecutive corners
        TopTools_IndexedMapOfShape em; TopExp::MapShapes(sh, TopAbs_EDGE, em); for (int i = 1; i <= em.Extent() && !c.failed; ++i) { const TopoDS_Edge e = TopoDS::Edge(em(i)); if (BRep_Tool::Degenerated(e)) continue; BRepAdaptor_Curve cv(e); const double a = cv.FirstParameter(), z = cv.LastParameter(); for (double t : {0.0, 0.21, 0.5, 0.83, 1.0}) { const V3 x = rg(cv.Value(a + t*(z-a))); const double d = D == 1 ? o.dist(x) : D == 2 && k != KLateral ? o.rim(x) : k == KLateral ? o.dist(x) : std::abs(o.d.signedDist(x)); if (!(d <= tol)) { c.fail("boundary", str("an edge of the shape passes ", x, ", ", d, " away from the geometry")); break; } } }
        if (k == KQuad || k == KPolygon || k == KStar) { if (em.Extent() != int(corners.size())) c.fail("boundary", str(em.Extent(), " edges for ", corners.size(), " corners")); const int n = int(corners.size()); for (int i = 0; i < n && !c.failed; ++i) { const V3 x = 0.5*(corners[i] + corners[(i+1)%n]); double best = 1e300; for (int j = 1; j <= n; ++j) best = std::min(best, edgeData(TopoDS::Edge(em(j))).dist(x)); if (best > tol) c.fail("boundary", str("the edge between corners ", i, " and ", (i+1)%n, " is missing")); } }
        // points of the geometry belong to the shape
        for (int i = 0; i < 4 && !c.failed; ++i) { const V3 x = o.rnd(r); if (D == 3) { BRepClass3d_SolidClassifier q(sh, gp_Pnt(x.x, x.y, x.z), 1e-7*L); if (-o.d.signedDist(x) > 1e-5*L && q.State() != TopAbs_IN) c.fail("points", str("a point inside the geometry is not inside the shape: ", x)); const V3 y = o.center() + randVec(r, 1.3*L); BRepClass3d_SolidClassifier w(sh, gp_Pnt(y.x, y.y, y.z), 1e-7*L); if (o.d.signedDist(y) > 1e-5*L && w.State() != TopAbs_OUT) c.fail("points", str("a point outside the geometry is not outside the shape: ", y)); }
            else { const double d = distToShape(x, sh); if (!(d <= tol)) c.fail("points", str("a point of the geometry is ", d, " away from the shape: ", x)); } c.count("points"); }
    });
    section("bbox", 1300, 40000, [](Rng& r, Case& c) {
        const double s = scaleOf(r); const int k = r.i(NKinds); Obj o = randObj(r, k, randVec(r, place0(r)*s), s); o.describe(c.in); c.nontrivial(kindName(k)); const double L = sizeOf(o), at = norm(o.center()); const bool viaShape = r.b(); c.in << (viaShape ? " shape" : "");
        const FBox b = o.visit([&](const auto& g) -> FBox { if (viaShape) return U::getBoundingBox(U::getShape(g)); return F::getBoundingBox(g); }); const double lo[3] = {b.xMin(), b.yMin(), b.zMin()}, hi[3] = {b.xMax(), b.yMax(), b.zMax()};
        Obj e = o; double ext[2][3]; const V3 ax[3] = {V3(1,0,0), V3(0,1,0), V3(0,0,1)};
        for (int d = 0; d < 3; ++d) for (int q = 0; q < 2; ++q)
        {
            const V3 n = q ? ax[d] : -ax[d]; double v;
            if (k == KCircle || k == KEllipse || k == KDisk) v = dot(n, o.m.f.o) + std::hypot(o.m.a*dot(n, o.m.f.u), (k == KCircle ? o.m.a : o.m.b)*dot(n, o.m.f.v));
            else if (k == KArc) { const double A = o.m.a*dot(n, o.m.f.u), B = o.m.b*dot(n, o.m.f.v); v = std::max(dot(n, o.at(0)), dot(n, o.at(1))); double t = std::atan2(B, A) - o.t0; t -= 2*M_PI*std::floor(t/(2*M_PI)); if (t <= o.dt) v = std::max(v, dot(n, o.m.f.o) + std::hypot(A, B)); }
            else if (k == KQuad || k == KPolygon || k == KStar) { v = -1e300; for (std::size_t i = 0; i < o.m.poly.size(); ++i) v = std::max(v, dot(n, o.m.corner(int(i)))); }
            else { if (k == KLateral) e.k = KCylinder; v = e.support(n); }
            ext[q][d] = v; const double side = q ? hi[d] : -lo[d];
            if (!(side >= v - 1e-9*L - 1e-13*at)) c.fail("not-contained", str("the box ends at ", side, " in direction ", n, ", the geometry reaches ", v)); if (!(side <= v + 1e-6*L + 2e-6 + 1e-13*at)) c.fail("not-tight", str("the box ends at ", side, " in direction ", n, ", the geometry at ", v)); c.count("sides");
        }
        (void)ext;
    });
    // two solids: inclusion and exclusion, with reference volumes where they are known
    section("solids", 700, 20000, [](Rng& r, Case& c) {
        const double s = scaleOf(r); const V3 o = randVec(r, place0(r)*s); Solid A = randSolid(r, o, s, r.i(3)), B = randSolid(r, o + randVec(r, 0.8*s), s*r.u(0.4, 1), r.i(3)); A.describe(c.in); c.in << " / "; B.describe(c.in); const double eps = r.b(0.5) ? 1e-7*s : s*r.lu(1e-9, 1e-6);
        if (A.kind == 0 && B.kind == 0) { const double* a[2] = {&A.lo.x, &A.hi.x}; const double* b[2] = {&B.lo.x, &B.hi.x}; for (int d = 0; d < 3; ++d) for (auto p : a) for (auto q : b) if (std::abs(p[d]-q[d]) < 0.01*s) throw Skip{"near contact"}; }
        else if (A.kind == 1 && B.kind == 1) { const double d = dist(A.c, B.c); if (std::abs(d - A.r - B.r) < 0.02*s || std::abs(d - std::abs(A.r - B.r)) < 0.02*s) throw Skip{"near contact"}; }
        const TopoDS_Shape a = solidObj(A).shape(), b = solidObj(B).shape(); const double VA = A.volume(), VB = B.volume(); double want = -1;
        if (A.kind == 0 && B.kind == 0) { want = 1; for (int d = 0; d < 3; ++d) want *= std::max(0.0, std::min((&A.hi.x)[d], (&B.hi.x)[d]) - std::max((&A.lo.x)[d], (&B.lo.x)[d])); }
        else if (A.kind == 1 && B.kind == 1) { const double d = dist(A.c, B.c), R = A.r, q = B.r; want = d >= R + q ? 0 : d <= std::abs(R - q) ? std::min(VA, VB) : M_PI*(R+q-d)*(R+q-d)*(d*d + 2*d*(R+q) - 3*(R-q)*(R-q))/(12*d); }
        else
        {   // scan along lines of a fixed direction through the first solid
            double sum = 0; const int N = 90; const V3 m = solidObj(A).center(); const double H = 0.51*A.diag(); const V3 d = unit(V3(0.3, 0.5, 0.81)), e = anyPerp(d, 0.4), f = cross(d, e); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { const V3 p = m + (2*(i+0.5)/N - 1)*H*e + (2*(j+0.5)/N - 1)*H*f; auto x = A.line(p, d), y = B.line(p, d); if (x[1] > x[0] && y[1] > y[0]) sum += std::max(0.0, std::min(x[1], y[1]) - std::max(x[0], y[0])); } want = sum*4*H*H/(N*N);
        }
        const bool exact = A.kind == B.kind && A.kind < 2; const TopoDS_Shape I = U::intersect(a, b, eps), Cu = U::cut(a, b, eps), Fu = U::fuse({a, b}, eps), Fr = U::fragment(std::vector<TopoDS_Shape>{a, b}, eps); const double VI = total(I, 3), VC = total(Cu, 3), VF = total(Fu, 3), VR = total(Fr, 3); c.nontrivial(str(A.kind, B.kind));
        const double tol = 2e-5*(VA + VB) + 10*eps*s*s; c.count(want > 1e-9*VA ? "overlapping" : "apart");
        // OpenCascade misses some intersections of curved surfaces altogether; that is no matter of the wrappers
        if (!exact) { BRepAlgoAPI_Common raw(a, b); raw.SetRunParallel(false); raw.SetFuzzyValue(eps); raw.Build(); const double VO = total(raw.Shape(), 3); if (std::abs(VI - VO) > tol) c.fail("intersect", str("the intersection has volume ", VI, ", that of OpenCascade ", VO)); if (std::abs(VO - want) > 0.03*std::min(VA, VB) + 0.02*want) { c.count("missed by OpenCascade"); return; } }
        else if (std::abs(VI - want) > tol) c.fail("intersect", str("the intersection has volume ", VI, ", expected ", want));
        const double w = exact ? tol : tol + 0.03*std::min(VA, VB); // (OpenCascade's volumes are inaccurate for solids with intersection curves on curved faces)
        if (std::abs(VC - (VA - VI)) > w) c.fail("cut", str("the cut has volume ", VC, ", expected ", VA, " - ", VI)); if (std::abs(VF - (VA + VB - VI)) > w) c.fail("fuse", str("the union has volume ", VF, ", expected ", VA + VB - VI)); if (std::abs(VR - (VA + VB - VI)) > w) c.fail("fragment", str("the fragments have volume ", VR, ", expected ", VA + VB - VI)); c.count(exact ? "judged exactly" : "judged");
        const double inA = std::abs(measure(a, 3) - VA); if (inA > 1e-6*VA) c.fail("modified", "the operation modified its argument");
    });
    // sets of lattice boxes and rectangles: exact measures and numbers of parts
    section("lattice", 700, 20000, [](Rng& r, Case& c) {
        const double h = scaleOf(r)*0.3; const V3 o = randVec(r, place0(r)*h); const int N = 4, dim = r.b(0.6) ? 3 : 2, n = r.i(2, 4); struct B { int lo[3], hi[3]; bool in(int i, int j, int k) const { return i >= lo[0] && i < hi[0] && j >= lo[1] && j < hi[1] && k >= lo[2] && k < hi[2]; } }; std::vector<B> v; std::vector<TopoDS_Shape> sh; const int ax = r.i(3);
        for (int q = 0; q < n; ++q) { B b; for (int d = 0; d < 3; ++d) { b.lo[d] = r.i(N); b.hi[d] = r.i(b.lo[d]+1, N); if (dim == 2 && d == ax) { b.lo[d] = 0; b.hi[d] = 1; } } v.push_back(b); const V3 lo = o + h*V3(b.lo[0], b.lo[1], b.lo[2]), hi = o + h*V3(b.hi[0], b.hi[1], b.hi[2]); c.in << " [" << b.lo[0] << b.lo[1] << b.lo[2] << "-" << b.hi[0] << b.hi[1] << b.hi[2] << "]";
            if (dim == 3) sh.push_back(U::getShape(FBox(lo.x, lo.y, lo.z, hi.x, hi.y, hi.z))); else { V3 P[4] = {lo, lo, lo, lo}; const int u = ax == 0 ? 1 : 0, w = ax == 2 ? 1 : 2; (&P[1].x)[u] = (&hi.x)[u]; (&P[2].x)[w] = (&hi.x)[w]; (&P[3].x)[u] = (&hi.x)[u]; (&P[3].x)[w] = (&hi.x)[w]; sh.push_back(U::getShape(Quad3(fp(P[0]), fp(P[1]), fp(P[2]), fp(P[3])))); } }
        c.in << " dim=" << dim << " h=" << h << " at " << o; c.nontrivial(str(dim, n)); const double u = std::pow(h, dim), eps = 1e-7*h, tol = 1e-6*u*N*N*N; auto cells = [&](auto&& f) { int m = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) m += f(i, j, k); return m; };
        const int a = cells([&](int i, int j, int k) { return v[0].in(i,j,k); }), ab = cells([&](int i, int j, int k) { return v[0].in(i,j,k) && v[1].in(i,j,k); }), all = cells([&](int i, int j, int k) { for (auto& b : v) if (b.in(i,j,k)) return true; return false; });
        auto eq = [&](const char* what, const TopoDS_Shape& s, int want) { const double m = total(s, dim); c.count("judged"); if (std::abs(m - want*u) > tol) c.fail(what, str("measure ", m/u, " cells, expected ", want)); };
        eq("intersect", U::intersect(sh[0], sh[1], eps), ab); eq("cut", U::cut(sh[0], sh[1], eps), a - ab); eq("fuse", U::fuse(sh, eps), all); const TopoDS_Shape fr = U::fragment(sh, eps); eq("fragment", fr, all);
        // fragments: connected sets of cells that belong to the same boxes
        std::map<std::string,int> label; std::vector<int> id(N*N*N, 0); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) { std::string t; for (auto& b : v) t += b.in(i,j,k) ? '1' : '0'; if (t.find('1') != std::string::npos) id[(i*N+j)*N+k] = label.emplace(t, int(label.size()) + 1).first->second; }
        int parts = 0; std::vector<char> seen(N*N*N, 0); for (int s = 0; s < N*N*N; ++s) if (id[s] && !seen[s]) { parts++; std::vector<int> st{s}; seen[s] = 1; while (!st.empty()) { const int q = st.back(); st.pop_back(); const int x[3] = {q/(N*N), (q/N)%N, q%N}; for (int d = 0; d < 3; ++d) for (int g = -1; g < 2; g += 2) { int y[3] = {x[0], x[1], x[2]}; y[d] += g; if (y[d] < 0 || y[d] >= N) continue; const int t = (y[0]*N+y[1])*N+y[2]; if (id[t] == id[q] && !seen[t]) { seen[t] = 1; st.push_back(t); } } } }
        if (countOf(fr, dim) != parts) c.fail("fragment", str(countOf(fr, dim), " fragments, expected ", parts)); c.count(parts > n ? "cut" : "few parts");
        // adjacent fragments share edges
        if (dim == 2) { const auto faces = U::getFaces(fr); for (std::size_t i = 0; i < faces.size(); ++i) for (std::size_t j = 0; j < faces.size(); ++j) if (i != j) { TopTools_IndexedMapOfShape e1, e2; TopExp::MapShapes(faces[i], TopAbs_EDGE, e1); TopExp::MapShapes(faces[j], TopAbs_EDGE, e2); std::set<int> want; for (int k = 1; k <= e1.Extent(); ++k) if (e2.Contains(e1(k))) want.insert(k); std::set<int> got; const auto ov = U::getOverlapEdges(faces[i], faces[j]); for (const auto& e : ov) got.insert(e1.FindIndex(e)); if (got != want || ov.size() != want.size()) c.fail("overlap-edges", str(ov.size(), " common edges, expected ", want.size())); if (!want.empty()) c.count("common edges"); } }
    });
    section("faces", 500, 14000, [](Rng& r, Case& c) {
        const double s = scaleOf(r); const V3 o = randVec(r, place0(r)*s); Planar m = randEntity(r, o + randVec(r, 0.5*s), s*r.u(0.3, 1.5)); Solid D = randSolid(r, o, s, r.i(3)); if (nearDegenerate(m, D)) throw Skip{"near contact"}; Obj q; q.k = m.isDisk ? KDisk : KPolygon; q.m = m; q.describe(c.in); D.describe(c.in); c.nontrivial(); const double eps = 1e-7*s, A = m.area(), in = clippedArea(m, D), tol = 3e-5*A + 1e-6*s*m.size(); const TopoDS_Shape f = q.shape(), d = solidObj(D).shape();
        const double I = total(U::intersect(f, d, eps), 2), I2 = total(U::intersect(d, f, eps), 2), C = total(U::cut(f, d, eps), 2); if (std::abs(I - in) > tol || std::abs(I2 - in) > tol) c.fail("intersect", str("the part inside has area ", I, " and ", I2, ", expected ", in)); if (std::abs(C - (A - in)) > tol) c.fail("cut", str("the part outside has area ", C, ", expected ", A - in)); c.count(in > 0 && in < 0.999999*A ? "across" : "inside or outside");
        // a face cuts a solid into parts of the same total volume
        const TopoDS_Shape fr = U::fragment(std::vector<TopoDS_Shape>{f, d}, eps); if (std::abs(total(fr, 3) - D.volume()) > 1e-4*D.volume()) c.fail("fragment", str("the fragments of the solid have volume ", total(fr, 3), ", expected ", D.volume()));
    });
    section("copies", 900, 26000, [&](Rng& r, Case& c) {
        const double s = scaleOf(r); const int k = r.i(NKinds), D = dimOf(k); Obj o = randObj(r, k, randVec(r, place0(r)*s), s); o.describe(c.in); c.nontrivial(kindName(k)); const TopoDS_Shape sh = o.shape(); const V3 v = randVec(r, s*r.lu(1e-3, 30)); c.in << " by " << v; const double L = sizeOf(o) + norm(v) + norm(o.center());
        auto alikeShape = [&](const TopoDS_Shape& a, const TopoDS_Shape& b, V3 by, const char* what) {
            for (auto t : {TopAbs_VERTEX, TopAbs_EDGE, TopAbs_FACE, TopAbs_SOLID}) { TopTools_IndexedMapOfShape x, y; TopExp::MapShapes(a, t, x); TopExp::MapShapes(b, t, y); if (x.Extent() != y.Extent()) { c.fail(what, str("the copy has ", y.Extent(), " sub-shapes of a kind, the original ", x.Extent())); return; }
                for (int i = 1; i <= x.Extent(); ++i) { if (t == TopAbs_VERTEX) { const V3 p = rg(BRep_Tool::Pnt(TopoDS::Vertex(x(i)))), q = rg(BRep_Tool::Pnt(TopoDS::Vertex(y(i)))); if (dist(p + by, q) > 1e-12*L) c.fail(what, str("vertex ", p, " moved to ", q)); } else if (!(t == TopAbs_EDGE && BRep_Tool::Degenerated(TopoDS::Edge(x(i))))) { V3 p, q; const double m = shapeMeasure(x(i), &p), n = shapeMeasure(y(i), &q); if (dist(p + by, q) > 1e-9*L || std::abs(m-n) > 1e-9*std::abs(m) + 1e-12) { c.fail(what, str("a sub-shape at ", p, " of measure ", m, " became ", q, ", ", n)); return; } } } } c.count(what); };
        const TopoDS_Shape t = U::translate(sh, fv(v)); if (t.ShapeType() != sh.ShapeType()) c.fail("translated", "the type changed"); alikeShape(sh, t, v, "translated"); alikeShape(sh, o.shape(), V3(0,0,0), "unmodified"); alikeShape(sh, U::translate(t, fv(-v)), V3(0,0,0), "moved back");
        if (r.b(0.6)) { const std::string f = scratch.dir + "/shape.brep"; BRepTools::Write(sh, f.c_str()); const TopoDS_Shape q = U::readShape(f); if (q.IsNull()) c.fail("read", "the shape could not be read"); else { if (q.ShapeType() != sh.ShapeType()) c.fail("read", "the type changed"); alikeShape(sh, q, V3(0,0,0), "read"); } }
        (void)D;
    });
    section("conversions", 600, 20000, [](Rng& r, Case& c) {
        const double s = scaleOf(r); const V3 p = randVec(r, s*20); c.in << p; c.nontrivial(); using P1 = F::Point<double,1>; using P2 = F::Point<double,2>; auto same = [&](V3 a, V3 b, const char* what, double tol = 0) { c.count("conversions"); if (!(dist(a, b) <= tol)) c.fail(what, str(a, " instead of ", b)); };
        same(rg(U::point(fp(p))), p, "point"); same(rp(U::point(U::point(fp(p)))), p, "point"); same(rg(U::point(P2(p.x, p.y))), V3(p.x, p.y, 0), "point2"); same(rg(U::point(P1(p.x))), V3(p.x, 0, 0), "point1");
        const gp_Vec w = U::vector(fv(p)); same(V3(w.X(), w.Y(), w.Z()), p, "vector"); same(rv(U::vector(w)), p, "vector"); const V3 u = unit(p); const gp_Dir d = U::direction(fd(u)); same(V3(d.X(), d.Y(), d.Z()), u, "direction", 1e-14); same(rd(U::direction(d)), u, "direction", 1e-14);
        const F::Direction<double,2> d2(F::Vector<double,2>(p.x, p.y)); const gp_Dir g2 = U::direction(d2); same(V3(g2.X(), g2.Y(), g2.Z()), V3(p.x, p.y, 0)/std::hypot(p.x, p.y), "direction2", 1e-14); const F::Direction<double,1> d1(F::Vector<double,1>(p.x)); const gp_Dir g1 = U::direction(d1); same(V3(g1.X(), g1.Y(), g1.Z()), V3(p.x > 0 ? 1 : -1, 0, 0), "direction1", 1e-14);
        // curves: parameters are angles on the ellipse
        Obj o = randObj(r, KArc, p, s); const double tol = 1e-9*s + 1e-13*norm(p); const auto he = U::getGeomHandle(Ellipse3(fp(o.m.f.o), fd(o.m.f.u), fd(o.m.f.v), o.m.a, o.m.b)); for (int i = 0; i < 4; ++i) { const double t = r.u(0, 2*M_PI); same(rg(he->Value(t)), o.m.f.at(o.m.a*std::cos(t), o.m.b*std::sin(t)), "ellipse-curve", tol); }
        const auto ha = U::getGeomHandle(o.arc()); const double f = ha->FirstParameter(), l = ha->LastParameter(); if (!(std::abs(l - f - o.dt) < 1e-6)) c.fail("arc-curve", str("the curve spans ", l - f, ", the arc ", o.dt)); for (double t : {0.0, 0.13, 0.5, 0.77, 1.0}) same(rg(ha->Value(f + t*(l-f))), o.at(t), "arc-curve", 1e-6*s);
        const TopoDS_Edge e = U::getShape(o.arc()); const auto hc = U::getGeomHandle(e); same(rg(hc->Value(hc->FirstParameter())), o.at(0), "edge-curve", 1e-6*s); same(rg(hc->Value(hc->LastParameter())), o.at(1), "edge-curve", 1e-6*s); same(rg(hc->Value(0.5*(hc->FirstParameter() + hc->LastParameter()))), o.at(0.5), "edge-curve", 1e-6*s);
        Planar m = randPolygon(r, p, s, 4); const TopoDS_Face fc = U::getShape(fquad(m)); const auto sf = U::getGeomHandle(fc); gp_Pnt a; gp_Vec x, y; sf->D1(r.u(-s, s), r.u(-s, s), a, x, y); const V3 n = cross(V3(x.X(), x.Y(), x.Z()), V3(y.X(), y.Y(), y.Z())); if (std::abs(dot(rg(a) - m.f.o, m.f.w)) > 1e-7*s || planeAngle(n, m.f.w) > 1e-7) c.fail("face-surface", "the surface of the face is another plane");
        const V3 q = p + s*randUnit(r); const TopoDS_Edge se = U::makeEdge(fp(p), fp(q)); BRepAdaptor_Curve sc(se); same(rg(sc.Value(sc.FirstParameter())), p, "makeEdge", tol); same(rg(sc.Value(sc.LastParameter())), q, "makeEdge", tol);
        if (!F::isPlanarGeometry(fdisk(randDisk(r, p, s))) || !F::isPlanarGeometry(fquad(m)) || !F::isPlanarGeometry(fpoly(m)) || F::isPlanarGeometry(fcyl(randSolid(r, p, s, 2).cyl).lateralFace()) || F::isPlanarGeometry(FBox(0,0,0,1,1,1)) || F::isPlanarGeometry(Seg3(fp(p), fp(q))) || F::isPlanarGeometry(fc)) c.fail("planar", "isPlanarGeometry() is wrong");
        if (r.b(0.05)) { TopoDS_Shape none; bool t = throws([&] { none = U::readShape("/nonexistent/file.brep"); }); if (!t && !none.IsNull()) c.fail("read", "a file that does not exist was read"); }
    });
    for (int k = 0; k < NKinds; ++k) require(str("shape:", kindName(k)), 40); require("shape:points", 3000); require("shape:corners", 300); require("bbox:sides", 5000); require("solids:overlapping", 200); require("solids:judged", 100); require("solids:judged exactly", 30); require("lattice:judged", 1500); require("lattice:cut", 100); require("lattice:common edges", 200); require("faces:across", 100); require("copies:translated", 500); require("copies:read", 250); require("conversions:conversions", 5000);
    return finish();
}
