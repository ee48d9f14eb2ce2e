// Random network scenarios shared by the checks of builders and writers.
#ifndef VERIF_NETGEN_HH
#define VERIF_NETGEN_HH
#include "net.hh"
namespace vf {
inline double netScale(Rng& r) { static const double s[] = {0.1, 1, 1, 1, 10, 100, 1000}; return s[r.i(7)]*r.u(0.5, 2); }
inline V3 netPlace(Rng& r, double L) { static const double f[] = {0, 0, 1, 20}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*L); }
inline std::vector<std::size_t> randIds(Rng& r, int n, int hi = 9)
{ std::vector<std::size_t> v; while (int(v.size()) < n) { const std::size_t i = r.b(0.85) ? r.i(hi) : r.i(1000); if (!std::count(v.begin(), v.end(), i)) v.push_back(i); } return v; }
inline Ent latticeRect(Rng& r, V3 o, double h, int N, bool full)
{
    Ent e; const int ax = r.i(3), at = r.i(N+1); int lo[2], hi[2]; for (int d = 0; d < 2; ++d) { lo[d] = full ? 0 : r.i(N); hi[d] = full ? N : r.i(lo[d]+1, N); }
    auto P = [&](double x, double y) { return ax == 0 ? V3(at, x, y) : ax == 1 ? V3(x, at, y) : V3(x, y, at); };
    e.m.isDisk = false; e.m.f.o = o + h*P(lo[0], lo[1]); e.m.f.u = ax == 0 ? V3(0,1,0) : V3(1,0,0); e.m.f.v = ax == 2 ? V3(0,1,0) : V3(0,0,1); e.m.f.w = cross(e.m.f.u, e.m.f.v);
    const double x = h*(hi[0]-lo[0]), y = h*(hi[1]-lo[1]); e.m.poly = {{0,0},{x,0},{x,y},{0,y}}; e.how = r.i(3); return e;
}
// nd sub-domains (0: none), n entities; entities of unknown sub-domains with probability pOther
inline Scenario randScenario(Rng& r, int nd, int n, double pOther)
{
    Scenario s; s.L = netScale(r); const V3 o = netPlace(r, s.L); auto ids = randIds(r, nd + 1); s.unionOn = r.b(0.75); const int ax = r.i(3); const V3 dir(ax == 0, ax == 1, ax == 2); auto sub = [&]() { return nd == 0 || r.b(pOther) ? ids[nd] : ids[r.i(nd)]; };
    if (r.b(0.4))
    {   // lattice: boxes end between the lattice planes
        const int N = std::max(2, nd) + r.i(2); const double h = s.L/N; std::vector<double> cuts{-0.5}; for (int k = 1; k <= nd; ++k) cuts.push_back(k == nd ? N + 0.5 : k - 0.5 + (N - nd)/2); 
        for (int k = 0; k < nd; ++k) { Dom D; D.id = ids[k]; D.how = r.i(2); D.confining = r.b(0.6); D.d.kind = 0; V3 lo(-0.5,-0.5,-0.5), hi(N-0.5, N+0.5, N-0.5); (ax == 0 ? lo.x : ax == 1 ? lo.y : lo.z) = cuts[k]; (ax == 0 ? hi.x : ax == 1 ? hi.y : hi.z) = cuts[k+1]; D.d.lo = o + h*lo; D.d.hi = o + h*hi; s.doms.push_back(D); }
        for (int k = 0; k < n; ++k) { Ent e; if (k && r.b(0.15)) { e = s.ents[r.i(k)]; e.how = r.i(3); } else e = latticeRect(r, o, h, N, r.b(0.5)); e.sub = sub(); s.ents.push_back(e); }
        return s;
    }
    const bool boxes = r.b(0.6); V3 lo = o; const V3 h(s.L*r.u(0.5,1.2), s.L*r.u(0.5,1.2), s.L*r.u(0.5,1.2));
    for (int k = 0; k < nd; ++k)
    {
        Dom D; D.id = ids[k]; D.how = r.i(2); D.confining = r.b(0.6);
        if (boxes) { const double t = r.u(0.4, 1); const V3 e(ax == 0 ? t : 1, ax == 1 ? t : 1, ax == 2 ? t : 1); D.d.kind = 0; D.d.lo = lo; D.d.hi = lo + V3(e.x*h.x, e.y*h.y, e.z*h.z); lo = lo + V3(dir.x*t*h.x, dir.y*t*h.y, dir.z*t*h.z); }
        else D.d = randSolid(r, o + (k*3.2*s.L)*dir, s.L, r.i(3));
        s.doms.push_back(D);
    }
    for (int k = 0; k < n; ++k)
    {
        const V3 m = nd == 0 ? o : boxes ? s.doms.front().d.lo + r.u()*(s.doms.back().d.hi - s.doms.front().d.lo) : o + (r.u(-0.2, nd - 0.8)*3.2*s.L)*dir;
        addGeneric(r, s, m, r.b(0.5) ? 0.2*s.L : 0.6*s.L, s.L*(r.b(0.25) ? r.u(0.1, 0.3) : r.b(0.35) ? r.u(2, 4) : r.u(0.5, 2)), sub());
    }
    return s;
}
// ---- geometric signatures
struct Sig { int type; double measure; V3 cen; V3 n; int parts; V3 lo, hi; };
inline Sig sig(const TopoDS_Shape& s)
{
    Sig g; g.type = int(s.ShapeType()); g.parts = 0; g.n = V3(0,0,0); g.lo = V3(1e300,1e300,1e300); g.hi = -1.0*g.lo;
    if (s.ShapeType() == TopAbs_VERTEX) { g.measure = 0; g.cen = rg(BRep_Tool::Pnt(TopoDS::Vertex(s))); g.lo = g.hi = g.cen; return g; }
    if (s.ShapeType() == TopAbs_EDGE && BRep_Tool::Degenerated(TopoDS::Edge(s))) { g.measure = 0; g.cen = rg(BRep_Tool::Pnt(TopExp::FirstVertex(TopoDS::Edge(s)))); g.lo = g.hi = g.cen; g.parts = -1; return g; }
    g.measure = std::abs(shapeMeasure(s, &g.cen)); if (s.ShapeType() == TopAbs_EDGE) { BRepAdaptor_Curve c(TopoDS::Edge(s)); const double a = c.FirstParameter(), z = c.LastParameter(); g.n = rg(c.Value(0.5*(a+z))); }
    TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, TopAbs_EDGE, m); g.parts = m.Extent(); TopTools_IndexedMapOfShape vm; TopExp::MapShapes(s, TopAbs_VERTEX, vm);
    for (int i = 1; i <= vm.Extent(); ++i) { const V3 p = rg(BRep_Tool::Pnt(TopoDS::Vertex(vm(i)))); g.lo = V3(std::min(g.lo.x,p.x), std::min(g.lo.y,p.y), std::min(g.lo.z,p.z)); g.hi = V3(std::max(g.hi.x,p.x), std::max(g.hi.y,p.y), std::max(g.hi.z,p.z)); }
    return g;
}
inline bool alike(const Sig& a, const Sig& b, double tol)
{ return a.type == b.type && a.parts == b.parts && dist(a.cen, b.cen) < tol && dist(a.lo, b.lo) < tol && dist(a.hi, b.hi) < tol && dist(a.n, b.n) < tol && std::abs(a.measure - b.measure) < 1e-6*std::max(a.measure, b.measure) + 1e-12; }
} // namespace vf
#endif
