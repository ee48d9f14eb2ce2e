// Network scenarios (entities, sub-domains) and facts about the fragments of a built network.
#ifndef VERIF_NET_HH
#define VERIF_NET_HH
#include "fk.hh"
#include "clip.hh"
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/occ/breputilities.hh>
#include <BRepAdaptor_Curve.hxx>
#include <BRepAdaptor_Surface.hxx>
#include <gp_Pln.hxx>
#include <BRepGProp.hxx>
#include <BRep_Tool.hxx>
#include <GProp_GProps.hxx>
#include <TopExp.hxx>
#include <TopExp_Explorer.hxx>
#include <TopTools_IndexedMapOfShape.hxx>
#include <TopTools_MapOfShape.hxx>

namespace vf {
inline V3 rg(const gp_Pnt& p) { return {p.X(), p.Y(), p.Z()}; }
// ------------------------------------------------------------------ scenario
struct Ent
{
    bool seg = false; Planar m; V3 p, q; int how = 0; std::size_t sub = 0;
    double measure() const { return seg ? dist(p, q) : m.area(); }
    double size() const { return seg ? dist(p, q) : m.size(); }
    double distTo(V3 x) const { return seg ? distPointSegment(x, p, q) : m.distTo(x); }
    void describe(std::ostream& o) const { o << " [" << sub << (how == 1 ? " face " : " "); if (seg) o << "segment " << p << q; else m.describe(o); o << "]"; }
};
template<class Fn> void visit(const Ent& e, Fn&& f)
{
    if (e.seg) { if (e.how == 1) f(F::OCCUtilities::getShape(Seg3(fp(e.p), fp(e.q)))); else f(Seg3(fp(e.p), fp(e.q))); return; }
    const bool quad = !e.m.isDisk && e.m.poly.size() == 4;
    if (e.how == 1) { if (e.m.isDisk) f(F::OCCUtilities::getShape(fdisk(e.m))); else f(F::OCCUtilities::getShape(fpoly(e.m))); }
    else if (e.m.isDisk) f(fdisk(e.m)); else if (quad && e.how == 0) f(fquad(e.m)); else f(fpoly(e.m));
}
struct Dom { std::size_t id = 0; bool confining = true; Solid d; int how = 0; };
template<class Fn> void visit(const Dom& D, Fn&& f)
{
    const Solid& d = D.d; auto go = [&](const auto& g) { if (D.how == 1) f(F::OCCUtilities::getShape(g)); else f(g); };
    if (d.kind == 0) go(FBox(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z)); else if (d.kind == 1) go(FSphere(fp(d.c), d.r)); else go(fcyl(d.cyl));
}
inline std::ostream& operator<<(std::ostream& o, const Dom& d) { o << " <" << d.id << (d.confining ? " confining " : " open "); d.d.describe(o); return o << ">"; }
struct Scenario
{
    std::vector<Ent> ents; std::vector<Dom> doms; bool unionOn = true; bool plain = false; double L = 1; double eps = 0;
    void describe(std::ostream& o) const { for (auto& d : doms) o << d; for (auto& e : ents) e.describe(o); if (!unionOn) o << " unconfined"; if (eps > 0) o << " eps=" << eps; }
    const Dom* dom(std::size_t id) const { for (auto& d : doms) if (d.id == id) return &d; return nullptr; }
    // the domains an entity is confined to; empty: not confined
    std::vector<const Dom*> region(const Ent& e) const
    {
        std::vector<const Dom*> v; const Dom* d = dom(e.sub); if (!d) return v;
        if (d->confining) v.push_back(d); else if (unionOn) for (auto& x : doms) v.push_back(&x); return v;
    }
    // negative inside (domains do not overlap); meaningful if confined
    static double signedDist(const std::vector<const Dom*>& v, V3 x) { double s = 1e300; for (auto d : v) s = std::min(s, d->d.signedDist(x)); return s; }
};
template<class B> void fillDomains(B& b, const Scenario& s)
{ if (!s.unionOn) b.setConfineToSubDomainUnion(false); if (s.eps > 0) b.setEpsilon(s.eps); for (auto& d : s.doms) visit(d, [&](const auto& g) { if (d.confining) b.addConfiningSubDomain(g, F::Id(d.id)); else b.addSubDomain(g, F::Id(d.id)); }); }
template<class B> void fillEntities(B& b, const Scenario& s)
{
    for (auto& e : s.ents) visit(e, [&](const auto& g) {
        if constexpr (std::is_same<B, F::EntityNetworkBuilder<double>>::value) if (s.plain) { b.addEntity(g); return; }
        b.addSubDomainEntity(g, F::Id(e.sub)); });
}
// ------------------------------------------------------------ general position
inline bool planes(const Planar& A, const Planar& B, V3& p, V3& d)
{
    d = cross(A.f.w, B.f.w); const double n = norm(d); if (n < 1e-9) return false; d = d/n;
    // point on both planes, near A's centre
    const V3 e = cross(d, A.f.w); p = A.f.o + (dot(B.f.w, B.f.o - A.f.o)/dot(B.f.w, e))*e; return true;
}
inline bool touchesPlane(const Planar& A, V3 o, V3 n, double tol)
{ const double hi = A.support(n) - dot(n, o), lo = -(A.support(-n) + dot(n, o)); return std::abs(hi) < tol || std::abs(lo) < tol || (std::abs(hi) < 3*tol && std::abs(lo) < 3*tol); }
inline bool nearDegenerate(const Planar& A, const Planar& B)
{
    const double tol = 0.01*std::min(A.size(), B.size());
    const double ang = planeAngle(A.f.w, B.f.w);
    if (ang < 1e-6) return std::abs(dot(A.f.w, B.f.o - A.f.o)) < tol;      // coplanar pairs are treated elsewhere
    if (ang < 0.06) return true;
    if (touchesPlane(A, B.f.o, B.f.w, tol) || touchesPlane(B, A.f.o, A.f.w, tol)) return true;
    V3 p, d; planes(A, B, p, d);
    for (auto& a : A.clip(p, d)) for (auto& b : B.clip(p, d))
    { if (a[1]-a[0] < 3*tol || b[1]-b[0] < 3*tol) return true; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (std::abs(a[i]-b[j]) < tol) return true; }
    return false;
}
inline Planar boxFace(const Solid& d, int k)
{
    Planar m; m.isDisk = false; const V3 c = 0.5*(d.lo + d.hi), h = 0.5*(d.hi - d.lo); const int ax = k/2; const double s = k % 2 ? 1 : -1; auto comp = [](V3 v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; };
    const V3 E[3] = {{1,0,0},{0,1,0},{0,0,1}}; m.f.u = E[(ax+1)%3]; m.f.v = E[(ax+2)%3]; m.f.w = E[ax]; m.f.o = c + s*comp(h, ax)*E[ax]; const double x = comp(h, (ax+1)%3), y = comp(h, (ax+2)%3); m.poly = {{-x,-y},{x,-y},{x,y},{-x,y}}; return m;
}
inline bool nearDegenerate(const Planar& A, const Solid& D)
{
    if (D.kind == 0) { for (int k = 0; k < 6; ++k) if (nearDegenerate(A, boxFace(D, k))) return true; return false; }
    const double tol = 0.012*std::min(A.size(), D.diag());
    auto rimPoint = [&](double t) { if (A.isDisk) return A.f.at(A.a*std::cos(2*M_PI*t), A.b*std::sin(2*M_PI*t)); const int n = int(A.poly.size()); const double x = t*n; const int i = std::min(n-1, int(x)); return A.corner(i) + (x-i)*(A.corner((i+1)%n) - A.corner(i)); };
    const int N = 240; std::vector<double> v(N); for (int i = 0; i < N; ++i) v[i] = D.signedDist(rimPoint(double(i)/N));
    for (int i = 0; i < N; ++i) { const double a = v[(i+N-1)%N], b = v[i], c = v[(i+1)%N]; if ((b-a)*(c-b) <= 0 && std::abs(b) < 2*tol) return true; }
    if (D.kind == 1) { const double h = std::abs(dot(A.f.w, D.c - A.f.o)); return std::abs(h - D.r) < 2*tol; }
    for (int e = 0; e < 2; ++e)
    {
        Planar cap; cap.f = D.cyl.f; cap.a = cap.b = D.cyl.r; if (e) cap.f.o = cap.f.o + D.cyl.h*cap.f.w; if (nearDegenerate(A, cap)) return true;
        for (int i = 0; i < N; ++i) if (A.distToRim(cap.f.at(cap.a*std::cos(2*M_PI*i/N), cap.a*std::sin(2*M_PI*i/N))) < 2*tol) return true;
    }
    // planes along or across the axis, and contact of the plane with the lateral surface
    const double k = std::abs(dot(A.f.w, D.cyl.f.w)); if (k < 0.05) { const double h = std::abs(dot(A.f.w, D.cyl.f.o - A.f.o)); if (std::abs(h - D.cyl.r) < 0.1*D.cyl.r) return true; }
    return false;
}
inline Planar randEntity(Rng& r, V3 c, double s) { return r.b(0.4) ? randDisk(r, c, s, 0.1) : randPolygon(r, c, s, r.b(0.5) ? 4 : r.i(3, 7), 0.1); }
inline bool addGeneric(Rng& r, Scenario& s, V3 o, double spread, double size, std::size_t sub)
{
    for (int t = 0; t < 40; ++t)
    {
        Ent e; e.sub = sub; e.how = r.i(3); e.m = randEntity(r, o + randVec(r, spread), size*r.u(0.5, 1)); bool bad = false;
        for (auto& x : s.ents) bad = bad || (!x.seg && nearDegenerate(e.m, x.m));
        for (auto& d : s.doms) bad = bad || nearDegenerate(e.m, d.d);
        if (!bad) { s.ents.push_back(e); return true; }
    }
    return false;
}
inline double wantedArea(const Scenario& s, const Ent& e)
{ const auto v = s.region(e); if (v.empty()) return s.dom(e.sub) && s.dom(e.sub)->confining ? 0 : e.measure(); double a = 0; for (auto d : v) a += clippedArea(e.m, d->d); return a; }
// ------------------------------------------------------------------- fragments
struct EdgeData
{
    bool line = true; V3 a, b; BRepAdaptor_Curve c; double c0 = 0, c1 = 0; std::vector<V3> pts; bool internal = false;
    double dist(V3 x) const
    {
        if (line) return distPointSegment(x, a, b);
        auto f = [&](double t) { return vf::dist(x, rg(c.Value(t))); }; const int N = int(pts.size()) - 1; int k = 0; double best = 1e300;
        for (int i = 0; i <= N; ++i) { const double d = vf::dist(x, pts[i]); if (d < best) { best = d; k = i; } }
        double lo = c0 + (c1-c0)*std::max(0, k-1)/N, hi = c0 + (c1-c0)*std::min(N, k+1)/N; for (int j = 0; j < 60; ++j) { const double u = lo + 0.382*(hi-lo), v = hi - 0.382*(hi-lo); if (f(u) < f(v)) hi = v; else lo = u; }
        return std::min(best, f(0.5*(lo+hi)));
    }
};
inline EdgeData edgeData(const TopoDS_Edge& e, bool internal = false)
{
    EdgeData r; r.internal = internal; r.c.Initialize(e); r.c0 = r.c.FirstParameter(); r.c1 = r.c.LastParameter(); r.line = r.c.GetType() == GeomAbs_Line; r.a = rg(r.c.Value(r.c0)); r.b = rg(r.c.Value(r.c1));
    const int N = r.line ? 8 : 64; for (int i = 0; i <= N; ++i) r.pts.push_back(rg(r.c.Value(r.c0 + (r.c1-r.c0)*i/N))); return r;
}
struct Frag
{
    TopoDS_Shape s; double measure = 0; V3 cen; std::vector<EdgeData> edges; int idx = 0; double size = 0; V3 ref; bool hasRef = false;
    double distEdges(V3 x) const { double d = 1e300; for (auto& e : edges) d = std::min(d, e.dist(x)); return d; }
    // even-odd test in the plane of the frame
    bool inside(const Frame& f, V3 x) const
    {
        const V3 l = f.local(x); const double dx = std::cos(0.39217), dy = std::sin(0.39217); int n = 0;
        for (auto& e : edges) if (!e.internal) for (std::size_t i = 0; i+1 < e.pts.size(); ++i)
        { const V3 a = f.local(e.pts[i]), b = f.local(e.pts[i+1]); const double sa = (a.x-l.x)*(-dy) + (a.y-l.y)*dx, sb = (b.x-l.x)*(-dy) + (b.y-l.y)*dx; if ((sa > 0) == (sb > 0)) continue; const double k = sa/(sa-sb); if (((a.x + k*(b.x-a.x)) - l.x)*dx + ((a.y + k*(b.y-a.y)) - l.y)*dy > 0) n++; }
        return n % 2;
    }
    // a point well inside
    void findRef(Rng& r, const Frame& f)
    {
        double best = 2e-3*size; std::vector<V3> p; for (auto& e : edges) for (auto& x : e.pts) p.push_back(x); if (p.size() < 3) return;
        for (int t = 0; t < 60; ++t) { const V3 x = (p[r.i(int(p.size()))] + p[r.i(int(p.size()))] + p[r.i(int(p.size()))])/3.0; if (!inside(f, x)) continue; const double d = distEdges(x); if (d > best) { best = d; ref = x; hasRef = true; if (d > 0.1*size) break; } }
    }
};
inline double shapeMeasure(const TopoDS_Shape& s, V3* cen = nullptr)
{
    GProp_GProps g; const auto t = s.ShapeType(); if (t == TopAbs_EDGE || t == TopAbs_WIRE) BRepGProp::LinearProperties(s, g); else if (t == TopAbs_FACE || t == TopAbs_SHELL) BRepGProp::SurfaceProperties(s, g, 1e-9); else BRepGProp::VolumeProperties(s, g, 1e-9);
    if (cen) *cen = rg(g.CentreOfMass()); return g.Mass();
}
inline Frag makeFrag(const TopoDS_Shape& s)
{
    Frag f; f.s = s; f.measure = std::abs(shapeMeasure(s, &f.cen));
    if (s.ShapeType() == TopAbs_EDGE) f.edges.push_back(edgeData(TopoDS::Edge(s)));
    else
    {   // edges used twice lie inside; they are reported once
        std::vector<TopoDS_Edge> seen; std::vector<int> uses; std::vector<bool> in;
        for (TopExp_Explorer x(s, TopAbs_EDGE); x.More(); x.Next()) { const TopoDS_Edge e = TopoDS::Edge(x.Current()); bool known = false; for (std::size_t i = 0; i < seen.size(); ++i) if (seen[i].IsSame(e)) { uses[i]++; known = true; } if (!known) { seen.push_back(e); uses.push_back(1); in.push_back(e.Orientation() == TopAbs_INTERNAL); } }
        for (std::size_t i = 0; i < seen.size(); ++i) if (!BRep_Tool::Degenerated(seen[i])) f.edges.push_back(edgeData(seen[i], in[i] || uses[i] > 1));
    }
    for (auto& a : f.edges) for (auto& p : a.pts) f.size = std::max(f.size, 2*dist(p, f.cen)); return f;
}
inline std::vector<TopoDS_Shape> shapes(const TopTools_ListOfShape& l) { std::vector<TopoDS_Shape> v; for (const auto& s : l) v.push_back(s); return v; }
// list and map of a network belong together; every fragment listed once
inline std::vector<Frag> fragments(Case& c, const TopTools_ListOfShape& l, const TopTools_DataMapOfShapeInteger& m, TopAbs_ShapeEnum type)
{
    std::vector<Frag> v; TopTools_MapOfShape seen;
    for (const auto& s : l)
    {
        if (s.ShapeType() != type) { c.fail("fragment-type", "a fragment has the wrong kind of shape"); continue; }
        if (!seen.Add(s)) { c.fail("fragment-twice", "a fragment is listed twice"); continue; }
        Frag f = makeFrag(s); if (!m.IsBound(s)) { c.fail("fragment-unmapped", "a fragment has no entity index"); continue; } f.idx = m.Find(s); v.push_back(f);
    }
    if (m.Extent() != l.Extent()) c.fail("map-size", str("index map has ", m.Extent(), " entries for ", l.Extent(), " fragments"));
    return v;
}
// the fragments of entity e (given as list) fill it: measure, location, no overlap
struct Tol { double rel = 3e-5, abs = 0; };
inline void checkFill(Case& c, Rng& r, const Scenario& s, const Ent& e, std::vector<Frag*> fr, double want, const std::string& what)
{
    double A = 0; for (auto f : fr) A += f->measure; const double M = e.measure(), tol = 3e-5*M + 2e-6*e.size()*(e.seg ? 1 : e.size()) + (e.seg ? 0 : 1e-6*e.size()); c.count("entities judged");
    if (!(std::abs(A - want) <= tol)) c.fail("measure", str(what, ": fragments have measure ", A, ", expected ", want, " (entity: ", M, "), ", fr.size(), " fragments"));
    const auto reg = s.region(e); const double lt = 2e-5*e.size() + 2e-6*s.L + 2*s.eps;
    for (auto f : fr)
    {
        for (auto& ed : f->edges) for (auto& x : ed.pts) { if (e.distTo(x) > lt) { c.fail("not-contained", str(what, ": a fragment reaches ", e.distTo(x), " beyond its entity at ", x)); return; } if (!reg.empty() && Scenario::signedDist(reg, x) > lt) { c.fail("not-confined", str(what, ": a fragment reaches ", Scenario::signedDist(reg, x), " beyond the domain at ", x)); return; } }
        if (!e.seg && !f->hasRef) f->findRef(r, e.m.f);
    }
    if (!e.seg) for (auto f : fr) if (f->hasRef) for (auto g : fr) if (g != f && g->inside(e.m.f, f->ref) && g->distEdges(f->ref) > 1e-3*f->size) c.fail("overlap", str(what, ": two fragments overlap at ", f->ref));
}
// where two entities meet, the fragments of both have an edge
inline void checkCrossing(Case& c, const Scenario& s, const Ent& A, const Ent& B, const std::vector<Frag*>& fa, const std::vector<Frag*>& fb)
{
    V3 p, d; if (A.seg || B.seg || !planes(A.m, B.m, p, d)) return; const auto ra = s.region(A), rb = s.region(B); const double m = 2e-3*std::min(A.size(), B.size()), tol = 1e-5*std::max(A.size(), B.size()) + 1e-6*s.L + 2*s.eps; bool met = false;
    for (auto& a : A.m.clip(p, d)) for (auto& b : B.m.clip(p, d))
    {
        const double lo = std::max(a[0], b[0]), hi = std::min(a[1], b[1]); if (hi - lo < m) continue;
        for (double k : {0.02, 0.15, 0.31, 0.5, 0.69, 0.85, 0.98})
        {
            const V3 x = p + (lo + k*(hi-lo))*d; if ((!ra.empty() && Scenario::signedDist(ra, x) > -m) || (!rb.empty() && Scenario::signedDist(rb, x) > -m)) continue;
            if ((ra.empty() && s.dom(A.sub) && s.dom(A.sub)->confining) || (rb.empty() && s.dom(B.sub) && s.dom(B.sub)->confining)) continue; met = true;
            auto side = [&](const Ent& E, const std::vector<Frag*>& v) { bool touched = false; for (auto f : v) { const double de = f->distEdges(x); if (de <= tol) touched = true; else if (f->inside(E.m.f, x)) { c.fail("uncut", str("entities meet inside a fragment at ", x, ", ", de, " away from its edges")); return; } }
                if (!touched) c.fail("uncovered", str("no fragment reaches the intersection of two entities at ", x)); };
            side(A, fa); if (!c.failed) side(B, fb); c.count("crossing points"); if (c.failed) return;
        }
    }
    if (met) c.count("crossings");
}
} // namespace vf
#endif
