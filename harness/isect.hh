// Pairs of geometries with an independent model of their intersection, and a uniform view of what intersect() returned.
#ifndef VERIF_ISECT_HH
#define VERIF_ISECT_HH
#include "fk.hh"
#include <frackit/intersection/intersect.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/occ/breputilities.hh>
#include <GeomAPI_ProjectPointOnCurve.hxx>
#include <BRepExtrema_DistShapeShape.hxx>
#include <BRep_Tool.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <BRepBuilderAPI_MakeVertex.hxx>
#include <BRepTools.hxx>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
namespace vf {
enum GK { GSeg, GLine, GPlane, GDisk, GQuad, GPoly, GCyl, GFace, NGK };
inline const char* gkName(int k) { static const char* n[] = {"segment","line","plane","disk","quad","polygon","cylsurface","face"}; return n[k]; }
struct Geo
{
    int k = GSeg; bool cylFace = false;      // GFace: of m, or of the lateral surface
    V3 p, q;                                   // segment; line/plane: point and direction/normal
    Planar m; Cyl c;
    bool flat() const { return k == GDisk || k == GQuad || k == GPoly || (k == GFace && !cylFace); }
    bool cyl() const { return k == GCyl || (k == GFace && cylFace); }
    double size() const { return k == GSeg ? dist(p, q) : flat() ? m.size() : cyl() ? std::hypot(2*c.r, c.h) : 1e300; }
    double dist_(V3 x) const
    {
        switch (k)
        {
            case GSeg: return distPointSegment(x, p, q);
            case GLine: return distPointLine(x, p, q);
            case GPlane: return std::abs(dot(x-p, q));
            default: return cyl() ? c.distLateral(x) : m.distTo(x);
        }
    }
    // how deep a point on the geometry is inside (distance to its rim; planes and lines have none)
    double depth(V3 x) const
    {
        switch (k)
        {
            case GSeg: return std::min(dist(x, p), dist(x, q));
            case GLine: case GPlane: return 1e300;
            default: if (cyl()) { const double z = c.f.local(x).z; return std::min(z, c.h - z); }
                     { const V3 l = m.f.local(x); return -m.signed2(l.x, l.y); }
        }
    }
    void describe(std::ostream& o) const
    {
        o << gkName(k) << " ";
        if (k <= GPlane) o << p << q; else if (cyl()) c.describe(o); else m.describe(o); o << " ";
    }
    template<class Fn> auto visit(Fn&& f) const
    {
        switch (k)
        {
            case GSeg: return f(Seg3(fp(p), fp(q))); case GLine: return f(Line3(fp(p), fd(q)));
            case GPlane: return f(Plane3(fp(p), fd(q))); case GDisk: return f(fdisk(m));
            case GQuad: return f(fquad(m)); case GPoly: return f(fpoly(m)); case GCyl: return f(surf());
            default: return f(face());
        }
    }
    FCylSurf surf() const { return FCylSurf(Circle3(fp(c.f.o), fd(c.f.w), c.r), c.h); }
    TopoDS_Face face() const
    {
        if (cylFace) { auto fs = F::OCCUtilities::getFaces(F::OCCUtilities::getShape(surf())); return fs.at(0); }
        if (m.isDisk) return F::OCCUtilities::getShape(fdisk(m));
        if (!m.holes.empty()) return plate();
        return F::OCCUtilities::getShape(fpoly(m));
    }
    TopoDS_Face plate() const   // built directly: frackit has no class for it
    {
        auto wire = [&](std::vector<Pt2> l, bool ccw) { if ((polyArea2(l) > 0) != ccw) std::reverse(l.begin(), l.end()); BRepBuilderAPI_MakePolygon w; for (auto& q : l) { const V3 x = m.f.at(q.x, q.y); w.Add(gp_Pnt(x.x, x.y, x.z)); } w.Close(); return w.Wire(); };
        BRepBuilderAPI_MakeFace f(gp_Pln(gp_Pnt(m.f.o.x, m.f.o.y, m.f.o.z), gp_Dir(m.f.w.x, m.f.w.y, m.f.w.z)), wire(m.poly, true)); for (auto& h : m.holes) f.Add(wire(h, false)); return f.Face();
    }
};
inline Geo gSeg(V3 a, V3 b) { Geo g; g.k = GSeg; g.p = a; g.q = b; return g; }
inline Geo gLine(V3 a, V3 d) { Geo g; g.k = GLine; g.p = a; g.q = unit(d); return g; }
inline Geo gPlane(V3 a, V3 n) { Geo g; g.k = GPlane; g.p = a; g.q = unit(n); return g; }
inline Geo gFlat(const Planar& m, int k) { Geo g; g.k = k; g.m = m; return g; }
inline Geo gCyl(const Cyl& c, int k = GCyl) { Geo g; g.k = k; g.c = c; g.cylFace = true; return g; }

// ------------------------------------------------------------ what intersect() returned
struct Piece
{
    char t = '0';                          // P S A(rc) E(llipse) e(dge) F(ace) L(ine) N(plane) 0(empty)
    std::vector<V3> s;                     // samples in order (one for points, two or more for the others)
    bool closed = false; double len = 0;
    V3 c, u, v; double a = 0, b = 0, t0 = 0, dt = 0;   // ellipse data
    Handle(Geom_Curve) curve; double c0 = 0, c1 = 0; TopoDS_Face f;
    int dim() const { return t == '0' ? -1 : t == 'P' ? 0 : t == 'F' || t == 'N' ? 2 : 1; }
    double distTo(V3 x) const
    {
        switch (t)
        {
            case 'P': return dist(x, s[0]);
            case 'S': return distPointSegment(x, s.front(), s.back());
            case 'L': return distPointLine(x, s[0], u);
            case 'N': return std::abs(dot(x - s[0], u));
            case 'A': case 'E':
            {
                const V3 d = x - c, w = cross(u, v); double tt; const double in = distPointEllipse2(dot(d,u), dot(d,v), a, b, &tt);
                const double all = std::hypot(in, dot(d, w)); if (t == 'E') return all;
                const double rel = std::fmod(std::fmod(tt - t0, 2*M_PI) + 2*M_PI, 2*M_PI);
                if (rel <= dt) return all; return std::min(dist(x, s.front()), dist(x, s.back()));
            }
            case 'e':
            {
                // dense samples and a local search; OpenCASCADE's projection alone misses solutions on approximated curves
                auto D = [&](double t) { return curve->Value(t).Distance(gp_Pnt(x.x, x.y, x.z)); }; const int N = 200; int bi = 0; double best = 1e300;
                for (int i = 0; i <= N; ++i) { const double d = D(c0 + (c1-c0)*i/N); if (d < best) { best = d; bi = i; } }
                double lo = c0 + (c1-c0)*std::max(0, bi-1)/N, hi = c0 + (c1-c0)*std::min(N, bi+1)/N; for (int k = 0; k < 45; ++k) { const double a_ = lo + 0.382*(hi-lo), b_ = hi - 0.382*(hi-lo); if (D(a_) < D(b_)) hi = b_; else lo = a_; } best = std::min(best, D(0.5*(lo+hi)));
                GeomAPI_ProjectPointOnCurve pr(gp_Pnt(x.x, x.y, x.z), curve, c0, c1); if (pr.NbPoints() > 0) best = std::min(best, pr.LowerDistance()); return best;
            }
            case 'F': { BRepExtrema_DistShapeShape e(BRepBuilderAPI_MakeVertex(gp_Pnt(x.x, x.y, x.z)).Vertex(), f); return e.IsDone() ? e.Value() : 1e300; }
        }
        return 1e300;
    }
};
inline Piece toPiece(const P3& p) { Piece r; r.t = 'P'; r.s = {rp(p)}; return r; }
inline Piece toPiece(const Seg3& s) { Piece r; r.t = 'S'; const V3 a = rp(s.source()), b = rp(s.target()); for (int i = 0; i <= 8; ++i) r.s.push_back(a + (i/8.0)*(b-a)); r.len = dist(a, b); return r; }
inline Piece toPiece(const Line3& l) { Piece r; r.t = 'L'; r.s = {rp(l.supportingPoint())}; r.u = rd(l.direction()); for (double k : {-2.0, -1.0, 1.0, 2.0}) r.s.push_back(r.s[0] + k*r.u); return r; }
inline Piece toPiece(const Plane3& l) { Piece r; r.t = 'N'; r.s = {rp(l.supportingPoint())}; r.u = rd(l.normal()); for (int k = 0; k < 4; ++k) r.s.push_back(r.s[0] + anyPerp(r.u, k*1.5)); return r; }
inline void ellipseData(Piece& r, const Ellipse3& e)
{ r.c = rp(e.center()); r.u = rd(e.majorAxis()); r.v = rd(e.minorAxis()); r.a = e.majorAxisLength(); r.b = e.minorAxisLength(); }
inline Piece toPiece(const Ellipse3& e)
{ Piece r; r.t = 'E'; ellipseData(r, e); r.closed = true; r.dt = 2*M_PI; for (int i = 0; i <= 32; ++i) r.s.push_back(rp(e.getPoint(std::min(1.0, i/32.0)))); r.len = ellipseLength(r.a, r.b); return r; }
inline Piece toPiece(const Arc3& a)
{
    Piece r; r.t = 'A'; ellipseData(r, a.supportingEllipse());
    for (int i = 0; i <= 16; ++i) r.s.push_back(rp(a.getPoint(std::min(1.0, i/16.0))));
    r.closed = a.isFullEllipse();
    // own parametrisation between the end points
    auto ang = [&](V3 x) { const V3 d = x - r.c; return std::atan2(dot(d, r.v)/r.b, dot(d, r.u)/r.a); };
    r.t0 = ang(rp(a.source())); r.dt = std::fmod(ang(rp(a.target())) - r.t0 + 4*M_PI, 2*M_PI); if (r.closed) r.dt = 2*M_PI;
    r.len = ellipseArcLength(r.a, r.b, r.t0, r.t0 + r.dt); return r;
}
inline Piece toPiece(const TopoDS_Edge& e)
{
    Piece r; r.t = 'e'; r.curve = BRep_Tool::Curve(e, r.c0, r.c1);
    for (int i = 0; i <= 16; ++i) { const gp_Pnt p = r.curve->Value(r.c0 + (r.c1-r.c0)*i/16); r.s.push_back({p.X(), p.Y(), p.Z()}); }
    r.closed = dist(r.s.front(), r.s.back()) < 1e-9; auto L = [&](int N) { gp_Pnt a = r.curve->Value(r.c0); double l = 0; for (int i = 1; i <= N; ++i) { const gp_Pnt b = r.curve->Value(r.c0 + (r.c1-r.c0)*i/N); l += a.Distance(b); a = b; } return l; }; const double l = L(600); r.len = l + (l - L(300))/3; return r;
}
inline Piece toPiece(const TopoDS_Face& f)
{
    Piece r; r.t = 'F'; r.f = f; GProp_GProps g; BRepGProp::SurfaceProperties(f, g); r.len = g.Mass();
    for (const auto& e : F::OCCUtilities::getEdges(f)) { double a, b; auto c = BRep_Tool::Curve(e, a, b); if (c.IsNull()) continue; for (int i = 0; i <= 4; ++i) { const gp_Pnt p = c->Value(a + (b-a)*i/4); r.s.push_back({p.X(), p.Y(), p.Z()}); } }
    const gp_Pnt m = g.CentreOfMass(); V3 cm{m.X(), m.Y(), m.Z()}; r.c = cm; return r;
}
inline Piece toPiece(const Poly3& q) { Piece r = toPiece(TopoDS_Face(F::OCCUtilities::getShape(q))); return r; }
template<int d, class C> Piece toPiece(const F::EmptyIntersection<d,C>&) { return Piece{}; }
template<class T> void addPieces(std::vector<Piece>& r, const T& x) { r.push_back(toPiece(x)); }
template<class... T> void addPieces(std::vector<Piece>& r, const std::variant<T...>& v) { std::visit([&](const auto& x) { addPieces(r, x); }, v); }
template<class T> void addPieces(std::vector<Piece>& r, const std::vector<T>& v) { for (const auto& x : v) addPieces(r, x); }

template<class T> struct gkOf; template<> struct gkOf<Seg3> { static constexpr int v = GSeg; }; template<> struct gkOf<Line3> { static constexpr int v = GLine; };
template<> struct gkOf<Plane3> { static constexpr int v = GPlane; }; template<> struct gkOf<FDisk> { static constexpr int v = GDisk; }; template<> struct gkOf<Quad3> { static constexpr int v = GQuad; };
template<> struct gkOf<Poly3> { static constexpr int v = GPoly; }; template<> struct gkOf<FCylSurf> { static constexpr int v = GCyl; }; template<> struct gkOf<TopoDS_Face> { static constexpr int v = GFace; };
// combinations that intersect() documents and implements
constexpr bool supported(int a, int b)
{
    if (a > b) { const int t = a; a = b; b = t; }
    if (b == GFace) return a >= GDisk;
    if (b == GCyl) return a >= GDisk && a <= GPoly;
    if (a == GSeg) return b == GSeg;
    if (a == GLine) return b == GPlane || b == GDisk || b == GQuad;
    if (a == GPlane) return b == GPlane;
    if (a == GDisk) return b <= GPoly;
    if (a == GQuad) return b == GQuad;
    return a == GPoly && b == GPoly;
}
// calls fn(a,b) with the frackit objects of a supported pair
template<class Fn> void onPair(const Geo& A, const Geo& B, Fn&& fn)
{
    A.visit([&](const auto& a) { B.visit([&](const auto& b) {
        if constexpr (supported(gkOf<std::decay_t<decltype(a)>>::v, gkOf<std::decay_t<decltype(b)>>::v)) fn(a, b);
        else throw std::logic_error("harness: unsupported pair"); }); });
}
// eps <= 0: the default tolerance
inline std::vector<Piece> doIs(const Geo& A, const Geo& B, double eps = 0, double* used = nullptr)
{
    std::vector<Piece> r;
    onPair(A, B, [&](const auto& a, const auto& b) {
        if (used) *used = eps > 0 ? eps : std::min(F::defaultEpsilon(a), F::defaultEpsilon(b));
        if (eps > 0) addPieces(r, F::intersect(a, b, eps)); else addPieces(r, F::intersect(a, b)); });
    return r;
}
inline std::string show(const std::vector<Piece>& v)
{ std::ostringstream o; o << std::setprecision(10); for (auto& p : v) { o << p.t; if (!p.s.empty()) o << p.s.front() << (p.s.size() > 1 ? ".." : ""); if (p.s.size() > 1) o << p.s.back(); o << " len=" << p.len << "; "; } return o.str(); }

// ------------------------------------------------------------ the reference intersection
// common curve as a parametrised family with a signed margin: g(t) > 0 where the point is inside both, in length units
struct RefCurve { std::function<V3(double)> at; std::function<double(double)> g; double t0 = 0, t1 = 1; bool closed = false; char kind = 'S'; std::vector<double> extra; /* further parameters to look at */ };
struct Ref { bool known = true; bool parallel = false; std::vector<RefCurve> curves; };
inline double inside(const Geo& g, V3 x) { return g.depth(x); }
// planes of two flat geometries / of a flat geometry and a line
inline bool planeLine(const Planar& A, const Planar& B, V3& p, V3& d)
{
    d = cross(A.f.w, B.f.w); const double l = norm(d); if (l < 1e-9) return false; d = d/l;
    // point on both planes closest to the centre of A
    const V3 e = cross(A.f.w, d); p = A.f.o + (dot(B.f.o - A.f.o, B.f.w)/dot(e, B.f.w))*e; return true;
}
inline Ref reference(const Geo& A, const Geo& B)
{
    Ref r;
    if (B.flat() && A.cyl()) return reference(B, A);
    if (A.flat() && B.flat())
    {
        V3 p, d; if (!planeLine(A.m, B.m, p, d)) { r.parallel = true; return r; }
        const double L = A.size() + B.size() + dist(A.m.f.o, B.m.f.o); RefCurve c; c.t0 = -2*L; c.t1 = 2*L;
        c.at = [=](double t) { return p + t*d; }; c.g = [=](double t) { const V3 x = p + t*d; return std::min(A.depth(x), B.depth(x)); }; r.curves.push_back(c); return r;
    }
    if (A.flat() && B.cyl())
    {
        const Cyl& C = B.c; const V3 n = A.m.f.w; const double nw = dot(n, C.f.w);
        if (std::abs(nw) < 1e-9)
        {
            r.parallel = true; const double dd = dot(A.m.f.o - C.f.o, n); // signed distance of the axis
            if (std::abs(dd) > C.r*(1 + 1e-12)) return r;
            const double h = std::sqrt(std::max(0.0, C.r*C.r - dd*dd)); const V3 e = unit(cross(C.f.w, n));
            for (int s = -1; s <= 1; s += 2)
            {
                if (s > 0 && h == 0) break;
                const V3 b = C.f.o + dd*n + (s*h)*e, w = C.f.w; RefCurve c; c.t0 = -0.5*C.h; c.t1 = 1.5*C.h; c.at = [=](double t) { return b + t*w; };
                c.g = [=](double t) { return std::min(std::min(t, C.h - t), A.depth(b + t*w)); }; r.curves.push_back(c);
            }
            return r;
        }
        RefCurve c; c.t0 = 0; c.t1 = 2*M_PI; c.closed = true; c.kind = 'A';
        const V3 o = A.m.f.o;
        c.at = [=](double t) { const V3 b = C.f.at(C.r*std::cos(t), C.r*std::sin(t)); return b + (dot(o - b, n)/nw)*C.f.w; };
        c.g = [=](double t) { const V3 b = C.f.at(C.r*std::cos(t), C.r*std::sin(t)); const double z = dot(o - b, n)/nw; return std::min(std::min(z, C.h - z), A.depth(b + z*C.f.w)); };
        // a plane nearly parallel to the axis runs along the cylinder within tiny ranges of the angle: look at evenly spaced heights, too
        const double ac = C.r*dot(C.f.u, n), as = C.r*dot(C.f.v, n), amp = std::hypot(ac, as), phi = std::atan2(as, ac), c0 = dot(o - C.f.o, n);
        if (amp > 0) for (int i = -40; i <= 440; ++i)
        {
            const double q = (c0 - C.h*i/400.0*nw)/amp; if (std::abs(q) > 1) continue;
            for (int s = -1; s <= 1; s += 2) { double t = std::fmod(phi + s*std::acos(q), 2*M_PI); if (t < 0) t += 2*M_PI; c.extra.push_back(t); }
        }
        r.curves.push_back(c); return r;
    }
    r.known = false; return r;
}
struct Comp { double t0, t1; bool full = false; };
// components of {g > thr}
inline std::vector<Comp> components(const RefCurve& c, double thr, int N = 1200)
{
    std::vector<double> ts(N+1), g; const double w = (c.t1 - c.t0)/N; for (int i = 0; i <= N; ++i) ts[i] = c.t0 + i*w;
    if (!c.extra.empty()) { ts.insert(ts.end(), c.extra.begin(), c.extra.end()); std::sort(ts.begin(), ts.end()); }
    N = int(ts.size()) - 1; for (double t : ts) g.push_back(c.g(t) - thr);
    std::vector<Comp> r; auto root = [&](double a, double b, double ga) { for (int k = 0; k < 60; ++k) { const double m = 0.5*(a+b); if ((c.g(m) - thr > 0) == (ga > 0)) a = m; else b = m; } return 0.5*(a+b); };
    // refine local extrema so that short components and gaps are seen
    std::vector<std::pair<double,double>> pt; for (int i = 0; i <= N; ++i)
    {
        pt.push_back({ts[i], g[i]});
        for (int sgn = -1; sgn <= 1; sgn += 2) if (i > 0 && i < N && sgn*g[i] >= sgn*g[i-1] && sgn*g[i] >= sgn*g[i+1] && sgn*g[i] < 0)
        {
            double lo = ts[i-1], hi = ts[i+1]; for (int k = 0; k < 50; ++k) { const double a = lo + 0.382*(hi-lo), b = hi - 0.382*(hi-lo); if (sgn*c.g(a) > sgn*c.g(b)) hi = b; else lo = a; }
            const double m = 0.5*(lo+hi); pt.push_back({m, c.g(m) - thr});
        }
    }
    std::sort(pt.begin(), pt.end());
    bool in = pt[0].second > 0, all = true; for (auto& p : pt) if (!(p.second > 0)) all = false;
    if (all) { r.push_back({c.t0, c.t1, true}); return r; }
    double start = c.t0; for (size_t i = 1; i < pt.size(); ++i) if ((pt[i].second > 0) != in) { const double x = root(pt[i-1].first, pt[i].first, pt[i-1].second); if (in) r.push_back({start, x}); else start = x; in = !in; }
    if (in) r.push_back({start, c.t1});
    if (c.closed && r.size() >= 2 && r.front().t0 == c.t0 && r.back().t1 == c.t1) { r.front().t0 = r.back().t0 - (c.t1 - c.t0); r.pop_back(); }
    return r;
}
} // namespace vf
namespace vf {
// ------------------------------------------------------------ generators
inline bool& allowHoles() { static bool b = true; return b; }
inline Geo randFlat(Rng& r, int k, V3 c, double s, bool star = false)
{
    if (k == GDisk) return gFlat(randDisk(r, c, s), k);
    if (k == GQuad) return gFlat(randPolygon(r, c, s, 4), k);
    if (k == GPoly) return gFlat(randPolygon(r, c, s, r.i(3, 7)), k);
    if (star) { const double x = r.u(); return gFlat(x < 0.35 ? randStar(r, c, s, r.i(4, 8)) : x < 0.7 || !allowHoles() ? randBand(r, c, s, r.i(2, 6)) : randPlate(r, c, s, r.i(4, 8)), GFace); }
    return gFlat(r.b(0.4) ? randDisk(r, c, s) : randPolygon(r, c, s, r.i(3, 7)), GFace);
}
inline Geo randGeo(Rng& r, int k, V3 c, double s, bool cylFace = false)
{
    if (k == GSeg) { const V3 h = s*r.u(0.2, 1)*randFrame(r, c).u; return gSeg(c - r.u(0.2, 1)*h, c + h); }
    if (k == GLine) return gLine(c, randFrame(r, c).u);
    if (k == GPlane) return gPlane(c, randFrame(r, c).u);
    if (k == GCyl || cylFace) { Cyl y = randCyl(r, c, s); y.f.o = c - (0.5*y.h)*y.f.w; return gCyl(y, k); }
    return randFlat(r, k, c, s, k == GFace && r.b(0.4));
}
// a point of the geometry
inline V3 pointOn(Rng& r, const Geo& g)
{
    if (g.k == GSeg) return g.p + r.u()*(g.q - g.p);
    if (g.k == GLine) return g.p + r.normal()*g.q;
    if (g.k == GPlane) return g.p + r.normal()*anyPerp(g.q, r.u(0, 6.3));
    if (g.cyl()) { const double t = r.u(0, 2*M_PI); return g.c.f.at(g.c.r*std::cos(t), g.c.r*std::sin(t), r.u(0, g.c.h)); }
    return g.m.randomInside(r);
}
inline void moveBy(Geo& g, V3 d) { g.p = g.k <= GPlane ? g.p + d : g.p; if (g.k == GSeg) g.q = g.q + d; g.m.f.o = g.m.f.o + d; g.c.f.o = g.c.f.o + d; }
// turn the flat geometry about its centre so that its normal is n
inline void setNormal(Rng& r, Geo& g, V3 n) { g.m.f.w = unit(n); g.m.f.u = anyPerp(g.m.f.w, r.u(0, 6.3)); g.m.f.v = cross(g.m.f.w, g.m.f.u); }
inline bool coplanar(const Geo& A, const Geo& B) { return A.flat() && B.flat() && norm(cross(A.m.f.w, B.m.f.w)) < 1e-6; }
struct PairKind { int a, b; bool cf; };    // cf: second operand is the face of a lateral surface
inline const std::vector<PairKind>& pairKinds()
{
    static const std::vector<PairKind> v = {
        {GSeg,GSeg,false},{GPlane,GPlane,false},{GPlane,GLine,false},{GLine,GPlane,false},{GDisk,GLine,false},{GLine,GDisk,false},{GQuad,GLine,false},{GLine,GQuad,false},
        {GDisk,GDisk,false},{GQuad,GQuad,false},{GPoly,GPoly,false},{GQuad,GDisk,false},{GDisk,GQuad,false},{GPoly,GDisk,false},{GDisk,GPoly,false},
        {GDisk,GCyl,false},{GQuad,GCyl,false},{GPoly,GCyl,false},{GCyl,GDisk,false},{GCyl,GQuad,false},{GCyl,GPoly,false},
        {GDisk,GFace,false},{GQuad,GFace,false},{GPoly,GFace,false},{GFace,GDisk,false},{GFace,GQuad,false},{GFace,GPoly,false},{GFace,GFace,false},{GCyl,GFace,false},{GFace,GCyl,false},
        {GDisk,GFace,true},{GQuad,GFace,true},{GPoly,GFace,true},{GFace,GFace,true},{GCyl,GFace,true}};
    return v;
}
// a random pair in general position that meets more often than not; s: size
inline void randPair(Rng& r, const PairKind& k, double s, Geo& A, Geo& B)
{
    // sometimes a tiny geometry meets a huge one (away from the centre of the huge one)
    const bool uneven = k.b != GFace && k.a != GFace && r.b(0.2); const double q = uneven ? (k.a == GCyl || k.b == GCyl ? r.lu(4, 30) : r.lu(10, 400)) : 1, sa = uneven && r.b() ? s*q : s, sb = uneven && sa == s ? s*q : s;
    A = randGeo(r, k.a, randVec(r, 3*s), sa); B = randGeo(r, k.b, randVec(r, 3*s), uneven ? sb : s*r.lu(0.4, 2.5), k.cf);
    if (A.flat() && B.flat() && r.b(0.3))
    {   // chosen angle between the planes
        const double al = r.b(0.3) ? M_PI/2 : r.u(0.08, M_PI/2); setNormal(r, B, std::cos(al)*A.m.f.w + std::sin(al)*anyPerp(A.m.f.w, r.u(0, 6.3)));
    }
    const bool fc = (A.flat() && B.cyl()) || (A.cyl() && B.flat());
    if (fc && r.b(0.45))
    {   // chosen angle between the plane and the axis: parallel, orthogonal, nearly so, or any
        Geo& f = A.flat() ? A : B; const Cyl& c = A.flat() ? B.c : A.c; const int m = r.i(4); V3 n = c.f.w;
        if (m == 0) n = anyPerp(c.f.w, r.u(0, 6.3)); else if (m == 2) n = unit(c.f.w + r.lu(1e-8, 0.3)*anyPerp(c.f.w, r.u(0, 6.3))); else if (m == 3) n = unit(anyPerp(c.f.w, r.u(0, 6.3)) + r.lu(1e-2, 0.3)*c.f.w);
        setNormal(r, f, r.b() ? n : -n);
    }
    const V3 target = pointOn(r, A);
    if (k.a == GSeg) { if (r.b(0.7)) moveBy(B, target - (B.p + r.u()*(B.q - B.p))); else moveBy(B, target - pointOn(r, B) + randVec(r, 0.5*s)); return; }
    moveBy(B, target - pointOn(r, B));
    if (r.b(0.15)) moveBy(B, randVec(r, 0.7*s));
}
} // namespace vf
#endif
