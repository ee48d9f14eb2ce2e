// Generic geometry objects: a reference model (distance, sampling, convexity) plus the frackit object.
#ifndef VERIF_OBJS_HH
#define VERIF_OBJS_HH
#include "fk.hh"
#include "clip.hh"
#include <queue>
#include <frackit/occ/breputilities.hh>
#include <BRepExtrema_DistShapeShape.hxx>
namespace vf {
// OpenCASCADE's own answer for two shapes (to tell its misses of a global minimum from mistakes of frackit)
inline double occDistance(const TopoDS_Shape& a, const TopoDS_Shape& b)
{ BRepExtrema_DistShapeShape e(a, b); e.Perform(); return e.IsDone() ? e.Value() : -1; }
inline bool occMiss(double v, const TopoDS_Shape& a, const TopoDS_Shape& b, double tol)
{ return std::abs(v - occDistance(a, b)) <= tol || std::abs(v - occDistance(b, a)) <= tol; }
enum Kind { KPoint, KSegment, KCircle, KEllipse, KArc, KDisk, KQuad, KPolygon, KStar, KLateral, KBox, KSphere, KCylinder, NKinds };
inline const char* kindName(int k)
{ static const char* n[] = {"point","segment","circle","ellipse","arc","disk","quad","polygon","star","lateral","box","sphere","cylinder"}; return n[k]; }
struct Obj
{
    int k = KPoint; V3 p, q; Planar m; Solid d; double t0 = 0, dt = 0;
    bool convex() const { return k == KPoint || k == KSegment || k == KDisk || k == KQuad || k == KPolygon || k >= KBox; }
    bool curve() const { return k >= KSegment && k <= KArc; }
    bool planar() const { return k >= KDisk && k <= KStar; }
    double angle(V3 x) const { const V3 l = m.f.local(x); return std::atan2(l.y/m.b, l.x/m.a); }
    // exact distance of a point to the object
    double dist(V3 x) const
    {
        switch (k)
        {
            case KPoint: return vf::dist(x, p);
            case KSegment: return distPointSegment(x, p, q);
            case KCircle: case KEllipse: return m.distToRim(x);
            case KArc:
            {   // local minima over the arc by dense sampling and golden section
                auto f = [&](double t) { return vf::dist(x, m.f.at(m.a*std::cos(t), m.b*std::sin(t))); };
                double best = std::min(f(t0), f(t0+dt)); const int N = 96; std::vector<double> v(N+1); for (int i = 0; i <= N; ++i) v[i] = f(t0 + dt*i/N);
                for (int i = 0; i <= N; ++i) if ((i == 0 || v[i] <= v[i-1]) && (i == N || v[i] <= v[i+1]))
                { double lo = t0 + dt*std::max(0, i-1)/N, hi = t0 + dt*std::min(N, i+1)/N; for (int j = 0; j < 60; ++j) { const double a = lo + 0.382*(hi-lo), b = hi - 0.382*(hi-lo); if (f(a) < f(b)) hi = b; else lo = a; } best = std::min(best, f(0.5*(lo+hi))); }
                return std::min(best, std::min(*std::min_element(v.begin(), v.end()), best));
            }
            case KDisk: case KQuad: case KPolygon: case KStar: return m.distTo(x);
            case KLateral: return d.cyl.distLateral(x);
            default: return std::max(0.0, d.signedDist(x));
        }
    }
    // distance to the boundary (rim, outer surface); only where it is defined
    double rim(V3 x) const
    {
        if (k == KLateral) return d.cyl.distRims(x);
        if (planar()) return m.distToRim(x);
        return std::abs(d.signedDist(x));
    }
    // curves: point at s in [0,1] and a bound of the speed
    V3 at(double s) const
    {
        if (k == KPoint) return p;
        if (k == KSegment) return p + s*(q-p);
        const double t = k == KArc ? t0 + s*dt : 2*M_PI*s; return m.f.at(m.a*std::cos(t), m.b*std::sin(t));
    }
    double speed() const { return k == KPoint ? 0 : k == KSegment ? vf::dist(p, q) : (k == KArc ? dt : 2*M_PI)*m.a; }
    // convex objects
    V3 closest(V3 x) const
    {
        switch (k)
        {
            case KPoint: return p;
            case KSegment: { const V3 e = q-p; const double t = std::min(1.0, std::max(0.0, dot(x-p, e)/dot(e, e))); return p + t*e; }
            case KBox: return V3(std::min(d.hi.x, std::max(d.lo.x, x.x)), std::min(d.hi.y, std::max(d.lo.y, x.y)), std::min(d.hi.z, std::max(d.lo.z, x.z)));
            case KSphere: { const double l = vf::dist(x, d.c); return l <= d.r ? x : d.c + (d.r/l)*(x-d.c); }
            case KCylinder: { V3 l = d.cyl.f.local(x); const double rad = std::hypot(l.x, l.y); if (rad > d.cyl.r) { l.x *= d.cyl.r/rad; l.y *= d.cyl.r/rad; } l.z = std::min(d.cyl.h, std::max(0.0, l.z)); return d.cyl.f.at(l.x, l.y, l.z); }
            default: return m.closest(x);
        }
    }
    double support(V3 n) const
    {
        switch (k)
        {
            case KPoint: return dot(n, p);
            case KSegment: return std::max(dot(n, p), dot(n, q));
            case KBox: return (n.x > 0 ? d.hi.x : d.lo.x)*n.x + (n.y > 0 ? d.hi.y : d.lo.y)*n.y + (n.z > 0 ? d.hi.z : d.lo.z)*n.z;
            case KSphere: return dot(n, d.c) + d.r*norm(n);
            case KCylinder: return dot(n, d.cyl.f.o) + d.cyl.r*std::hypot(dot(n, d.cyl.f.u), dot(n, d.cyl.f.v)) + std::max(0.0, d.cyl.h*dot(n, d.cyl.f.w));
            default: return m.support(n);
        }
    }
    V3 center() const { return k == KPoint ? p : k == KSegment ? 0.5*(p+q) : k <= KStar ? m.f.o : k == KBox ? 0.5*(d.lo+d.hi) : k == KSphere ? d.c : d.cyl.f.o + 0.5*d.cyl.h*d.cyl.f.w; }
    V3 rnd(Rng& r) const
    {
        if (k <= KArc) return at(r.u());
        if (planar()) return m.randomInside(r);
        if (k == KBox) return V3(r.u(d.lo.x, d.hi.x), r.u(d.lo.y, d.hi.y), r.u(d.lo.z, d.hi.z));
        if (k == KSphere) return d.c + (d.r*std::cbrt(r.u()))*randUnit(r);
        const double rad = d.cyl.r*(k == KLateral ? 1.0 : std::sqrt(r.u())), t = r.u(0, 2*M_PI); return d.cyl.f.at(rad*std::cos(t), rad*std::sin(t), r.u(0, d.cyl.h));
    }
    void describe(std::ostream& o) const
    {
        o << kindName(k) << " ";
        if (k == KPoint) o << p; else if (k == KSegment) o << p << q; else if (k <= KStar) { m.describe(o); if (k == KArc) o << " t0=" << t0 << " dt=" << dt; } else d.describe(o); o << " ";
    }
    Arc3 arc() const { return Arc3(Ellipse3(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b), fp(at(0)), fp(at(1))); }
    // calls f with the frackit object
    template<class Fn> auto visit(Fn&& f) const
    {
        switch (k)
        {
            case KPoint: return f(fp(p)); case KSegment: return f(Seg3(fp(p), fp(q)));
            case KCircle: return f(Circle3(fp(m.f.o), fd(m.f.w), m.a)); case KEllipse: return f(Ellipse3(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b));
            case KArc: return f(arc()); case KDisk: return f(fdisk(m)); case KQuad: return f(fquad(m));
            case KPolygon: case KStar: return f(fpoly(m));
            case KLateral: return f(fcyl(d.cyl).lateralFace()); case KBox: return f(FBox(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z));
            case KSphere: return f(FSphere(fp(d.c), d.r)); default: return f(fcyl(d.cyl));
        }
    }
    TopoDS_Shape shape() const { return visit([](const auto& g) -> TopoDS_Shape { return F::OCCUtilities::getShape(g); }); }
};
inline Obj randObj(Rng& r, int k, V3 c, double s)
{
    Obj o; o.k = k;
    if (k == KPoint) o.p = c;
    else if (k == KSegment) { const V3 h = s*r.u(0.2, 1)*randUnit(r); o.p = c - h; o.q = c + h; }
    else if (k == KCircle) { o.m = randDisk(r, c, s); o.m.b = o.m.a; }
    else if (k <= KDisk) { o.m = randDisk(r, c, s); o.t0 = r.u(0, 2*M_PI); o.dt = r.b(0.2) ? 0.5*M_PI*r.i(1,3) : r.u(0.1, 6.1); }
    else if (k == KQuad) o.m = randPolygon(r, c, s, 4);
    else if (k == KPolygon) o.m = randPolygon(r, c, s, r.i(3, 7));
    else if (k == KStar) o.m = randStar(r, c, s, r.i(4, 8));
    else if (k == KLateral) o.d = randSolid(r, c, s, 2);
    else o.d = randSolid(r, c, s, k - KBox);
    return o;
}
// certified [lo,hi] of min over the curve of f, f 1-Lipschitz in space
template<class Fn> Interval curveMin(const Obj& a, Fn&& f, double tol, int budget = 3000)
{
    if (a.k == KPoint) { const double v = f(a.p); return {v, v}; }
    const double L = a.speed(); struct I { double lo, x0, x1, f0, f1; bool operator<(const I& o) const { return lo > o.lo; } };
    std::priority_queue<I> Q; double hi = 1e300; auto low = [&](double x0, double x1, double f0, double f1) { return std::max(0.0, 0.5*(f0 + f1 - L*(x1-x0))); };
    const int N = 16; double last = f(a.at(0)); hi = last; for (int i = 0; i < N; ++i) { const double x0 = double(i)/N, x1 = double(i+1)/N, v = f(a.at(x1)); hi = std::min(hi, v); Q.push({low(x0,x1,last,v), x0, x1, last, v}); last = v; }
    double lo = Q.top().lo;
    for (int n = 0; n < budget && !Q.empty(); ++n)
    {
        const I i = Q.top(); lo = i.lo; if (hi - lo < tol) break; Q.pop(); const double x = 0.5*(i.x0+i.x1), v = f(a.at(x)); hi = std::min(hi, v);
        Q.push({low(i.x0, x, i.f0, v), i.x0, x, i.f0, v}); Q.push({low(x, i.x1, v, i.f1), x, i.x1, v, i.f1});
    }
    return {std::min(lo, hi), hi};
}
// certified [lo,hi] of the distance between two convex objects
inline Interval convexMin(const Obj& A, const Obj& B, double tol, int maxIter = 4000)
{
    V3 p = A.closest(B.center()), q = B.closest(p); double lo = 0, hi = dist(p, q);
    for (int k = 0; k < maxIter && hi - lo > tol; ++k)
    {
        p = A.closest(q); q = B.closest(p); hi = std::min(hi, dist(p, q)); const V3 n = q - p; const double l = norm(n);
        if (l > 1e-14) { const V3 d = n/l; lo = std::max(lo, -B.support(-d) - A.support(d)); }
    }
    return {std::min(lo, hi), hi};
}
// bounds of the distance of two objects (lo may be 0 where no certificate is available)
inline Interval distanceBounds(const Obj& a, const Obj& b, double tol, Rng& r)
{
    if (a.k == KPoint || a.curve()) { if (b.k == KPoint) { const double v = a.dist(b.p); return {v, v}; } return curveMin(a, [&](V3 x) { return b.dist(x); }, tol); }
    if (b.k == KPoint || b.curve()) return curveMin(b, [&](V3 x) { return a.dist(x); }, tol);
    if (a.convex() && b.convex()) return convexMin(a, b, tol);
    double hi = 1e300; for (int i = 0; i < 400; ++i) hi = std::min(hi, std::min(a.dist(b.rnd(r)), b.dist(a.rnd(r))));
    double lo = 0;   // hulls
    auto hull = [](const Obj& o) { Obj h = o; if (h.k == KLateral) h.k = KCylinder; return h; };
    if (a.k != KStar && b.k != KStar) lo = convexMin(hull(a), hull(b), tol)[0];
    return {lo, hi};
}
} // namespace vf
#endif
