// Convex solid domains and the exact/numerical clip of planar shapes and lines against them.
#ifndef VERIF_CLIP_HH
#define VERIF_CLIP_HH
#include "ref.hh"
namespace vf {
// convex solid domain: box, sphere or cylinder
struct Solid
{
    int kind = 0;               // 0 box, 1 sphere, 2 cylinder
    V3 lo, hi;                  // box
    V3 c; double r = 1;         // sphere
    Cyl cyl;
    // parameter interval of the line p + t d (|d| = 1) inside; empty if lo > hi
    Interval line(V3 p, V3 d) const
    {
        double a = -1e300, b = 1e300;
        auto slab = [&](double x, double v, double l, double h) {
            if (std::abs(v) < 1e-300) { if (x < l || x > h) { a = 1; b = 0; } return; }
            double t0 = (l-x)/v, t1 = (h-x)/v; if (t0 > t1) std::swap(t0, t1); a = std::max(a, t0); b = std::min(b, t1); };
        auto quad = [&](double A, double B, double C) {   // A t^2 + 2 B t + C <= 0
            if (A < 1e-28) { if (C > 0) { a = 1; b = 0; } return; }
            const double D = B*B - A*C; if (D < 0) { a = 1; b = 0; return; }
            const double s = std::sqrt(D); a = std::max(a, (-B-s)/A); b = std::min(b, (-B+s)/A); };
        if (kind == 0) { slab(p.x, d.x, lo.x, hi.x); slab(p.y, d.y, lo.y, hi.y); slab(p.z, d.z, lo.z, hi.z); }
        else if (kind == 1) { const V3 q = p - c; quad(1.0, dot(q, d), dot(q, q) - r*r); }
        else
        {
            const V3 q = cyl.f.local(p); const V3 e(dot(d, cyl.f.u), dot(d, cyl.f.v), dot(d, cyl.f.w));
            quad(e.x*e.x + e.y*e.y, q.x*e.x + q.y*e.y, q.x*q.x + q.y*q.y - cyl.r*cyl.r);
            slab(q.z, e.z, 0, cyl.h);
        }
        return {a, b};
    }
    // negative inside; magnitude at least a lower bound of the distance to the boundary
    double signedDist(V3 p) const
    {
        if (kind == 1) return dist(p, c) - r;
        if (kind == 2) return cyl.signedSolid(p);
        const V3 m = 0.5*(lo+hi), h = 0.5*(hi-lo);
        const V3 q(std::abs(p.x-m.x)-h.x, std::abs(p.y-m.y)-h.y, std::abs(p.z-m.z)-h.z);
        const double in = std::max(q.x, std::max(q.y, q.z));
        if (in <= 0) return in;
        return norm(V3(std::max(q.x,0.0), std::max(q.y,0.0), std::max(q.z,0.0)));
    }
    double volume() const
    { return kind == 0 ? (hi.x-lo.x)*(hi.y-lo.y)*(hi.z-lo.z) : kind == 1 ? 4.0/3.0*M_PI*r*r*r : M_PI*cyl.r*cyl.r*cyl.h; }
    void describe(std::ostream& o) const
    {
        if (kind == 0) o << "box" << lo << hi;
        else if (kind == 1) o << "sphere" << c << " r=" << r;
        else cyl.describe(o);
    }
    double diag() const { return kind == 0 ? dist(lo, hi) : kind == 1 ? 2*r : std::hypot(2*cyl.r, cyl.h); }
};
inline Solid randSolid(Rng& r, V3 c, double s, int kind)
{
    Solid d; d.kind = kind;
    if (kind == 0) { const V3 h(s*r.u(0.3,1), s*r.u(0.3,1), s*r.u(0.3,1)); d.lo = c - h; d.hi = c + h; }
    else if (kind == 1) { d.c = c; d.r = s*r.u(0.4, 1); }
    else { d.cyl = randCyl(r, c, s); d.cyl.f.o = c - 0.5*d.cyl.h*d.cyl.f.w; }
    return d;
}
// 1-d measure of the union of intervals clipped to [a,b]
inline double clipLength(const std::vector<Interval>& v, Interval k)
{ double s = 0; for (auto& i : v) s += std::max(0.0, std::min(i[1], k[1]) - std::max(i[0], k[0])); return s; }
// area of the part of a planar shape inside the domain (numerical, relative accuracy about 1e-6 of the shape's area)
inline double scannedArea(const Planar& m, const Solid& D, int N, double angle)
{
    const V3 d = m.f.dir(std::cos(angle), std::sin(angle)), e = m.f.dir(-std::sin(angle), std::cos(angle));
    const double y1 = m.support(e) - dot(e, m.f.o), y0 = -(m.support(-e) + dot(e, m.f.o));
    double A = 0; const double mid = 0.5*(y0+y1), half = 0.5*(y1-y0);
    for (int i = 0; i < N; ++i)
    {   // midpoint rule in the angle: removes the square root singularity at the ends of disks
        const double t = M_PI*(i+0.5)/N, y = mid - half*std::cos(t), w = half*std::sin(t)*M_PI/N; const V3 p = m.f.o + y*e;
        A += w*clipLength(m.clip(p, d), D.line(p, d));
    }
    return A;
}
// scans are inaccurate if a boundary is almost parallel to the scan lines: two directions have to agree
inline double clippedArea(const Planar& m, const Solid& D, int N = 4000)
{
    double v[3] = {scannedArea(m, D, N, 0.7071), scannedArea(m, D, N, 2.0713), 0}; if (std::abs(v[0] - v[1]) <= 2e-6*std::max(v[0], v[1])) return 0.5*(v[0] + v[1]);
    v[2] = scannedArea(m, D, N, 1.3141); std::sort(v, v+3); if (std::min(v[1]-v[0], v[2]-v[1]) > 4e-6*v[2]) { for (int k = 0; k < 3; ++k) v[k] = scannedArea(m, D, 16*N, 0.311 + 0.937*k); std::sort(v, v+3); } return v[1];
}
} // namespace vf
#endif
