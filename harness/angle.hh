// Angle between the (tangent) planes of two geometries along pieces of their intersection.
#ifndef VERIF_ANGLE_HH
#define VERIF_ANGLE_HH
#include "isect.hh"
#include <frackit/intersection/intersectionangle.hh>
namespace vf {
using Normal = std::function<V3(V3)>;
inline Normal normalOf(const Geo& g)
{
    if (g.k == GPlane) { const V3 n = g.q; return [n](V3) { return n; }; }
    if (g.flat()) { const V3 n = g.m.f.w; return [n](V3) { return n; }; }
    const Cyl c = g.c; return [c](V3 x) { const V3 l = c.f.local(x); return unit(l.x*c.f.u + l.y*c.f.v); };
}
inline double between(V3 a, V3 b) { return std::atan2(norm(cross(a, b)), std::abs(dot(a, b))); }
// smallest angle over the piece (lo) and over five evenly spaced points of it (hi)
inline void range(const Piece& p, const Normal& na, const Normal& nb, double& lo, double& hi)
{
    if (p.t == 'F') { lo = hi = 0; return; }
    auto at = [&](double f) -> V3 {
        if (p.t == 'P') return p.s[0];
        if (p.t == 'S') return p.s.front() + f*(p.s.back() - p.s.front());
        if (p.t == 'L') return p.s[0] + f*p.u;
        if (p.t == 'e') { const gp_Pnt q = p.curve->Value(p.c0 + f*(p.c1 - p.c0)); return {q.X(), q.Y(), q.Z()}; }
        const double t = p.t0 + f*p.dt; return p.c + p.a*std::cos(t)*p.u + p.b*std::sin(t)*p.v; };
    lo = hi = 1e300; for (int i = 0; i <= 4; ++i) { const V3 x = at(0.25*i); hi = std::min(hi, between(na(x), nb(x))); }
    lo = hi; if (p.dim() == 1) for (int i = 0; i <= 1000; ++i) { const V3 x = at(i/1000.0); lo = std::min(lo, between(na(x), nb(x))); }
    // the smallest angle may lie between two of these points
    lo -= p.t == 'e' || p.t == 'A' || p.t == 'E' ? 1e-4 : 0;
}
} // namespace vf
#endif
