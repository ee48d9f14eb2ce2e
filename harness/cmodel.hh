// Three-valued model of the constraints between two entities (holds / violated / too close to tell).
#ifndef VERIF_CMODEL_HH
#define VERIF_CMODEL_HH
#include "isect.hh"
#include "angle.hh"
#include "objs.hh"
#include <frackit/entitynetwork/constraints.hh>
namespace vf {
enum Tri { No = -1, Unsure = 0, Yes = 1 };
struct Settings { bool uD = false, uA = false, uM = false, uB = false, equi = false, uE = false; double d = 0, a = 0, m = 0, b = 0, eps = 0; bool any() const { return uD || uA || uM || uB; } };
inline std::ostream& operator<<(std::ostream& o, const Settings& s)
{ o << "{"; if (s.uD) o << " dist " << s.d; if (s.uA) o << " angle " << s.a; if (s.uM) o << " mag " << s.m; if (s.uB) o << " bdist " << s.b; if (s.equi) o << " equi"; if (s.uE) o << " eps " << s.eps; return o << " }"; }
using Constraints = F::EntityNetworkConstraints<double>;
inline Obj objOf(const Geo& g)
{
    Obj o; if (g.cyl()) { o.k = KLateral; o.d.cyl = g.c; return o; }
    o.m = g.m; o.k = g.m.isDisk ? KDisk : KPolygon; if (!g.m.isDisk) { double s = 0; const int n = int(g.m.poly.size()); for (int i = 0; i < n; ++i) { const Pt2 a = g.m.poly[i], b = g.m.poly[(i+1)%n], c = g.m.poly[(i+2)%n]; const double k = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x); if (s == 0) s = k; else if (s*k < 0) o.k = KStar; } }
    return o;
}
// facts about one pair under one tolerance
struct Facts { bool empty = false, failed = false; std::vector<Piece> v; double aLo = 1e300, aHi = 1e300; Interval d{0, 0}; double tol = 1e-7; bool distKnown = false; };
inline double rim(const Geo& g, V3 x) { return g.cyl() ? g.c.distRims(x) : g.m.distToRim(x); }
inline Tri atLeast(double lo, double hi, double thr, double tol) { return lo >= thr + tol ? Yes : hi < thr - tol ? No : Unsure; }
inline Tri both(Tri a, Tri b) { return a == No || b == No ? No : a == Unsure || b == Unsure ? Unsure : Yes; }
// a point of the intersection against the boundary of an entity
inline Tri pointTri(const Geo& g, V3 x, double thr, double tol, bool* on = nullptr)
{
    const double d = rim(g, x); if (on) *on = d <= 0.1*tol; const double def = std::max(1e-7*g.size(), 1e-7);
    if (d <= 1e-3*def) return Yes; if (d < 100*def + tol) return Unsure; return atLeast(d, d, thr, tol + 1e-6*thr);
}
inline Tri boundaryTri(const Geo& g, const Piece& p, double thr, double tol)
{
    if (p.t == 'F') return Unsure;
    if (g.k == GFace && g.cylFace) return Unsure;    // its outline contains the seam
    if (p.t == 'P') return pointTri(g, p.s[0], thr, tol);
    if (p.t == 'E') { double m = 1e300; for (int i = 0; i <= 720; ++i) { const double t = 2*M_PI*i/720; m = std::min(m, rim(g, p.c + p.a*std::cos(t)*p.u + p.b*std::sin(t)*p.v)); } return atLeast(m - p.a*1e-2*1e-2, m, thr, tol + 1e-5*thr + 1e-4*p.a); }
    const V3 a = p.s.front(), b = p.s.back(); const Tri ends = both(pointTri(g, a, thr, tol), pointTri(g, b, thr, tol)); if (ends == No) return No;
    if (p.t == 'S') return ends;
    // curves: the ends decide if one of them is on the boundary; otherwise points in between may count
    const double def = std::max(1e-7*g.size(), 1e-7); const double ra = rim(g, a), rb = rim(g, b); if (ra <= 1e-3*def || rb <= 1e-3*def) return p.closed ? Unsure : ends;
    double m = 1e300, m5 = 1e300; const int N = 64; auto at = [&](double f) -> V3 { if (p.t == 'e') { const gp_Pnt q = p.curve->Value(p.c0 + f*(p.c1-p.c0)); return {q.X(), q.Y(), q.Z()}; } const double t = p.t0 + f*p.dt; return p.c + p.a*std::cos(t)*p.u + p.b*std::sin(t)*p.v; };
    for (int i = 0; i <= N; ++i) { const double d = rim(g, at(double(i)/N)); m = std::min(m, d); if (i % 16 == 0) m5 = std::min(m5, d); }
    if (ends == Yes && m >= thr + tol + 0.1*p.len/N) return Yes;
    if (p.t == 'A') return m5 < thr - tol - 1e-6*thr && ra > 100*def && rb > 100*def ? No : Unsure;
    return Unsure;
}
inline Tri model(const Settings& s, const Geo& A, const Geo& B, const Facts& f)
{
    if (!s.any()) return Yes;
    if (f.failed) return Unsure;
    if (f.empty) return s.uD ? (f.distKnown ? atLeast(f.d[0], f.d[1], s.d, 1e-5*s.d + 10*f.tol) : Unsure) : Yes;
    Tri t = Yes;
    for (auto& p : f.v)
    {
        if (!s.equi && p.dim() == 2) return No;
        if (s.uM && p.dim() > 0) t = both(t, atLeast(p.len, p.len, s.m, 1e-4*s.m + 10*f.tol));
        if (s.uB) t = both(t, both(boundaryTri(A, p, s.b, 10*f.tol), boundaryTri(B, p, s.b, 10*f.tol)));
    }
    if (s.uA) t = both(t, atLeast(f.aLo, f.aHi, s.a, 1e-6));
    return t;
}
} // namespace vf
#endif
