// Reference geometry, independent of frackit and OpenCASCADE: plain vectors and
// models that are built from the generator's parameters.
#ifndef VERIF_REF_HH
#define VERIF_REF_HH

#include "common.hh"

namespace vf {

struct V3
{
    double x = 0, y = 0, z = 0;
    V3() = default;
    V3(double a, double b, double c) : x(a), y(b), z(c) {}
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x+b.x, a.y+b.y, a.z+b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x-b.x, a.y-b.y, a.z-b.z}; }
inline V3 operator-(V3 a) { return {-a.x, -a.y, -a.z}; }
inline V3 operator*(double s, V3 a) { return {s*a.x, s*a.y, s*a.z}; }
inline V3 operator*(V3 a, double s) { return s*a; }
inline V3 operator/(V3 a, double s) { return {a.x/s, a.y/s, a.z/s}; }
inline double dot(V3 a, V3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x}; }
inline double norm(V3 a) { return std::sqrt(dot(a,a)); }
inline V3 unit(V3 a) { return a/norm(a); }
inline double dist(V3 a, V3 b) { return norm(a-b); }
inline std::ostream& operator<<(std::ostream& o, const V3& v) { return o << "(" << v.x << "," << v.y << "," << v.z << ")"; }

// angle in [0,pi] between vectors, accurate for all angles
inline double angleBetween(V3 a, V3 b) { return std::atan2(norm(cross(a,b)), dot(a,b)); }
// acute angle between planes with the given normals
inline double planeAngle(V3 n1, V3 n2) { return std::atan2(norm(cross(n1,n2)), std::abs(dot(n1,n2))); }

inline V3 randUnit(Rng& r)
{
    for (;;)
    {
        V3 v(r.u(-1,1), r.u(-1,1), r.u(-1,1));
        const double n = norm(v);
        if (n > 0.1 && n <= 1.0) return v/n;
    }
}
inline V3 randVec(Rng& r, double s) { return V3(r.u(-s,s), r.u(-s,s), r.u(-s,s)); }

// orthonormal right-handed frame
struct Frame
{
    V3 o, u{1,0,0}, v{0,1,0}, w{0,0,1};
    V3 at(double a, double b, double c = 0.0) const { return o + a*u + b*v + c*w; }
    V3 dir(double a, double b, double c = 0.0) const { return a*u + b*v + c*w; }
    V3 local(V3 p) const { p = p - o; return {dot(p,u), dot(p,v), dot(p,w)}; }
};
inline V3 anyPerp(V3 n, double phi)
{
    V3 h = std::abs(n.x) < 0.6 ? V3(1,0,0) : V3(0,1,0);
    V3 a = unit(cross(n, h)), b = cross(n, a);
    return std::cos(phi)*a + std::sin(phi)*b;
}
// random frame; sometimes axis aligned (the special positions users build by hand)
inline Frame randFrame(Rng& r, V3 o, double alignedProb = 0.2)
{
    Frame f; f.o = o;
    if (r.b(alignedProb))
    {
        static const V3 e[3] = {V3(1,0,0), V3(0,1,0), V3(0,0,1)};
        const int i = r.i(3);
        f.u = r.b() ? e[i] : -e[i];
        const V3 v = e[(i + 1 + r.i(2))%3];
        f.v = r.b() ? v : -v;
        f.w = cross(f.u, f.v);
        return f;
    }
    f.w = randUnit(r);
    f.u = unit(anyPerp(f.w, r.u(0, 2*M_PI)));
    f.v = unit(cross(f.w, f.u));
    f.u = cross(f.v, f.w);
    return f;
}

// --------------------------------------------------------------- segments
inline double distPointSegment(V3 p, V3 a, V3 b)
{
    const V3 d = b-a; const double l2 = dot(d,d);
    double t = l2 > 0 ? dot(p-a, d)/l2 : 0.0;
    t = std::min(1.0, std::max(0.0, t));
    return dist(p, a + t*d);
}
inline double distPointLine(V3 p, V3 a, V3 d) { return norm(cross(p-a, d))/norm(d); }
// closest points of two segments (Ericson), robust enough for reference use
inline double distSegSeg(V3 p1, V3 q1, V3 p2, V3 q2)
{
    double best = std::min(std::min(distPointSegment(p1,p2,q2), distPointSegment(q1,p2,q2)),
                           std::min(distPointSegment(p2,p1,q1), distPointSegment(q2,p1,q1)));
    const V3 d1 = q1-p1, d2 = q2-p2, r = p1-p2;
    const double a = dot(d1,d1), e = dot(d2,d2), f = dot(d2,r), c = dot(d1,r), b = dot(d1,d2);
    const double den = a*e - b*b;
    if (den > 1e-18*a*e)
    {
        const double s = (b*f - c*e)/den, t = (a*f - b*c)/den;
        if (s >= 0 && s <= 1 && t >= 0 && t <= 1)
            best = std::min(best, dist(p1 + s*d1, p2 + t*d2));
    }
    return best;
}

// --------------------------------------------------------- 2d ellipse tools
// distance from (px,py) to the boundary of x^2/a^2+y^2/b^2=1 (global, by bracketing);
// t receives the parameter of the closest point
inline double distPointEllipse2(double px, double py, double a, double b, double* tOut = nullptr)
{
    auto f = [&] (double t) { const double dx = a*std::cos(t)-px, dy = b*std::sin(t)-py; return dx*dx+dy*dy; };
    const int N = 64;
    double best = 1e300, bt = 0;
    double val[N];
    for (int i = 0; i < N; ++i) val[i] = f(2*M_PI*i/N);
    for (int i = 0; i < N; ++i)
    {
        if (val[i] > val[(i+1)%N] || val[i] > val[(i+N-1)%N]) continue;
        double lo = 2*M_PI*(i-1)/N, hi = 2*M_PI*(i+1)/N;
        const double g = 0.3819660112501051;
        double x1 = lo + g*(hi-lo), x2 = hi - g*(hi-lo), f1 = f(x1), f2 = f(x2);
        for (int k = 0; k < 80; ++k)
        {
            if (f1 < f2) { hi = x2; x2 = x1; f2 = f1; x1 = lo + g*(hi-lo); f1 = f(x1); }
            else { lo = x1; x1 = x2; f1 = f2; x2 = hi - g*(hi-lo); f2 = f(x2); }
        }
        const double t = 0.5*(lo+hi), v = f(t);
        if (v < best) { best = v; bt = t; }
    }
    if (tOut) *tOut = bt;
    return std::sqrt(best);
}
inline double ellipseLength(double a, double b)
{   // exact perimeter by AGM
    if (b > a) std::swap(a, b);
    double x = a, y = b, s = 0, p = 1;   // Gauss-Kummer via AGM
    // perimeter = 2*pi*(a0^2 - sum 2^(n-1) c_n^2)/agm
    double c2 = a*a - b*b; s = 0.5*c2; p = 0.5;
    for (int k = 0; k < 12 && std::abs(x-y) > 4e-16*a; ++k)
    {
        const double xn = 0.5*(x+y), yn = std::sqrt(x*y), c = 0.5*(x-y);
        p *= 2; s += p*c*c; x = xn; y = yn;
    }
    return 2*M_PI*(a*a - s)/x;
}
// length of the arc from parameter t0 to t1 (t1 > t0), composite Gauss-Legendre
inline double ellipseArcLength(double a, double b, double t0, double t1)
{
    static const double X[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
    static const double W[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    const int N = 64; double sum = 0;
    for (int i = 0; i < N; ++i)
    {
        const double l = t0 + (t1-t0)*i/N, h = 0.5*(t1-t0)/N, m = l + h;
        for (int k = 0; k < 4; ++k)
            for (int s = -1; s <= 1; s += 2)
            {
                const double t = m + s*h*X[k];
                sum += h*W[k]*std::hypot(a*std::sin(t), b*std::cos(t));
            }
    }
    return sum;
}

// ----------------------------------------------------------- planar shapes
struct Pt2 { double x, y; };
// signed distance to a simple polygon: negative inside
inline double polySigned2(const std::vector<Pt2>& P, double x, double y)
{
    bool in = false; double d = 1e300; const int n = int(P.size());
    for (int i = 0, j = n-1; i < n; j = i++)
    {
        const auto &a = P[i], &b = P[j];
        if (((a.y > y) != (b.y > y)) && (x < (b.x-a.x)*(y-a.y)/(b.y-a.y) + a.x)) in = !in;
        const double ex = b.x-a.x, ey = b.y-a.y; double l2 = ex*ex+ey*ey;
        double t = l2 > 0 ? ((x-a.x)*ex + (y-a.y)*ey)/l2 : 0; t = std::min(1.0, std::max(0.0, t));
        d = std::min(d, std::hypot(x-a.x-t*ex, y-a.y-t*ey));
    }
    return in ? -d : d;
}
inline double polyArea2(const std::vector<Pt2>& P)
{
    double s = 0; const int n = int(P.size());
    for (int i = 0, j = n-1; i < n; j = i++) s += P[j].x*P[i].y - P[i].x*P[j].y;
    return 0.5*std::abs(s);
}

using Interval = std::array<double,2>;

// planar fracture model: elliptical disk or simple polygon in the frame's u-v plane
struct Planar
{
    Frame f;
    bool isDisk = true;
    double a = 1, b = 1;           // disk
    std::vector<Pt2> poly;         // polygon (local coordinates)
    std::vector<std::vector<Pt2>> holes;   // disjoint holes well inside

    V3 normal() const { return f.w; }
    V3 corner(int i) const { return f.at(poly[i].x, poly[i].y); }
    double size() const
    {
        if (isDisk) return 2*a;
        double m = 0;
        for (auto& p : poly) for (auto& q : poly) m = std::max(m, std::hypot(p.x-q.x, p.y-q.y));
        return m;
    }
    double area() const { double A = isDisk ? M_PI*a*b : polyArea2(poly); for (auto& h : holes) A -= std::abs(polyArea2(h)); return A; }
    // signed in-plane distance to the rim (negative inside)
    double signed2(double x, double y) const
    {
        if (!isDisk) { double d = polySigned2(poly, x, y); for (auto& h : holes) d = std::max(d, -polySigned2(h, x, y)); return d; }
        const double d = distPointEllipse2(x, y, a, b);
        return (x*x/(a*a) + y*y/(b*b) <= 1.0) ? -d : d;
    }
    double distTo(V3 p) const
    {
        const V3 l = f.local(p);
        const double s = std::max(0.0, signed2(l.x, l.y));
        return std::hypot(s, l.z);
    }
    double distToRim(V3 p) const { const V3 l = f.local(p); return std::hypot(signed2(l.x, l.y), l.z); }
    V3 closest(V3 p) const
    {
        const V3 l = f.local(p);
        if (isDisk)
        {
            if (l.x*l.x/(a*a) + l.y*l.y/(b*b) <= 1.0) return f.at(l.x, l.y);
            double t; distPointEllipse2(l.x, l.y, a, b, &t);
            return f.at(a*std::cos(t), b*std::sin(t));
        }
        if (polySigned2(poly, l.x, l.y) <= 0) return f.at(l.x, l.y);
        double best = 1e300; Pt2 bp{0,0}; const int n = int(poly.size());
        for (int i = 0, j = n-1; i < n; j = i++)
        {
            const double ex = poly[j].x-poly[i].x, ey = poly[j].y-poly[i].y, l2 = ex*ex+ey*ey;
            double t = l2 > 0 ? ((l.x-poly[i].x)*ex + (l.y-poly[i].y)*ey)/l2 : 0; t = std::min(1.0, std::max(0.0, t));
            const Pt2 q{poly[i].x+t*ex, poly[i].y+t*ey};
            const double d = std::hypot(q.x-l.x, q.y-l.y);
            if (d < best) { best = d; bp = q; }
        }
        return f.at(bp.x, bp.y);
    }
    // support function (disk and convex polygons; for others: of the hull)
    double support(V3 d) const
    {
        if (isDisk) return dot(d, f.o) + std::hypot(a*dot(d, f.u), b*dot(d, f.v));
        double m = -1e300;
        for (size_t i = 0; i < poly.size(); ++i) m = std::max(m, dot(d, corner(int(i))));
        return m;
    }
    // parameter intervals of an in-plane line p + t*d (|d| = 1) inside the shape
    std::vector<Interval> clip(V3 p, V3 d) const
    {
        const V3 l = f.local(p); const double dx = dot(d, f.u), dy = dot(d, f.v);
        std::vector<Interval> res;
        if (isDisk)
        {
            const double A = dx*dx/(a*a) + dy*dy/(b*b), B = l.x*dx/(a*a) + l.y*dy/(b*b), C = l.x*l.x/(a*a) + l.y*l.y/(b*b) - 1;
            const double D = B*B - A*C;
            if (D >= 0) { const double s = std::sqrt(D); res.push_back({(-B-s)/A, (-B+s)/A}); }
            return res;
        }
        std::vector<double> ts; const int n = int(poly.size());
        for (int i = 0, j = n-1; i < n; j = i++)
        {
            const double sa = (poly[i].x-l.x)*(-dy) + (poly[i].y-l.y)*dx;
            const double sb = (poly[j].x-l.x)*(-dy) + (poly[j].y-l.y)*dx;
            if ((sa > 0) == (sb > 0)) continue;
            const double k = sa/(sa-sb);
            const double x = poly[i].x + k*(poly[j].x-poly[i].x), y = poly[i].y + k*(poly[j].y-poly[i].y);
            ts.push_back((x-l.x)*dx + (y-l.y)*dy);
        }
        std::sort(ts.begin(), ts.end());
        for (size_t i = 0; i+1 < ts.size(); i += 2) res.push_back({ts[i], ts[i+1]});
        return res;
    }
    void describe(std::ostream& o) const
    {
        if (isDisk) o << "disk c=" << f.o << " maj=" << f.u << " min=" << f.v << " a=" << a << " b=" << b;
        else { o << "poly["; for (size_t i = 0; i < poly.size(); ++i) o << (i ? "," : "") << corner(int(i)); o << "]"; }
        for (auto& h : holes) { o << " hole["; for (size_t i = 0; i < h.size(); ++i) o << (i ? "," : "") << f.at(h[i].x, h[i].y); o << "]"; }
    }
    V3 randomInside(Rng& r) const
    {
        if (isDisk) { const double rho = std::sqrt(r.u()), t = r.u(0, 2*M_PI); return f.at(a*rho*std::cos(t), b*rho*std::sin(t)); }
        double x0=1e300,x1=-1e300,y0=1e300,y1=-1e300;
        for (auto& p : poly) { x0=std::min(x0,p.x); x1=std::max(x1,p.x); y0=std::min(y0,p.y); y1=std::max(y1,p.y); }
        for (int k = 0; k < 1000; ++k)
        { const double x = r.u(x0,x1), y = r.u(y0,y1); if (signed2(x, y) < 0) return f.at(x, y); }
        return corner(0);
    }
};

// certified bounds [lo,hi] of the distance between two convex planar shapes
inline Interval convexDistance(const Planar& A, const Planar& B, double tol, int maxIter = 20000)
{
    V3 p = A.closest(B.f.o), q = B.closest(p);
    double lo = 0, hi = dist(p, q);
    for (int k = 0; k < maxIter; ++k)
    {
        p = A.closest(q); q = B.closest(p);
        hi = std::min(hi, dist(p, q));
        const V3 n = q - p; const double l = norm(n);
        if (l > 1e-14)
        {
            const V3 d = n/l;
            lo = std::max(lo, -B.support(-d) - A.support(d));
        }
        if (hi - lo < tol) break;
    }
    return {lo, hi};
}

// ---------------------------------------------------------------- cylinder
struct Cyl
{
    Frame f; double r = 1, h = 1;      // bottom centre f.o, axis f.w
    // signed distance to the solid cylinder (negative inside)
    double signedSolid(V3 p) const
    {
        const V3 l = f.local(p); const double rad = std::hypot(l.x, l.y) - r;
        const double ax = std::max(-l.z, l.z - h);
        if (rad <= 0 && ax <= 0) return std::max(rad, ax);
        return std::hypot(std::max(0.0, rad), std::max(0.0, ax));
    }
    double distLateral(V3 p) const
    {
        const V3 l = f.local(p); const double rad = std::abs(std::hypot(l.x, l.y) - r);
        return std::hypot(rad, std::max(0.0, std::max(-l.z, l.z-h)));
    }
    double distRims(V3 p) const
    {
        const V3 l = f.local(p); const double rad = std::hypot(l.x, l.y) - r;
        return std::min(std::hypot(rad, l.z), std::hypot(rad, l.z-h));
    }
    void describe(std::ostream& o) const
    { o << "cyl c=" << f.o << " u=" << f.u << " v=" << f.v << " r=" << r << " h=" << h; }
};

// ------------------------------------------------------------- generators
// length scales users work with (millimetres to kilometres when the unit is metres)
inline double randScale(Rng& r) { static const double s[] = {1e-3, 1e-2, 0.1, 1, 1, 1, 10, 100, 1e3}; return s[r.i(9)]*r.u(0.5, 2.0); }

inline Planar randDisk(Rng& r, V3 c, double s, double alignedProb = 0.2)
{
    Planar p; p.f = randFrame(r, c, alignedProb); p.isDisk = true;
    p.a = s*r.u(0.3, 1.0); p.b = r.b(0.25) ? p.a : p.a*r.u(0.2, 1.0);
    return p;
}
// convex polygon, corners counter-clockwise around the frame normal, at least minEdge*s apart
inline std::vector<Pt2> randConvex(Rng& r, int n, double s)
{
    for (;;)
    {
        std::vector<double> ang(n);
        for (auto& t : ang) t = r.u(0, 2*M_PI);
        std::sort(ang.begin(), ang.end());
        bool ok = true;
        for (int i = 0; i < n; ++i)
        {
            const double d = i+1 < n ? ang[i+1]-ang[i] : ang[0]+2*M_PI-ang[n-1];
            if (d < 0.9*M_PI/n*0.5 || d > 0.95*M_PI) ok = false;
        }
        if (!ok) continue;
        const double a = s*r.u(0.4,1.0), b = a*r.u(0.4,1.0), rot = r.u(0,2*M_PI);
        std::vector<Pt2> P;
        for (auto t : ang)
        {
            const double x = a*std::cos(t), y = b*std::sin(t);
            P.push_back({x*std::cos(rot)-y*std::sin(rot), x*std::sin(rot)+y*std::cos(rot)});
        }
        // reject slivers
        double amin = polyArea2(P);
        if (amin < 0.15*s*s*0.16) continue;
        return P;
    }
}
inline Planar randPolygon(Rng& r, V3 c, double s, int n, double alignedProb = 0.2)
{
    Planar p; p.f = randFrame(r, c, alignedProb); p.isDisk = false; p.poly = randConvex(r, n, s);
    return p;
}
// star-shaped, usually not convex
inline Planar randStar(Rng& r, V3 c, double s, int n)
{
    Planar p; p.f = randFrame(r, c); p.isDisk = false;
    const double rot = r.u(0, 2*M_PI);
    for (int i = 0; i < n; ++i)
    {
        const double t = rot + 2*M_PI*(i + r.u(-0.25,0.25))/n, rho = s*r.u(0.3,1.0);
        p.poly.push_back({rho*std::cos(t), rho*std::sin(t)});
    }
    return p;
}
// star with a convex hole around the origin
inline Planar randPlate(Rng& r, V3 c, double s, int n)
{
    for (;;)
    {
        Planar p = randStar(r, c, s, n); const double d = -polySigned2(p.poly, 0, 0); if (d < 0.12*s) continue;
        auto h = randConvex(r, r.i(3, 5), d*r.u(0.5, 0.9)); double m = 0; for (auto& q : h) m = std::max(m, std::hypot(q.x, q.y)); if (m < 0.95*d) { p.holes.push_back(h); return p; }
    }
}
// zigzag band with n arms, cut several times by most planes
inline Planar randBand(Rng& r, V3 c, double s, int n)
{
    Planar p; p.f = randFrame(r, c); p.isDisk = false; const double w = s/n, t = s*r.u(0.15, 0.35), rot = r.u(0, 2*M_PI), sg = r.b() ? 1 : -1; std::vector<Pt2> lo, hi;
    for (int i = 0; i <= n; ++i) { const double x = -s/2*1.0 + i*w + (i && i < n ? w*r.u(-0.2, 0.2) : 0), y = sg*(i%2 ? 1 : -1)*s*r.u(0.35, 0.6); lo.push_back({x, y - t/2}); hi.push_back({x, y + t/2}); }
    p.poly = lo; p.poly.insert(p.poly.end(), hi.rbegin(), hi.rend());
    for (auto& q : p.poly) q = {q.x*std::cos(rot) - q.y*std::sin(rot), q.x*std::sin(rot) + q.y*std::cos(rot)};
    return p;
}
inline Cyl randCyl(Rng& r, V3 c, double s)
{
    Cyl k; k.f = randFrame(r, c); k.r = s*r.u(0.3,1.0); k.h = s*r.u(0.3,2.0);
    return k;
}

} // namespace vf
#endif
