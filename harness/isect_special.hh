// Exactly constructed special positions with the known common set.
#ifndef VERIF_ISECT_SPECIAL_HH
#define VERIF_ISECT_SPECIAL_HH
#include "isect.hh"
namespace vf {
struct Exp { char t; std::vector<V3> s; double len = 0; };      // t: P S A E F N L
struct Special { std::string name; Geo A, B; std::vector<Exp> ex; bool any = false; double amp = 1; bool tang = false; };   // amp: conditioning, tang: contact of curves of the second order
inline Exp eP(V3 p) { return {'P', {p}, 0}; }
inline Exp eS(V3 a, V3 b) { Exp e{'S', {}, dist(a, b)}; for (int i = 0; i <= 8; ++i) e.s.push_back(a + (i/8.0)*(b-a)); return e; }
inline Exp eArc(V3 c, V3 u, V3 v, double a, double b, double t0, double dt, char t = 'A')
{ Exp e{t, {}, ellipseArcLength(a, b, t0, t0+dt)}; for (int i = 0; i <= 24; ++i) { const double x = t0 + dt*i/24; e.s.push_back(c + a*std::cos(x)*u + b*std::sin(x)*v); } return e; }
// a flat geometry of kind k in frame f: convex, containing the local origin well inside, radius about s; polygons: corner 0 on the +u axis at distance s
inline Geo flatAround(Rng& r, int k, const Frame& f, double s)
{
    Planar m; m.f = f;
    const bool disk = k == GDisk || (k == GFace && r.b(0.4));
    if (disk) { m.isDisk = true; m.a = s; m.b = s*(r.b(0.3) ? 1.0 : r.u(0.4, 1)); return gFlat(m, k); }
    m.isDisk = false; const int n = k == GQuad ? 4 : r.i(3, 7);
    for (int i = 0; i < n; ++i) { const double t = 2*M_PI*(i + (i ? r.u(-0.1, 0.1) : 0))/n; m.poly.push_back({s*std::cos(t), s*std::sin(t)}); }
    return gFlat(m, k);
}
// polygon (quad or polygon/face) with an edge from local (x0,0) to (x1,0) and the rest at y > 0
inline Geo flatOnEdge(Rng& r, int k, const Frame& f, double x0, double x1, double h)
{
    Planar m; m.f = f; m.isDisk = false; const double w = x1 - x0, c = 0.5*(x0+x1);
    if (k == GQuad || r.b()) m.poly = {{x0,0},{x1,0},{c+0.5*w*r.u(0.3,1.3),h*r.u(0.6,1)},{c-0.5*w*r.u(0.3,1.3),h*r.u(0.6,1)}};
    else if (r.b()) m.poly = {{x0,0},{x1,0},{c+w*r.u(-0.4,0.4),h}};
    else m.poly = {{x0,0},{x1,0},{x1+0.2*w,0.5*h},{c,h},{x0-0.2*w,0.5*h}};
    if (k == GPoly || k == GFace) { const int n = int(m.poly.size()), rot = r.i(n); std::rotate(m.poly.begin(), m.poly.begin() + rot, m.poly.end()); }
    else { const int rot = r.i(4); std::rotate(m.poly.begin(), m.poly.begin() + rot, m.poly.end()); }
    return gFlat(m, k);
}
// polygon with corner at the local origin, body in y > 0
inline Geo flatOnCorner(Rng& r, int k, const Frame& f, double h)
{
    Planar m; m.f = f; m.isDisk = false; const double a = r.u(0.2, 0.8)*h, b = -r.u(0.2, 0.8)*h;
    if (k == GQuad || r.b()) m.poly = {{0,0},{a,0.5*h*r.u(0.5,1.2)},{0.5*(a+b)*r.u(0,1),h*1.2},{b,0.5*h*r.u(0.5,1.2)}};
    else m.poly = {{0,0},{a,h*r.u(0.5,1)},{b,h*r.u(0.5,1)}};
    const int n = int(m.poly.size()), rot = r.i(n); std::rotate(m.poly.begin(), m.poly.begin() + rot, m.poly.end());
    return gFlat(m, k);
}
inline Frame turned(const Frame& f, V3 o, V3 u, V3 v) { Frame g; g.o = o; g.u = unit(u); g.v = unit(v - dot(v, g.u)*g.u); g.w = cross(g.u, g.v); return g; }

inline Special specialSegSeg(Rng& r, double s)
{
    const bool shortOne = r.b(0.08); const Frame f = randFrame(r, randVec(r, shortOne ? 2000*s : 3*s), 0.4); auto P = [&](double x, double y = 0, double z = 0) { return f.at(s*x, s*y, s*z); }; Special c; const bool sw = r.b(), rv = r.b();
    const double a = r.u(-1, -0.2), b = r.u(0.2, 1), ang = r.b(0.3) ? M_PI/2 : r.u(0.1, 3.0), x = std::cos(ang), y = std::sin(ang); V3 p1 = P(a), p2 = P(b), q1, q2;
    switch (shortOne ? 11 : r.i(11))
    {
        case 11: { const double u = r.u(a+0.05, b-0.15); c.name = "collinear short one far off"; q1 = P(u); q2 = P(u + r.lu(2e-3, 5e-2)); c.ex = {eS(q1, q2)}; break; }
        case 0: c.name = "crossing"; q1 = P(-x*r.u(0.2,1), 0, 0); { const double l = r.u(0.2,1), m = r.u(0.2,1); q1 = P(-l*x, -l*y); q2 = P(m*x, m*y); } c.ex = {eP(P(0))}; break;
        case 1: { c.name = "end point on inner point"; const double m = r.u(0.2,1); q1 = P(0); q2 = P(m*x, m*y); c.ex = {eP(P(0))}; break; }
        case 2: { c.name = "common end point"; const double m = r.u(0.2,1); q1 = P(b); q2 = P(b + m*x, m*y); c.ex = {eP(P(b))}; break; }
        case 3: c.name = "collinear overlap"; q1 = P(r.u(a+0.05, b-0.05)); q2 = P(b + r.u(0.1, 1)); c.ex = {eS(q1, p2)}; break;
        case 4: { const double u = r.u(a+0.05, b-0.15); c.name = "collinear contained"; q1 = P(u); q2 = P(r.u(u+0.05, b-0.05)); c.ex = {eS(q1, q2)}; break; }
        case 5: c.name = "identical"; q1 = p1; q2 = p2; c.ex = {eS(p1, p2)}; break;
        case 6: c.name = "collinear end to end"; q1 = p2; q2 = P(b + r.u(0.1, 1)); c.ex = {eP(p2)}; break;
        case 7: { const double g = r.lu(1e-3, 1); c.name = "collinear gap"; q1 = P(b + g); q2 = P(b + g + r.u(0.1, 1)); break; }
        case 8: { const double g = r.lu(1e-3, 1), d = r.u(-1,1); c.name = "parallel offset"; q1 = P(a + d, g); q2 = P(b + d*0.5, g); break; }
        case 9: { const double g = r.lu(1e-3, 1), l = r.u(0.2,1), m = r.u(0.2,1); c.name = "skew"; q1 = P(-l*x, -l*y, g); q2 = P(m*x, m*y, g); break; }
        default: c.name = "contained with common end point"; q1 = p1; q2 = P(r.u(a+0.05, b-0.05)); c.ex = {eS(q1, q2)}; break;
    }
    if (rv) std::swap(q1, q2); c.A = gSeg(p1, p2); c.B = gSeg(q1, q2); if (sw) std::swap(c.A, c.B); return c;
}
inline Special specialPlane(Rng& r, double s)
{
    const Frame f = randFrame(r, randVec(r, 3*s), 0.4); Special c; const bool line = r.b(); const V3 q = f.at(s*r.u(-1,1), s*r.u(-1,1)); c.A = gPlane(f.o, f.w);
    const double g = r.b() ? s*r.lu(1e-3, 1) : 0;
    if (line)
    {
        if (r.b(0.3)) { const double al = r.b(0.2) ? 1e-5 : r.u(0.01, 1.57); const V3 d = std::cos(al)*f.dir(0.6, 0.8) + std::sin(al)*f.w; c.amp = 1/std::sin(al); c.name = "line through plane"; c.B = gLine(q - s*d, d); c.ex = {eP(q)}; }
        else { c.B = gLine(q + g*f.w, f.dir(r.u(-1,1), 1)); c.name = g > 0 ? "line parallel to plane" : "line in plane"; if (g == 0) c.ex = {Exp{'L', {q, q + s*c.B.q, q - s*c.B.q}, 0}}; }
    }
    else if (r.b(0.3)) { const double al = r.b(0.2) ? 1e-5 : r.u(0.01, 1.57); const V3 n = std::cos(al)*f.w + std::sin(al)*f.u; c.amp = 1/std::sin(al); c.name = "planes crossing"; c.B = gPlane(q, n); c.ex = {Exp{'L', {q, q + s*f.v, q - s*f.v}, 0}}; }
    else { c.B = gPlane(q + g*f.w, r.b() ? f.w : -f.w); c.name = g > 0 ? "parallel planes" : "same plane"; if (g == 0) c.ex = {Exp{'N', {f.o, q, f.at(s, 0), f.at(0, -s)}, 0}}; }
    if (r.b()) std::swap(c.A, c.B); return c;
}
inline Special specialFlatLine(Rng& r, int k, double s)
{
    const Frame f = randFrame(r, randVec(r, 3*s), 0.4); Special c; c.A = flatAround(r, k, f, s); const Planar& m = c.A.m;
    auto tip = [&](double& x, double& y, double& tx, double& ty) {   // a point of the rim and a direction that leaves the shape on both sides
        if (m.isDisk) { const double t = r.b(0.3) ? M_PI/2*r.i(4) : r.u(0, 6.28); x = m.a*std::cos(t); y = m.b*std::sin(t); tx = -m.a*std::sin(t); ty = m.b*std::cos(t); }
        else { const int i = r.i(int(m.poly.size())); x = m.poly[i].x; y = m.poly[i].y; tx = -y; ty = x; } };
    double x, y, tx, ty; tip(x, y, tx, ty); const V3 q = f.at(x, y), d = f.dir(tx, ty);
    switch (r.i(m.isDisk ? 6 : 8))
    {
        case 0: { const double t = r.u(0, 6.28), o = s*r.u(-0.2, 0.2); const V3 p = f.at(-o*std::sin(t), o*std::cos(t)), e = f.dir(std::cos(t), std::sin(t)); auto iv = m.clip(p, e); c.name = "line in plane through the middle"; c.B = gLine(p + r.u(-3,3)*s*e, e); if (iv.size() == 1) c.ex = {eS(p + iv[0][0]*e, p + iv[0][1]*e)}; else c.any = true; break; }
        case 1: c.tang = m.isDisk; c.name = m.isDisk ? "line in plane tangent to the rim" : "line in plane through a corner only"; c.B = gLine(q, d); c.ex = {eP(q)}; break;
        case 2: { const double g = s*r.lu(1e-3, 1); c.name = "line in plane beside the rim"; c.B = gLine(q + g*unit(cross(d, f.w)), d); if (dot(q + g*unit(cross(d, f.w)) - f.o, q - f.o) < dot(q - f.o, q - f.o)) c.B = gLine(q - g*unit(cross(d, f.w)), d); break; }
        case 3: { const double g = s*r.lu(1e-3, 1); c.name = "line parallel to the plane"; c.B = gLine(f.o + g*f.w, f.dir(r.u(-1,1), 1)); break; }
        case 4: { const double rho = r.u(0, 0.25)*s; const V3 p = f.at(rho, 0); const V3 e = unit(r.u(0.05, 1)*f.w + f.dir(r.u(-1,1), r.u(-1,1))); c.name = "line through the middle"; c.B = gLine(p + r.u(-3,3)*s*e, e); c.ex = {eP(p)}; break; }
        case 5: { const V3 p = f.o + r.u(1.01, 2)*(q - f.o); const V3 e = unit(r.u(0.05, 1)*f.w + f.dir(r.u(-1,1), r.u(-1,1))); c.name = "line through the plane beside the shape"; c.B = gLine(p + r.u(-3,3)*s*e, e); break; }
        case 6: { const int n = int(m.poly.size()), i = r.i(n), j = (i+1)%n; const V3 a = m.corner(i), b = m.corner(j); c.name = "line along an edge"; c.B = gLine(a + r.u(-2,2)*(b-a), b-a); c.ex = {eS(a, b)}; break; }
        default: { const V3 e = unit(r.u(0.3, 1)*f.w + f.dir(r.u(-1,1), r.u(-1,1))); c.name = "line through a corner"; c.B = gLine(q, e); c.ex = {eP(q)}; break; }
    }
    if (r.b()) std::swap(c.A, c.B); return c;
}
inline Special specialFlatFlat(Rng& r, int ka, int kb, double s)
{
    const Frame f = randFrame(r, randVec(r, 3*s), 0.4); Special c; c.A = flatAround(r, ka, f, s); const Planar& A = c.A.m;
    const double al = r.b(0.4) ? M_PI/2 : r.u(0.2, M_PI-0.2);
    const double ph = r.u(0, 6.28), rho = 0.2*s*r.u(); const V3 p = f.at(rho*std::cos(ph), rho*std::sin(ph)); const double th = r.u(0, 6.28); const V3 d = f.dir(std::cos(th), std::sin(th)), e = cross(f.w, d), up = std::cos(al)*e + std::sin(al)*f.w;
    const Frame g = turned(f, p, d, up); const double h = s*r.u(0.3, 1.5); const bool polyB = kb == GQuad || kb == GPoly || kb == GFace;
    if (kb == GFace && r.b(0.15))
    {   // arms that touch the other geometry with their tips or pass through it
        auto x = A.clip(p, d); if (x.size() != 1) { c.any = true; return c; } const int n = r.i(2, 4); const double lo = x[0][0] + 0.1*(x[0][1]-x[0][0]), w = 0.8*(x[0][1]-x[0][0])/n; Planar m; m.f = g; m.isDisk = false; int touching = 0;
        m.poly.push_back({lo, h});
        for (int i = 0; i < n; ++i)
        {
            const bool touch = r.b(0.6); const double xt = lo + w*(i + r.u(0.3, 0.7)), y = touch ? 0 : -h*r.u(0.2, 0.5), xa = lo + w*i, xb = xa + w; m.poly.push_back({xt, y}); if (i + 1 < n) m.poly.push_back({xb, h}); touching += touch;
            if (touch) c.ex.push_back(eP(g.at(xt, 0))); else c.ex.push_back(eS(g.at(xa + (xt-xa)*h/(h-y), 0), g.at(xb + (xt-xb)*h/(h-y), 0)));
        }
        m.poly.push_back({lo + n*w, h}); m.poly.push_back({lo + n*w, 1.6*h}); m.poly.push_back({lo, 1.6*h}); const int N = int(m.poly.size()), rot = r.i(N); std::rotate(m.poly.begin(), m.poly.begin() + rot, m.poly.end());
        c.B = gFlat(m, GFace); c.name = touching == 0 ? "arms through the face" : touching == n ? "tips on the face" : "tips on and arms through the face"; if (r.b()) std::swap(c.A, c.B); return c;
    }
    switch (r.i(polyB ? 9 : 4))
    {
        case 0: { c.name = "parallel planes"; Frame q = f; q.o = f.o + s*r.lu(1e-3, 1)*f.w + rho*f.u; if (r.b()) { q.v = -q.v; q.w = -q.w; } c.B = flatAround(r, kb, q, s*r.u(0.3, 2)); break; }
        case 1: case 2:
        {   // the rim of a disk (or a corner) touches the other one
            if (polyB && kb != GFace) { c.name = "corner on the face"; c.B = flatOnCorner(r, kb, g, h); c.ex = {eP(p)}; break; }
            Planar m; m.isDisk = true; m.a = h; m.b = h*r.u(0.4, 1); const double t = r.b(0.4) ? M_PI/2*r.i(4) : r.u(0, 6.28);
            // local disk point (a cos t, b sin t) with tangent; place it at p with tangent d and centre on the upper side
            const double tx = -m.a*std::sin(t), ty = m.b*std::cos(t), l = std::hypot(tx, ty); const V3 T = d, N = up;   // inner normal of the rim = N
            // in-disk basis: tangent dir = (tx,ty)/l ; inner normal = (-ty, tx)/l (counter-clockwise curve)
            m.f.u = (tx/l)*T + (-ty/l)*N; m.f.v = (ty/l)*T + (tx/l)*N; m.f.w = cross(m.f.u, m.f.v); m.f.o = p - m.a*std::cos(t)*m.f.u - m.b*std::sin(t)*m.f.v;
            c.tang = true; c.name = "disk rim touches the face"; c.B = gFlat(m, kb); c.ex = {eP(p)}; break;
        }
        case 3:
        {   // chords on the common line: overlapping, contained, apart
            c.B = flatAround(r, kb, turned(f, p + r.u(-2.5, 2.5)*s*d, std::cos(0.3)*d + std::sin(0.3)*up, up), s*r.u(0.3, 1)); auto x = A.clip(p, d), y = c.B.m.clip(p, d); c.name = "crossing chords";
            if (x.size() != 1 || y.size() != 1) { c.any = true; break; } const double lo = std::max(x[0][0], y[0][0]), hi = std::min(x[0][1], y[0][1]);
            if (hi - lo > 1e-3*s) c.ex = {eS(p + lo*d, p + hi*d)}; else if (hi - lo > -1e-3*s) c.any = true; break;
        }
        case 4: { auto x = A.clip(p, d); const double a = x[0][0]*r.u(0.2, 0.9), b = x[0][1]*r.u(0.2, 0.9); c.name = "edge in the face"; c.B = flatOnEdge(r, kb, g, a, b, h); c.ex = {eS(p + a*d, p + b*d)}; break; }
        case 5: { auto x = A.clip(p, d); const double a = x[0][0]*r.u(0.2, 0.9), b = x[0][1]*r.u(1.1, 2); c.name = "edge partly in the face"; c.B = flatOnEdge(r, kb, g, a, b, h); c.ex = {eS(p + a*d, p + x[0][1]*d)}; break; }
        case 6:
        {   // end to end on the common line
            auto x = A.clip(p, d); const double a = x[0][1], b = a + s*r.u(0.3, 1); c.name = "chords end to end"; c.B = flatOnEdge(r, kb, g, a, b, h); c.ex = {eP(p + a*d)}; break;
        }
        case 7:
        {   // common edge, or edge covering it
            if (A.isDisk) { auto x = A.clip(p, d); c.name = "edge covers the chord"; c.B = flatOnEdge(r, kb, g, x[0][0]*1.5, x[0][1]*1.5, h); c.ex = {eS(p + x[0][0]*d, p + x[0][1]*d)}; break; }
            const int n = int(A.poly.size()), i = r.i(n); V3 a = A.corner(i), b = A.corner((i+1)%n); if (r.b()) std::swap(a, b); const double L = dist(a, b); const V3 dd = (1/L)*(b - a); const bool eq = r.b(); const double ex = eq ? 0 : L*r.u(0.1, 0.4);
            const V3 out = cross(f.w, dd); const Frame q = turned(f, a, dd, std::cos(al)*out + std::sin(al)*f.w); c.name = eq ? "common edge" : "edge on a part of an edge"; c.B = flatOnEdge(r, kb, q, ex, L - ex, h); c.ex = {eS(a + ex*dd, b - ex*dd)}; break;
        }
        default:
        {   // corner on the rim
            V3 q; if (A.isDisk) { const double t = r.u(0, 6.28); q = f.at(A.a*std::cos(t), A.b*std::sin(t)); } else { const int n = int(A.poly.size()), i = r.i(n); q = r.b() ? A.corner(i) : A.corner(i) + r.u(0.1, 0.9)*(A.corner((i+1)%n) - A.corner(i)); }
            Frame w = g; w.o = q; c.name = "corner on the rim"; c.B = flatOnCorner(r, kb, w, h); c.ex = {eP(q)}; break;
        }
    }
    if (r.b()) std::swap(c.A, c.B); return c;
}
inline Special specialCyl(Rng& r, int kc, int k, double s)
{
    Special c; Cyl y; y.f = randFrame(r, randVec(r, 3*s), 0.4); y.r = s*r.u(0.4, 1); y.h = s*r.u(0.5, 2); c.A = gCyl(y, kc); const Frame& f = y.f;
    const double t = r.b(0.3) ? r.i(4)*M_PI/2 + r.u(-0.1, 0.1) : r.u(0, 6.28), z = y.h*r.u(0.25, 0.75); const V3 er = f.dir(std::cos(t), std::sin(t)), et = f.dir(-std::sin(t), std::cos(t)), p = f.at(y.r*std::cos(t), y.r*std::sin(t), z), ax = f.at(0, 0, z);
    const bool poly = k == GQuad || k == GPoly; auto circle = [&](V3 o, char tt) { return eArc(o, f.u, f.v, y.r, y.r, 0, 2*M_PI, tt); };
    auto diskAt = [&](V3 o, V3 u, V3 v, double a, double b) { Planar m; m.isDisk = true; m.f.o = o; m.f.u = u; m.f.v = v; m.f.w = cross(u, v); m.a = a; m.b = b; return gFlat(m, k); };
    switch (r.i(15))
    {
        case 14: { const V3 o = r.b() ? f.o : f.at(0, 0, y.h); c.name = "plane of a base"; c.B = flatAround(r, k, turned(f, o + 0.2*y.r*er, er, et), y.r*r.u(4, 6)); c.ex = {circle(o, 'E')}; break; }
        case 0: { Frame g = turned(f, ax + 0.2*y.r*er, er, et); c.name = "orthogonal cut"; c.B = flatAround(r, k, g, y.r*r.u(4, 6)); c.ex = {circle(ax, 'E')}; break; }
        case 1: if (poly) { c.name = "corner from outside"; c.B = flatOnCorner(r, k, turned(f, p, std::cos(0.4)*et + std::sin(0.4)*f.w, er), s); c.ex = {eP(p)}; }
                else if (k == GFace) c.any = true; else { c.name = "orthogonal disk of the same radius"; c.B = diskAt(ax, er, et, y.r, y.r); c.ex = {circle(ax, 'E')}; } break;
        case 2: if (poly) { c.name = "corner from inside"; Frame g = turned(f, p, et, -er); c.B = flatOnCorner(r, k, g, y.r*0.5); c.ex = {eP(p)}; }
                else if (k == GFace) c.any = true; else { const double q = y.r*r.u(0.2, 0.8); c.tang = true; c.name = "disk tangent from inside"; c.B = diskAt(p - q*er, er, et, q, q); c.ex = {eP(p)}; } break;
        case 3: if (poly || k == GFace) { c.name = "edge along a ruling from outside"; const double a = z*r.u(0.2, 0.9), b = (y.h - z)*r.u(0.2, 0.9); c.B = flatOnEdge(r, k, turned(f, p, f.w, er + r.u(-0.5, 0.5)*et), -a, b, s); c.ex = {eS(p - a*f.w, p + b*f.w)}; }
                else { const double q = y.r*r.u(0.2, 2); c.tang = true; c.name = "disk tangent from outside"; c.B = diskAt(p + q*er, er, et, q, q); c.ex = {eP(p)}; } break;
        case 4: { const double sz = std::max(y.r, y.h)*r.u(6, 8); c.name = "axial plane cut"; c.B = flatAround(r, k, turned(f, ax + r.u(-0.5, 0.5)*y.r*et, f.w, er), sz); const double dd = dot(c.B.m.f.o - ax, et), h = std::sqrt(y.r*y.r - dd*dd); const V3 b = f.o + dd*et; c.ex = {eS(b + h*er, b + h*er + y.h*f.w), eS(b - h*er, b - h*er + y.h*f.w)}; break; }
        case 5: { c.name = "tangent plane"; c.B = flatAround(r, k, turned(f, p, f.w, et), std::max(y.r, y.h)*r.u(6, 8)); const V3 b = p - z*f.w; c.ex = {eS(b, b + y.h*f.w)}; break; }
        case 6: { c.name = "inside"; Frame g = randFrame(r, ax); c.B = flatAround(r, k, g, 0.9*std::min(std::min(y.r, z), y.h - z)*r.u(0.2, 1)); break; }
        case 7: { c.name = "outside"; Frame g = turned(f, p + s*r.u(1.01, 2)*er, std::cos(0.3)*et + std::sin(0.3)*f.w, er); c.B = flatAround(r, k, g, s); break; }
        case 8:
        {   // oblique full ellipse
            const double be = r.u(0.05, 0.8)*std::atan(0.5*std::min(z, y.h - z)/y.r*2); const V3 n = std::cos(be)*f.w + std::sin(be)*er; const V3 mj = std::cos(be)*er - std::sin(be)*f.w; c.name = "oblique full cut"; c.B = flatAround(r, k, turned(f, ax, mj, et), 5*y.r/std::cos(be)); (void)n; c.ex = {eArc(ax, mj, et, y.r/std::cos(be), y.r, 0, 2*M_PI, 'E')}; break;
        }
        case 9:
        {   // half plane cut off by an edge through the circle: arc
            if (!poly && k != GFace) { c.any = true; break; } const double ofs = (r.b(0.4) ? (r.b(0.7) ? 1 : -1)*std::cos(r.lu(0.01, 0.5)) : r.u(-0.7, 0.7))*y.r, h = std::sqrt(y.r*y.r - ofs*ofs), w = 4*y.r; c.name = "edge across the circle"; Frame g = turned(f, ax + ofs*er, et, er); Planar m; m.f = g; m.isDisk = false; m.poly = {{-w,0},{w,0},{w,3*y.r},{-w,3*y.r}}; if (g.w.x*0 + dot(cross(g.u, g.v), g.w) < 0) std::reverse(m.poly.begin(), m.poly.end()); c.B = gFlat(m, k);
            const double a0 = std::acos(ofs/y.r); c.ex = {eArc(ax, er, et, y.r, y.r, -a0, 2*a0)}; (void)h; break;
        }
        case 10:
        {   // wedge through the surface from outside: short arc
            if (!poly && k != GFace) { c.any = true; break; } const double w = (r.b() ? 0.3 : r.lu(0.01, 0.9))*y.r; c.name = "strip across the circle"; Frame g = turned(f, ax, et, er); Planar m; m.f = g; m.isDisk = false; m.poly = {{-w,-3*y.r},{w,-3*y.r},{w,3*y.r},{-w,3*y.r}}; c.B = gFlat(m, k); const double a0 = std::asin(w/y.r); c.ex = {eArc(ax, er, et, y.r, y.r, -a0, 2*a0), eArc(ax, er, et, y.r, y.r, M_PI-a0, 2*a0)}; break;
        }
        case 11: { c.name = "axial plane piece"; const double a = z*r.u(0.2, 0.9), b = (y.h - z)*r.u(0.2, 0.9); if (!poly && k != GFace) { c.any = true; break; } Planar m; m.isDisk = false; m.f = turned(f, p, f.w, er); m.poly = {{-a,-0.5*y.r},{b,-0.5*y.r},{b,0.5*y.r},{-a,0.5*y.r}}; c.B = gFlat(m, k); c.ex = {eS(p - a*f.w, p + b*f.w)}; break; }
        case 12: { c.name = "beyond the end"; Frame g = turned(f, f.o - s*r.lu(1e-3, 1)*f.w, er, et); c.B = flatAround(r, k, g, y.r*r.u(0.5, 4)); break; }
        default:
        {   // oblique plane leaving through the top: one arc
            const double be = std::atan((y.h - z)/(0.5*y.r)); if (z - (y.h - z)*2 < 0.02*y.h) { c.any = true; break; } const V3 mj = std::cos(be)*er + std::sin(be)*f.w; c.name = "oblique cut through the top"; c.B = flatAround(r, k, turned(f, ax, mj, et), 5*y.r/std::cos(be)); c.ex = {eArc(ax, mj, et, y.r/std::cos(be), y.r, M_PI/3, 2*M_PI - 2*M_PI/3)}; break;
        }
    }
    if (r.b()) std::swap(c.A, c.B); return c;
}
// faces sharing a plane or a cylinder surface
inline double convexOverlap(const Planar& A, const Planar& B, int N = 4000)
{   // both in the same plane: scan lines parallel to A.f.u
    double lo = 1e300, hi = -1e300; const V3 v = A.f.v; lo = std::max(-A.support(-v), -B.support(-v)); hi = std::min(A.support(v), B.support(v)); if (hi <= lo) return 0; double sum = 0;
    for (int i = 0; i < N; ++i) { const double y = lo + (hi-lo)*(i+0.5)/N; const V3 p = A.f.o + (y - dot(A.f.o, v))*v; auto a = A.clip(p, A.f.u), b = B.clip(p, A.f.u); for (auto& i1 : a) for (auto& i2 : b) sum += std::max(0.0, std::min(i1[1], i2[1]) - std::max(i1[0], i2[0])); }
    return sum*(hi-lo)/N;
}
inline Special specialCoplanar(Rng& r, int ka, int kb, double s)
{
    Special c; const Frame f = randFrame(r, randVec(r, 3*s), 0.4); c.A = flatAround(r, ka, f, s); Frame g = f; const double t = r.u(0, 6.28); if (r.b()) { g.u = f.dir(std::cos(t), std::sin(t)); g.v = cross(f.w, g.u); } if (r.b()) { g.v = -g.v; g.w = -g.w; }
    const double q = r.u(0, 6.28); Planar& A = c.A.m;
    switch (r.i(5))
    {
        case 0: { g.o = f.at(0.1*s*std::cos(q), 0.1*s*std::sin(q)); c.name = "contained"; c.B = flatAround(r, kb, g, 0.1*s); c.ex = {Exp{'F', {g.o}, c.B.m.area()}}; break; }
        case 1: { g.o = f.at(2.1*s*std::cos(q), 2.1*s*std::sin(q)); c.name = "coplanar apart"; c.B = flatAround(r, kb, g, s); break; }
        case 2: { g.o = f.at(0.6*s*std::cos(q), 0.6*s*std::sin(q)); c.name = "overlapping"; c.B = flatAround(r, kb, g, s*r.u(0.6, 1)); const double ar = convexOverlap(A, c.B.m); if (ar < 0.05*s*s) { c.any = true; break; } c.ex = {Exp{'F', {}, ar}}; break; }
        case 3: { if (A.isDisk || kb == GDisk) { c.any = true; break; } const int n = int(A.poly.size()), i = r.i(n); const V3 a = A.corner(i), b = A.corner((i+1)%n); const double L = dist(a, b); const V3 dd = (1/L)*(b - a); V3 out = cross(dd, A.f.w); if (dot(out, a - A.f.o) < 0) out = -out; const bool eq = r.b(); const double ex = eq ? 0 : L*r.u(0.1, 0.4); c.name = "coplanar common edge"; c.B = flatOnEdge(r, kb, turned(f, a, dd, out), ex, L-ex, s); c.ex = {eS(a + ex*dd, b - ex*dd)}; break; }
        default: { if (A.isDisk || kb == GDisk) { c.any = true; break; } const int n = int(A.poly.size()), i = r.i(n); const V3 a = A.corner(i); const V3 out = unit(a - A.f.o); c.name = "coplanar corner to corner"; c.B = flatOnCorner(r, kb, turned(f, a, cross(out, A.f.w), out), s); c.ex = {eP(a)}; break; }
    }
    if (r.b()) std::swap(c.A, c.B); return c;
}
inline Special specialCylCyl(Rng& r, int ka, int kb, double s)
{
    Special c; Cyl y; y.f = randFrame(r, randVec(r, 3*s), 0.4); y.r = s*r.u(0.4, 1); y.h = s*r.u(0.5, 2); c.A = gCyl(y, ka); Cyl x = y; const double t = r.b() ? 0 : r.u(0, 6.28);
    x.f.u = y.f.dir(std::cos(t), std::sin(t)); x.f.v = cross(x.f.w, x.f.u);
    switch (r.i(4))
    {
        case 0: { const double d = y.h*r.u(0.2, 0.8); x.f.o = y.f.o + d*y.f.w; c.name = "coaxial overlapping"; c.ex = {Exp{'F', {}, 2*M_PI*y.r*std::min(x.h, y.h - d)}}; break; }
        case 1: { x.f.o = y.f.o + y.h*y.f.w; x.h = s*r.u(0.5, 2); c.name = "coaxial stacked"; c.ex = {eArc(x.f.o, y.f.u, y.f.v, y.r, y.r, 0, 2*M_PI, 'E')}; break; }
        case 2: { x.r = y.r*r.u(0.3, 0.99); c.name = "coaxial different radius"; break; }
        default: { const double d = y.r*r.u(0.2, 1.8), al = std::acos(d/(2*y.r)); x.f.o = y.f.o + d*y.f.u; c.name = "parallel axes"; const V3 a = y.f.at(y.r*std::cos(al), y.r*std::sin(al)), b = y.f.at(y.r*std::cos(al), -y.r*std::sin(al)); c.ex = {eS(a, a + y.h*y.f.w), eS(b, b + y.h*y.f.w)}; break; }
    }
    c.B = gCyl(x, kb); if (r.b()) std::swap(c.A, c.B); return c;
}
inline Special randSpecial(Rng& r, int group, double s)
{
    switch (group)
    {
        case 0: return specialSegSeg(r, s);
        case 1: return specialPlane(r, s);
        case 2: return specialFlatLine(r, r.b() ? GDisk : GQuad, s);
        case 3: { static const int p[][2] = {{GDisk,GDisk},{GQuad,GQuad},{GPoly,GPoly},{GDisk,GQuad},{GQuad,GDisk},{GDisk,GPoly},{GPoly,GDisk}}; const auto& k = p[r.i(7)]; return specialFlatFlat(r, k[0], k[1], s); }
        case 4: { static const int p[] = {GDisk, GQuad, GPoly}; return specialCyl(r, GCyl, p[r.i(3)], s); }
        case 5: { static const int p[][2] = {{GDisk,GFace},{GQuad,GFace},{GPoly,GFace},{GFace,GFace},{GFace,GQuad},{GFace,GPoly},{GFace,GDisk}}; const auto& k = p[r.i(7)]; return specialFlatFlat(r, k[0], k[1], s); }
        case 6: { static const int p[] = {GDisk, GQuad, GPoly, GFace}; if (r.b(0.3)) return specialCyl(r, GCyl, GFace, s); return specialCyl(r, GFace, p[r.i(4)], s); }
        case 7: { static const int p[] = {GDisk, GQuad, GPoly, GFace}; return specialCoplanar(r, GFace, p[r.i(4)], s); }
        default: return specialCylCyl(r, r.b() ? GCyl : GFace, GFace, s);
    }
}
inline const char* specialGroup(int g) { static const char* n[] = {"segments","planes","flat-line","flat-flat","cylsurface-flat","face-flat","face-cylinder","coplanar-faces","cylinder-faces"}; return n[g]; }
} // namespace vf
#endif
