// C03: containment queries agree with the geometric definition
#include "fk.hh"
using namespace vf;

namespace {

// where geometries are placed: offset relative to their size
V3 place(Rng& r, double s)
{
    static const double f[] = {0, 1, 5, 50, 300};
    const double k = f[r.i(5)];
    return k == 0 ? V3(0,0,0) : randVec(r, k*s);
}

// tolerance given by the caller, small against the geometry
double givenEps(Rng& r, double s) { return s*std::pow(10.0, r.u(-7.5, -4)); }

template<class G, class Q>
void expect(Case& c, const G& g, V3 p, bool in, const std::string& what, Q query)
{
    const bool res = query(g, fp(p));
    c.count(in ? "queried_in" : "queried_out");
    if (res != in)
        c.fail(what + (in ? "-missed" : "-false-positive"),
               str(g.name(), " contains(", p, ") = ", res, ", expected ", in));
}

// all query variants; eps: caller's tolerance
template<bool planar, class G>
void queries(Case& c, Rng& r, const G& g, V3 p, bool in, double eps, bool inSupport, const std::string& what)
{
    expect(c, g, p, in, what + "/default", [](auto& g, auto p) { return g.contains(p); });
    expect(c, g, p, in, what + "/eps", [eps](auto& g, auto p) { return g.contains(p, eps); });
    if constexpr (planar)
    {
        expect(c, g, p, in, what + "/default+check", [](auto& g, auto p) { return g.contains(p, true); });
        expect(c, g, p, in, what + "/eps+check", [eps](auto& g, auto p) { return g.contains(p, eps, true); });
        if (inSupport)
        {
            expect(c, g, p, in, what + "/default-nocheck", [](auto& g, auto p) { return g.contains(p, false); });
            expect(c, g, p, in, what + "/eps-nocheck", [eps](auto& g, auto p) { return g.contains(p, eps, false); });
        }
    }
}

// queries on a planar shape
template<class G>
void planarCase(Case& c, Rng& r, const G& g, const Planar& m, const std::string& what)
{
    // the tolerance of disks is documented to be independent of the size
    const double s = m.size(), eps = m.isDisk ? r.lu(1e-7, 1e-4) : givenEps(r, s);
    m.describe(c.in); c.in << " eps=" << eps;
    c.nontrivial();
    const double big = 2e-3*s;     // clear in-plane margin
    for (int k = 0; k < 24; ++k)
    {
        V3 p; const int kind = r.i(6);
        if (kind == 0) p = m.randomInside(r);
        else if (kind == 1)        // close to the rim, just inside or clearly outside
        {
            const double t = r.u();
            V3 q, n;
            if (m.isDisk)
            {
                const double a = 2*M_PI*t; q = m.f.at(m.a*std::cos(a), m.b*std::sin(a));
                n = unit(m.f.dir(m.b*std::cos(a), m.a*std::sin(a)));
            }
            else
            {
                const int n1 = int(m.poly.size()), i = r.i(n1), j = (i+1)%n1;
                const double k1 = r.b(0.3) ? double(r.i(2)) : t;    // corners too
                q = (1-k1)*m.corner(i) + k1*m.corner(j);
                n = unit(cross(m.corner(j) - m.corner(i), m.f.w));
                if (m.signed2(m.f.local(q+1e-6*s*n).x, m.f.local(q+1e-6*s*n).y) < 0) n = -n;
                // at a corner: inwards along the line to the centroid
                if (k1 == 0 || k1 == 1)
                { V3 cen(0,0,0); for (int a = 0; a < n1; ++a) cen = cen + m.corner(a)/double(n1); n = unit(q - cen); }
            }
            p = r.b() ? q - 1e-9*s*n : q + r.lu(2*big, 0.5*s)*n;
        }
        else if (kind == 2) p = m.f.at(r.u(-1.5,1.5)*s, r.u(-1.5,1.5)*s);     // anywhere in the plane
        else if (kind == 3)        // off the plane by a clear margin
        {
            const double tol = std::max(eps, 2e-7*std::max(1.0, s));
            p = m.randomInside(r) + (r.b() ? 1.0 : -1.0)*r.lu(1.3*tol, std::max(2*tol, s))*m.f.w;
        }
        else if (kind == 4) p = m.isDisk ? m.f.o : m.randomInside(r);
        else p = m.f.o + randVec(r, 2*s);                                    // anywhere in space
        const V3 l = m.f.local(p);
        const double sd = m.signed2(l.x, l.y), off = std::abs(l.z), scale = s + norm(p);
        const bool onPlane = off < 1e-14*scale;
        const bool in = sd < -5e-10*s && onPlane;
        const bool out = sd > big || off > 1.25*std::max(eps, 1.5e-7*std::max(1.0, s));
        if (in == out) { c.count("ambiguous"); continue; }
        queries<true>(c, r, g, p, in, eps, onPlane, what);
    }
}

} // namespace

int main(int argc, char** argv)
{
    parse(argc, argv);
    section("disk", 2500, 60000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randDisk(r, place(r, s), s);
        planarCase(c, r, fdisk(m), m, "disk"); });
    section("triangle", 2000, 50000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randPolygon(r, place(r, s), s, 3);
        planarCase(c, r, Tri3(fp(m.corner(0)), fp(m.corner(1)), fp(m.corner(2))), m, "triangle"); });
    section("quadrilateral", 2000, 50000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randPolygon(r, place(r, s), s, 4);
        const auto q = fquad(m);
        if (!q.isConvex()) c.fail("quad-convexity", "convex quadrilateral reported as concave");
        planarCase(c, r, q, m, "quad"); });
    section("concave-quadrilateral", 1000, 20000, [](Rng& r, Case& c) {
        // reflex corner at a random position of the corner list
        const double s = randScale(r); Planar m; m.isDisk = false; m.f = randFrame(r, place(r, s));
        std::vector<Pt2> P = { {0,0}, {s, s*r.u(0.3,0.9)}, {s*r.u(0.25,0.4), s*r.u(-0.05,0.05)}, {s, -s*r.u(0.3,0.9)} };
        std::rotate(P.begin(), P.begin() + r.i(4), P.end());
        if (r.b()) std::reverse(P.begin(), P.end());
        m.poly = P;
        const auto q = fquad(m);
        if (q.isConvex()) c.fail("quad-convexity", "concave quadrilateral reported as convex");
        bool thrown = false;
        try { (void)q.contains(fp(m.corner(0))); } catch (const std::exception&) { thrown = true; }
        m.describe(c.in); c.nontrivial();
        if (thrown) { c.count("rejected"); return; }
        planarCase(c, r, q, m, "concave-quad"); });
    section("polygon", 2500, 60000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randPolygon(r, place(r, s), s, r.i(3, 9));
        if (r.b()) std::reverse(m.poly.begin(), m.poly.end());
        const auto p = fpoly(m);
        if (!p.isConvex()) { m.describe(c.in); c.fail("polygon-convexity", "convex polygon reported as non-convex"); return; }
        planarCase(c, r, p, m, "polygon"); });
    section("nonconvex-polygon", 2000, 40000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randStar(r, place(r, s), s, r.i(5, 9));
        if (r.b(0.5))   // one reflex corner at a known place of the list
        {
            const int n = r.i(4, 8); m.poly = randConvex(r, n, s);
            Pt2 cen{0,0}; for (auto& q : m.poly) { cen.x += q.x/n; cen.y += q.y/n; }
            const int i = r.i(n); auto &a = m.poly[(i+n-1)%n], &b = m.poly[(i+1)%n];
            const Pt2 mid{0.5*(a.x+b.x), 0.5*(a.y+b.y)};
            m.poly[i] = {mid.x + 0.4*(cen.x-mid.x), mid.y + 0.4*(cen.y-mid.y)};
        }
        if (r.b()) std::reverse(m.poly.begin(), m.poly.end());
        // reference convexity with a margin
        bool pos = false, neg = false, amb = false; const int n = int(m.poly.size());
        for (int i = 0; i < n; ++i)
        {
            auto &a = m.poly[(i+n-1)%n], &b = m.poly[i], &d = m.poly[(i+1)%n];
            const double cr = ((b.x-a.x)*(d.y-b.y)-(b.y-a.y)*(d.x-b.x))/(std::hypot(b.x-a.x,b.y-a.y)*std::hypot(d.x-b.x,d.y-b.y));
            if (std::abs(cr) < 1e-3) amb = true; (cr > 0 ? pos : neg) = true;
        }
        if (amb) throw Skip{"nearly straight corner"};
        m.describe(c.in); c.nontrivial();
        const auto g = fpoly(m); const bool convex = !(pos && neg);
        c.count(convex ? "convex" : "nonconvex");
        if (g.isConvex() != convex) c.fail("polygon-convexity", str("isConvex() = ", g.isConvex(), ", expected ", convex));
        if (convex) return;
        const P3 p = fp(m.f.o);
        if (!throws([&]{ (void)g.contains(p); })) c.fail("nonconvex-accepted", "contains(p) on a non-convex polygon did not throw");
        if (!throws([&]{ (void)g.contains(p, 1e-6*s); })) c.fail("nonconvex-accepted", "contains(p,eps) on a non-convex polygon did not throw");
        if (!throws([&]{ (void)g.contains(p, 1e-6*s, false); })) c.fail("nonconvex-accepted", "contains(p,eps,false) on a non-convex polygon did not throw");
    });

    // -------------------------------------------------------------- curves
    section("segment", 1500, 40000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 a = place(r, s), d = randFrame(r, a).u, b = a + s*d; const double eps = givenEps(r, s);
        const Seg3 g(fp(a), fp(b)); c.in << "segment " << a << " " << b << " eps=" << eps; c.nontrivial();
        for (int k = 0; k < 20; ++k)
        {
            double t = r.u(-1,2); if (r.b(0.3)) t = r.i(2);
            V3 p = a + t*(b-a); const int kind = r.i(3);
            if (kind == 1) p = p + r.lu(3e-7*s, s)*anyPerp(d, r.u(0, 7));
            if (kind == 2) p = a + (r.b() ? -1.0 : 1.0)*r.lu(3e-7*s, s)*d;
            if (kind == 2 && r.b()) p = b + (r.b() ? -1.0 : 1.0)*r.lu(3e-7*s, s)*d;
            const double ds = distPointSegment(p, a, b), scale = s + norm(p), dl = distPointLine(p, a, d);
            const bool in = ds < 1e-14*scale && 1e-14*scale < 1e-8*s;
            for (int v = 0; v < 2; ++v)
            {
                const double tol = v ? eps : 1e-7*s;
                const bool out = ds > 1.2*tol + 1e-13*scale;
                if (in == out) { c.count("ambiguous"); continue; }
                if (v) { expect(c, g, p, in, "segment/eps", [eps](auto& g, auto p) { return g.contains(p, eps); });
                         if (dl < 1e-14*scale) expect(c, g, p, in, "segment/eps-nocheck", [eps](auto& g, auto p) { return g.contains(p, eps, false); }); }
                else { expect(c, g, p, in, "segment/default", [](auto& g, auto p) { return g.contains(p); });
                       if (dl < 1e-14*scale) expect(c, g, p, in, "segment/default-nocheck", [](auto& g, auto p) { return g.contains(p, false); }); }
            }
        }
    });
    section("line-plane", 1500, 40000, [](Rng& r, Case& c) {
        const double s = randScale(r); const Frame f = randFrame(r, place(r, s)); const double eps = givenEps(r, s);
        const Line3 l(fp(f.o), fd(f.u)); const Plane3 g(fp(f.o), fd(f.w));
        const Plane3 g3(fp(f.o), fp(f.at(s, 0)), fp(f.at(0.3*s, 0.7*s)));
        c.in << "frame " << f.o << f.u << f.v << " eps=" << eps; c.nontrivial();
        for (int k = 0; k < 20; ++k)
        {
            const double t = r.u(-10,10)*s, q = r.b(0.5) ? 0.0 : (r.b() ? 1 : -1)*r.lu(1e-7*s, s), w = r.b(0.5) ? 0.0 : (r.b() ? 1 : -1)*r.lu(1e-7*s, s);
            const V3 p = f.at(t, q, w); const double scale = norm(p) + 10*s, tiny = 1e-14*scale;
            if (tiny > 0.1*std::min(eps, 1e-7)) continue;
            for (int v = 0; v < 2; ++v)
            {
                const double tol = v ? eps : 1e-7, dl = std::hypot(q, w), dp = std::abs(w);
                if (dl == 0 || dl > 1.2*tol) expect(c, l, p, dl == 0, v ? "line/eps" : "line/default", [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); });
                if (dp == 0 || dp > 1.2*tol) {
                    expect(c, g, p, dp == 0, v ? "plane/eps" : "plane/default", [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); });
                    expect(c, g3, p, dp == 0, v ? "plane3/eps" : "plane3/default", [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); }); }
            }
        }
    });
    section("circle-ellipse", 2000, 50000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randDisk(r, place(r, s), s); const double eps = r.lu(1e-7, 1e-4);
        Planar mc = m; mc.b = mc.a;
        const Ellipse3 e(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b); const Circle3 k(fp(m.f.o), fd(m.f.w), m.a);
        const Arc3 full(e, fp(m.f.at(m.a, 0)), fp(m.f.at(m.a, 0)));
        m.describe(c.in); c.in << " eps=" << eps; c.nontrivial();
        for (int i = 0; i < 20; ++i)
        {
            const double t = r.b(0.2) ? 0.5*M_PI*r.i(4) : r.u(0, 2*M_PI), f = r.b(0.4) ? 1.0 : 1 + (r.b() ? 1 : -1)*r.lu(2e-3, 0.9);
            double h = r.b(0.6) ? 0.0 : (r.b() ? 1 : -1)*r.lu(1e-7*s, s);
            const double scale = s + norm(m.f.o);
            for (int v = 0; v < 2; ++v)
            {
                const double tol = std::max(v ? eps : 1e-7, 1e-7*s);
                const bool in = f == 1.0 && h == 0.0, out = f != 1.0 || std::abs(h) > 1.2*tol;
                if (in == out) continue;
                if (!v && f == 1.0 && 1e-14*scale > 1e-8) continue;
                const V3 p = m.f.at(f*m.a*std::cos(t), f*m.b*std::sin(t), h), q = m.f.at(f*m.a*std::cos(t), f*m.a*std::sin(t), h);
                const auto qu = [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); };
                expect(c, e, p, in, v ? "ellipse/eps" : "ellipse/default", qu);
                if (h == 0.0) expect(c, e, p, in, "ellipse/nocheck", [&](auto& g, auto p) { return v ? g.contains(p, eps, false) : g.contains(p, false); });
                if (v) { const double ce = eps*m.a; if (std::abs(h) > 1.2*ce || h == 0.0) expect(c, k, q, in, "circle/eps", [&](auto& g, auto p) { return g.contains(p, ce); }); }
                else expect(c, k, q, in, "circle/default", qu);
            }
        }
    });
    section("ellipsearc", 2500, 60000, [](Rng& r, Case& c) {
        const double s = randScale(r); auto m = randDisk(r, place(r, s), s); const double eps = r.lu(1e-7, 1e-5);
        const Ellipse3 e(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b);
        auto at = [&](double t) { return m.f.at(m.a*std::cos(t), m.b*std::sin(t)); };
        double t0 = r.b(0.25) ? 0.5*M_PI*r.i(4) : r.u(0, 2*M_PI), d = r.b(0.2) ? 2*M_PI : r.b(0.2) ? 0.5*M_PI*r.i(1,3) : r.u(0.05, 2*M_PI-0.05);
        const bool full = d == 2*M_PI;
        const V3 s0 = at(t0), s1 = full ? s0 : at(t0 + d);
        const Arc3 g(e, fp(s0), fp(s1));
        m.describe(c.in); c.in << " t0=" << t0 << " delta=" << d; c.nontrivial(full ? "full" : t0+d > 2*M_PI ? "wrap" : "plain"); c.sig += std::to_string(c.idx);
        c.count(full ? "full" : t0 + d > 2*M_PI ? "wrapping" : "plain");
        if (g.isFullEllipse() != full) c.fail("full-flag", str("isFullEllipse() = ", g.isFullEllipse()));
        for (int i = 0; i < 20; ++i)
        {
            double u = r.b(0.7) ? r.u() : (r.b() ? 1e-4 : 1-1e-4);    // fraction of a turn from the source
            const double dt = u*2*M_PI; const V3 p = at(t0 + dt);
            if (std::abs(dt - d) < 1e-3 && !full) continue;
            if (!full && (dt < 1e-5 || dt > 2*M_PI-1e-5)) continue;
            const bool in = full || dt < d;
            const double scale = 1e-14*(s + norm(m.f.o));
            if (scale > 1e-9 || scale > 1e-9*m.b) continue;
            expect(c, g, p, in, "arc/eps", [&](auto& g, auto p) { return g.contains(p, eps); });
            expect(c, g, p, in, "arc/nocheck", [&](auto& g, auto p) { return g.contains(p, eps, false); });
            // not on the ellipse
            const double f = 1 + (r.b() ? 1 : -1)*r.u(0.01, 0.5);
            const V3 q = m.f.at(f*m.a*std::cos(t0+dt), f*m.b*std::sin(t0+dt));
            expect(c, g, q, false, "arc/off", [&](auto& g, auto p) { return g.contains(p, eps); });
            // within a coarse tolerance, but off by more than the default one
            const double f2 = 1 + (r.b() ? 1 : -1)*r.lu(1e-6, 1e-5);
            const V3 q2 = m.f.at(f2*m.a*std::cos(t0+dt), f2*m.b*std::sin(t0+dt));
            if (full || (dt > 5e-4 && dt < 2*M_PI-5e-4)) expect(c, g, q2, in, "arc/coarse", [&](auto& g, auto p) { return g.contains(p, 1e-4); });
        }
        for (V3 p : {s0, s1})
            if (1e-14*(s + norm(m.f.o)) < 1e-9*m.b)
                expect(c, g, p, true, "arc/end", [&](auto& g, auto p) { return g.contains(p, 1e-6); });
    });

    // -------------------------------------------------------------- solids
    section("cylinder", 2000, 50000, [](Rng& r, Case& c) {
        const double s = randScale(r); const Cyl m = randCyl(r, place(r, s), s); const double eps = givenEps(r, m.r);
        const FCyl g = fcyl(m); const auto surf = g.lateralFace(); const FCylSurf surf2(Circle3(fp(m.f.o), fd(m.f.w), m.r), m.h);
        m.describe(c.in); c.in << " eps=" << eps; c.nontrivial();
        for (int k = 0; k < 24; ++k)
        {
            const double phi = r.u(0, 7); double z = r.u(-0.5,1.5)*m.h, rho = r.u(0,1.7)*m.r; const int kind = r.i(6);
            if (kind == 0) rho = m.r - 1e-9*s;
            if (kind == 1) rho = m.r*(1 + r.lu(1e-3, 1));
            if (kind == 2) z = 1e-9*s;
            if (kind == 3) z = m.h - 1e-9*s;
            if (kind == 4) z = (r.b() ? 0 : m.h) + (r.b() ? 1 : -1)*r.lu(1e-3, 0.5)*m.h;
            if (r.b(0.4)) z = r.u(0.01, 0.99)*m.h;
            if (r.b(0.2)) rho = m.r;
            if (rho < 0) continue;
            const V3 p = m.f.o + z*m.f.w + rho*(std::cos(phi)*m.f.u + std::sin(phi)*m.f.v);
            const double sd = m.signedSolid(p), dl = m.distLateral(p), tiny = 1e-14*(s + norm(p));
            for (int v = 0; v < 2; ++v)
            {
                const double tol = v ? eps : 0.5e-7*(m.r+m.h);
                const auto qu = [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); };
                if (sd < -5e-10*s || sd > 1.5*tol + 1e-4*m.r) expect(c, g, p, sd < 0, v ? "cylinder/eps" : "cylinder/default", qu);
                // surface
                if (tiny < 0.05*tol && (dl > 1.6*tol || (dl < 1e-14*(s+norm(p)) && z > 1e-10*s && z < m.h-1e-10*s)))
                {
                    const bool in = dl <= 1.6*tol;
                    expect(c, surf, p, in, v ? "cylsurface/eps" : "cylsurface/default", qu);
                    expect(c, surf2, p, in, v ? "cylsurface2/eps" : "cylsurface2/default", qu);
                }
            }
        }
    });
    section("hollowcylinder", 1500, 40000, [](Rng& r, Case& c) {
        const double s = randScale(r); const Cyl m = randCyl(r, place(r, s), s); const double ri = m.r*r.u(0.1,0.9), eps = givenEps(r, ri);
        const FHollow g(fp(m.f.o), fd(m.f.w), ri, m.r, m.h); const auto fc = g.fullCylinder();
        m.describe(c.in); c.in << " ri=" << ri << " eps=" << eps; c.nontrivial();
        for (int k = 0; k < 24; ++k)
        {
            const double phi = r.u(0, 7); double z = r.u(-0.5,1.5)*m.h, rho = r.u(0,1.7)*m.r; const int kind = r.i(7);
            if (kind == 0) rho = m.r - 1e-9*s;
            if (kind == 1) rho = ri + 1e-9*s;
            if (kind == 2) rho = ri*(1 - r.lu(1e-3, 1));
            if (kind == 3) rho = m.r*(1 + r.lu(1e-3, 1));
            if (kind == 4) z = r.b() ? 1e-9*s : m.h - 1e-9*s;
            if (r.b(0.5)) z = r.u(0.01, 0.99)*m.h;
            const V3 p = m.f.o + z*m.f.w + rho*(std::cos(phi)*m.f.u + std::sin(phi)*m.f.v);
            const double sd = std::max(std::max(-z, z-m.h), std::max(rho-m.r, ri-rho));
            for (int v = 0; v < 2; ++v)
            {
                const double tol = v ? eps : 0.5e-7*(m.r+m.h);
                const auto qu = [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); };
                if (sd < -5e-10*s || sd > 1.5*tol + 1e-4*ri) expect(c, g, p, sd < 0, v ? "hollow/eps" : "hollow/default", qu);
                const double sf = m.signedSolid(p);
                if (sf < -5e-10*s || sf > 1.5*tol + 1e-4*ri) expect(c, fc, p, sf < 0, "hollow/full", qu);
            }
        }
    });
    section("box-sphere", 2000, 50000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s), e(s*r.u(0.1,1), s*r.u(0.1,1), s*r.u(0.1,1)); const double eps = givenEps(r, 0.1*s);
        const FBox g(o.x, o.y, o.z, o.x+e.x, o.y+e.y, o.z+e.z); const FSphere k(fp(o), e.x);
        c.in << "box " << o << " + " << e << " sphere radius " << e.x << " eps=" << eps; c.nontrivial();
        for (int i = 0; i < 24; ++i)
        {
            V3 l; double* q[3] = {&l.x, &l.y, &l.z}; 
            for (int d = 0; d < 3; ++d) { const double w = e[d]; *q[d] = r.b(0.75) ? r.u(0.01,0.99)*w : r.b() ? (r.b() ? 1e-9*s : w-1e-9*s) : (r.b() ? -r.lu(1e-6,1)*s : w+r.lu(1e-6,1)*s); }
            double sd = -1e300; for (int d = 0; d < 3; ++d) sd = std::max(sd, std::max(-l[d], l[d]-e[d]));
            const V3 p = o + l; const double tiny = 1e-13*(s + norm(p));
            const V3 dir = randUnit(r); const double rho = e.x*(r.b(0.3) ? 1-1e-9 : r.b() ? r.u() : 1 + r.lu(1e-3,1)); const V3 ps = o + rho*dir;
            for (int v = 0; v < 2; ++v)
            {
                const double tol = v ? eps : 1e-7*norm(e);
                const auto qu = [&](auto& g, auto p) { return v ? g.contains(p, eps) : g.contains(p); };
                if (sd < -tiny || sd > 1.3*tol + tiny) expect(c, g, p, sd < 0, v ? "box/eps" : "box/default", qu);
                if (rho < e.x - 5e-10*e.x || rho > e.x*(1+5e-4)) expect(c, k, ps, rho < e.x, v ? "sphere/eps" : "sphere/default", qu);
            }
        }
    });
    for (auto n : {"disk", "triangle", "quadrilateral", "polygon", "segment", "line-plane", "circle-ellipse", "ellipsearc", "cylinder", "hollowcylinder", "box-sphere"})
    { require(std::string(n) + ":queried_in", 500); require(std::string(n) + ":queried_out", 500); }
    require("nonconvex-polygon:nonconvex", 500);
    return finish();
}
