// C23: parametrised curves and surfaces
#include "fk.hh"
#include <frackit/occ/geomutilities.hh>
using namespace vf;
namespace {
V3 place(Rng& r, double s) { static const double f[] = {0, 1, 5, 50}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*s); }
void near(Case& c, const char* kind, V3 v, V3 want, double tol)
{ c.count("judged"); if (!(dist(v, want) <= tol)) c.fail(kind, str("got ", v, ", expected ", want, ", distance ", dist(v, want), " > ", tol)); }
void yes(Case& c, const char* kind, bool b, const std::string& d = "") { c.count("judged"); if (!b) c.fail(kind, d); }
double mod(double t) { t = std::fmod(t, 2*M_PI); return t < 0 ? t + 2*M_PI : t; }
double angDiff(double a, double b) { const double d = mod(a - b); return std::min(d, 2*M_PI - d); }
double someAngle(Rng& r)
{   // anywhere, on an axis, or close to one
    const int k = r.i(4); if (k == 0) return 0.5*M_PI*r.i(4); if (k == 1) return mod(0.5*M_PI*r.i(4) + (r.b() ? 1 : -1)*r.lu(1e-6, 1e-2)); return r.u(0, 2*M_PI);
}
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("segment", 5000, 100000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 a = place(r, s), b = a + s*randUnit(r); const Seg3 g(fp(a), fp(b)); c.in << a << b; c.nontrivial(); const double e = 1e-14*(s + norm(a));
        near(c, "source", rp(g.getPoint(0.0)), a, e); near(c, "target", rp(g.getPoint(1.0)), b, e); near(c, "center", rp(g.center()), 0.5*(a+b), e);
        for (int k = 0; k < 5; ++k) { const double t = r.u(); near(c, "point", rp(g.getPoint(t)), a + t*(b-a), e); }
        const Seg3 h = g.getReversed(); near(c, "reversed", rp(h.source()), b, 0); near(c, "reversed", rp(h.target()), a, 0); near(c, "direction", rd(g.direction()), unit(b-a), e/s*4);
        yes(c, "length", std::abs(g.length() - dist(a,b)) <= e && std::abs(g.squaredLength() - s*s) <= 4*e*s);
        const auto l = g.supportingLine(); yes(c, "line", distPointLine(a, rp(l.supportingPoint()), rd(l.direction())) <= e && distPointLine(b, rp(l.supportingPoint()), rd(l.direction())) <= 4*e);
    });
    section("ellipse", 8000, 150000, [](Rng& r, Case& c) {
        const double s = randScale(r); const auto m = randDisk(r, place(r, s), s); m.describe(c.in); c.nontrivial(); const double e = 4e-14*(s + norm(m.f.o));
        const Ellipse3 g(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b); const Circle3 k(fp(m.f.o), fd(m.f.w), m.a); const FDisk d = fdisk(m);
        auto at = [&](double t) { return m.f.at(m.a*std::cos(t), m.b*std::sin(t)); };
        const V3 k1 = rd(k.base1()), k2 = rd(k.base2()); yes(c, "circle-basis", std::abs(dot(k1,k2)) < 1e-13 && norm(cross(k1,k2) - m.f.w) < 1e-12, "basis of the circle is not right-handed around its normal");
        const double tolA = 2.5e-7 + e/m.b;
        for (int i = 0; i < 8; ++i)
        {
            const double t = someAngle(r), p = t/(2*M_PI); c.in << " t=" << t;
            near(c, "ellipse-angle-point", rp(g.getPointFromAngle(t)), at(t), e); near(c, "ellipse-param-point", rp(g.getPoint(p)), at(t), e);
            near(c, "ellipse-second-turn", rp(g.getPointFromAngle(t + 2*M_PI)), at(t), e);
            near(c, "circle-angle-point", rp(k.getPointFromAngle(t)), m.f.o + m.a*(std::cos(t)*k1 + std::sin(t)*k2), e); near(c, "circle-param-point", rp(k.getPoint(p)), m.f.o + m.a*(std::cos(t)*k1 + std::sin(t)*k2), e);
            if (e < 1e-9 && e < 1e-9*m.b)
            {
                const double a1 = g.getAngle(fp(at(t))), a2 = g.getAngle(fp(at(t)), false), p1 = g.getParam(fp(at(t))), p2 = g.getParam(fp(at(t)), false);
                for (double a : {a1, a2, 2*M_PI*p1, 2*M_PI*p2}) { yes(c, "angle-range", a >= 0 && a <= 2*M_PI, str("angle ", a)); yes(c, "angle-of-point", angDiff(a, t) < tolA, str("angle ", a, ", expected ", t)); }
                // not on the ellipse
                const V3 q = m.f.at(1.01*m.a*std::cos(t), 1.01*m.b*std::sin(t)); yes(c, "off-rejected", throws([&]{ (void)g.getAngle(fp(q)); }), "angle of a point off the ellipse was not rejected");
                yes(c, "angle-nocheck", angDiff(g.getAngle(fp(q), false), t) < tolA);
            }
            const double rho = r.b(0.3) ? double(r.i(2)) : r.u();
            near(c, "disk-point", rp(d.getPoint(p, rho)), m.f.at(rho*m.a*std::cos(t), rho*m.b*std::sin(t)), e);
        }
        const auto be = d.boundingEllipse(); near(c, "bounding-ellipse", rp(be.getPointFromAngle(1.0)), at(1.0), e);
        near(c, "param-end", rp(g.getPoint(1.0)), at(0), e);
    });
    section("arc", 12000, 250000, [](Rng& r, Case& c) {
        const double s = randScale(r); const auto m = randDisk(r, place(r, s), s); const double e = 1e-13*(s + norm(m.f.o));
        if (e > 1e-10*m.b || e > 1e-10) throw Skip{"offset"};
        const Ellipse3 el(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b); auto at = [&](double t) { return m.f.at(m.a*std::cos(t), m.b*std::sin(t)); };
        const double t0 = someAngle(r); double d = r.b(0.25) ? 2*M_PI : r.b(0.3) ? 0.5*M_PI*r.i(1,3) : r.u(0.02, 2*M_PI-0.02); const bool full = d == 2*M_PI;
        m.describe(c.in); c.in << " t0=" << t0 << " d=" << d; c.nontrivial(full ? "full" : t0 + d >= 2*M_PI ? "wrap" : "plain"); c.sig += std::to_string(c.idx); c.count(full ? "full" : t0 + d > 2*M_PI ? "wrap" : "plain");
        const V3 S = at(t0), T = full ? S : at(t0+d); const Arc3 g(el, fp(S), fp(T)); const double tol = 1e-6*m.a;
        yes(c, "full-flag", g.isFullEllipse() == full); near(c, "source", rp(g.source()), S, 0); near(c, "target", rp(g.target()), T, 0);
        yes(c, "source-angle", angDiff(g.sourceAngleOnEllipse(), t0) < 3e-7); yes(c, "target-angle", angDiff(g.targetAngleOnEllipse(), t0+d) < 3e-7);
        near(c, "point0", rp(g.getPoint(0.0)), S, tol); near(c, "point1", rp(g.getPoint(1.0)), T, tol);
        double last = -1e-6;
        std::vector<double> ps; for (int i = 0; i < 8; ++i) ps.push_back(r.u(0.001, 0.999)); std::sort(ps.begin(), ps.end());
        for (double p : ps)
        {
            const V3 q = rp(g.getPoint(p)); near(c, "point", q, at(t0 + p*d), 3*tol);
            const V3 l = m.f.local(q); const double t = mod(std::atan2(l.y/m.b, l.x/m.a) - t0); yes(c, "monotone", t >= last - 1e-6 && t <= d + 1e-6, str("parameter ", p, " is at ", t, " after ", last)); last = t;
            yes(c, "point-contained", g.contains(fp(q), 1e-6), str("getPoint(", p, ") is not contained in the arc"));
        }
        // membership over the whole ellipse
        for (int i = 0; i < 6; ++i) { const double u = r.u(0.0005, 2*M_PI-0.0005); if (std::abs(u - d) < 5e-4) continue; yes(c, "contains", g.contains(fp(at(t0+u)), 1e-7) == (u < d || full), str("point at ", u, " after the source")); }
        // curve handle of the boundary representation
        const auto h = F::OCCUtilities::getGeomHandle(g); const double u0 = h->FirstParameter(), u1 = h->LastParameter();
        const auto pnt = [&](double u) { const gp_Pnt p = h->Value(u); return V3(p.X(), p.Y(), p.Z()); };
        near(c, "curve-first", pnt(u0), S, tol); near(c, "curve-last", pnt(u1), T, tol); near(c, "curve-mid", pnt(0.5*(u0+u1)), at(t0+0.5*d), tol); near(c, "curve-quarter", pnt(0.75*u0+0.25*u1), at(t0+0.25*d), tol);
        const auto he = F::OCCUtilities::getGeomHandle(static_cast<const Ellipse3&>(el)); const gp_Pnt pe = he->Value(t0); near(c, "ellipse-curve", V3(pe.X(), pe.Y(), pe.Z()), S, tol);
    });
    section("cylinder", 4000, 80000, [](Rng& r, Case& c) {
        const double s = randScale(r); const Cyl m = randCyl(r, place(r, s), s); m.describe(c.in); c.nontrivial(); const double e = 1e-13*(s + norm(m.f.o));
        const FCyl g = fcyl(m); const auto sf = g.lateralFace(); const V3 top = m.f.o + m.h*m.f.w;
        near(c, "bottom-center", rp(g.bottomFace().center()), m.f.o, e); near(c, "top-center", rp(g.topFace().center()), top, e); near(c, "center-source", rp(g.centerSegment().source()), m.f.o, e); near(c, "center-target", rp(g.centerSegment().target()), top, e);
        near(c, "surf-source", rp(sf.centerSegment().source()), m.f.o, e); near(c, "surf-target", rp(sf.centerSegment().target()), top, e); near(c, "upper-circle", rp(sf.upperBoundingCircle().center()), top, e); near(c, "lower-circle", rp(sf.lowerBoundingCircle().center()), m.f.o, e);
        for (auto b : {V3(rd(g.base1())), V3(rd(g.base2()))}) yes(c, "base", std::abs(dot(b, m.f.w)) < 1e-12 && std::abs(norm(b) - 1) < 1e-12);
        near(c, "axis", rd(g.direction()), m.f.w, 1e-12); near(c, "axis3", rd(g.base3()), m.f.w, 1e-12); near(c, "surf-axis", rd(sf.direction()), m.f.w, 1e-12); yes(c, "right-handed", dot(cross(rd(g.base1()), rd(g.base2())), rd(g.base3())) > 0.999999); yes(c, "surf-right-handed", dot(cross(rd(sf.base1()), rd(sf.base2())), rd(sf.base3())) > 0.999999);
        yes(c, "dims", std::abs(g.radius()-m.r) < e && g.height() == m.h && std::abs(sf.radius()-m.r) < e && sf.height() == m.h);
        const auto cy = sf.cylinder(); near(c, "cyl-of-surf", rp(cy.topFace().center()), top, e); yes(c, "cyl-of-surf-dims", std::abs(cy.radius()-m.r) < e && cy.height() == m.h);
        const double phi = r.u(0, 7), z = r.u(0.05, 0.95)*m.h; const V3 rad = std::cos(phi)*m.f.u + std::sin(phi)*m.f.v, p = m.f.o + z*m.f.w + m.r*rad;
        if (e < 1e-9*m.r) { const auto tp = sf.getTangentPlane(fp(p)); yes(c, "tangent-plane", std::abs(std::abs(dot(rd(tp.normal()), rad)) - 1) < 1e-9, "normal of the tangent plane is not radial"); near(c, "tangent-point", rp(tp.supportingPoint()), p, 1e-7*s); }
        const FHollow h(fp(m.f.o), fd(m.f.w), 0.5*m.r, m.r, m.h); near(c, "hollow-top", rp(h.topInnerCircle().center()), top, e); near(c, "hollow-top-outer", rp(h.topOuterCircle().center()), top, e); near(c, "hollow-bottom", rp(h.bottomOuterCircle().center()), m.f.o, e);
        yes(c, "hollow-radii", std::abs(h.topInnerCircle().radius() - 0.5*m.r) < e && std::abs(h.topOuterCircle().radius() - m.r) < e && std::abs(h.innerLateralFace().radius() - 0.5*m.r) < e && std::abs(h.outerLateralFace().radius() - m.r) < e && std::abs(h.bottomInnerCircle().radius() - 0.5*m.r) < e && std::abs(h.bottomOuterCircle().radius() - m.r) < e);
        near(c, "hollow-lateral-top", rp(h.innerLateralFace().upperBoundingCircle().center()), top, e); near(c, "hollow-outer-top", rp(h.outerLateralFace().upperBoundingCircle().center()), top, e); near(c, "hollow-seg", rp(h.centerSegment().target()), top, e); near(c, "hollow-full", rp(h.fullCylinder().topFace().center()), top, e);
    });
    section("box-faces", 2000, 40000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s), d(s*r.u(0.1,1), s*r.u(0.1,1), s*r.u(0.1,1)); const FBox b(o.x, o.y, o.z, o.x+d.x, o.y+d.y, o.z+d.z); c.in << o << d; c.nontrivial(); const double e = 1e-13*(s+norm(o));
        std::set<std::string> seen; std::set<std::array<int,3>> corners;
        auto key = [&](V3 p) { return std::array<int,3>{int(std::lround((p.x-o.x)/d.x)), int(std::lround((p.y-o.y)/d.y)), int(std::lround((p.z-o.z)/d.z))}; };
        for (int i = 0; i < 8; ++i) { const V3 p = rp(b.corner(i)); auto k = key(p); near(c, "corner", p, V3(o.x+k[0]*d.x, o.y+k[1]*d.y, o.z+k[2]*d.z), e); corners.insert(k); }
        yes(c, "corners", corners.size() == 8, "corners of a box are not the eight distinct ones");
        std::set<std::set<std::array<int,3>>> edges, faces;
        for (int i = 0; i < 12; ++i) { const auto g = b.edge(i); auto k1 = key(rp(g.source())), k2 = key(rp(g.target())); int df = 0; for (int j = 0; j < 3; ++j) df += std::abs(k1[j]-k2[j]); yes(c, "edge", df == 1, str("edge ", i, " does not connect neighbours")); edges.insert({k1, k2}); }
        yes(c, "edges", edges.size() == 12);
        double area = 0;
        for (int i = 0; i < 6; ++i) { const auto q = b.face(i); std::set<std::array<int,3>> k; for (int j = 0; j < 4; ++j) k.insert(key(rp(q.corner(j)))); faces.insert(k); area += q.area();
            for (int j = 0; j < 4; ++j) { const auto g = q.edge(j); auto k1 = key(rp(g.source())), k2 = key(rp(g.target())); int df = 0; for (int n = 0; n < 3; ++n) df += std::abs(k1[n]-k2[n]); yes(c, "face-edge", df == 1, str("edge ", j, " of face ", i)); } }
        yes(c, "faces", faces.size() == 6); yes(c, "face-area", std::abs(area - 2*(d.x*d.y+d.y*d.z+d.x*d.z)) < 1e-9*s*s*(1+norm(o)/s)); near(c, "box-center", rp(b.center()), o + 0.5*d, e);
    });
    section("polygon-edges", 3000, 60000, [](Rng& r, Case& c) {
        const double s = randScale(r); const auto m = randPolygon(r, place(r, s), s, r.i(3,8)); m.describe(c.in); c.nontrivial(); const auto g = fpoly(m); const int n = int(m.poly.size()); const double e = 1e-12*(s + norm(m.f.o));
        yes(c, "count", int(g.numCorners()) == n && int(g.numEdges()) == n);
        for (int i = 0; i < n; ++i) { near(c, "edge-source", rp(g.edge(i).source()), m.corner(i), 0); near(c, "edge-target", rp(g.edge(i).target()), m.corner((i+1)%n), 0); }
        double A = 0, cx = 0, cy = 0; for (int i = 0, j = n-1; i < n; j = i++) { const double w = m.poly[j].x*m.poly[i].y - m.poly[i].x*m.poly[j].y; A += w; cx += w*(m.poly[j].x+m.poly[i].x); cy += w*(m.poly[j].y+m.poly[i].y); }
        near(c, "centroid", rp(g.center()), m.f.at(cx/(3*A), cy/(3*A)), 10*e); yes(c, "plane", std::abs(std::abs(dot(rd(g.supportingPlane().normal()), m.f.w)) - 1) < 1e-10*(1+norm(m.f.o)/s));
        if (n == 4) { const auto q = fquad(m); near(c, "quad-centroid", rp(q.center()), m.f.at(cx/(3*A), cy/(3*A)), 10*e); std::multiset<std::string> k1, k2; for (int i = 0; i < 4; ++i) { V3 x = rp(q.edge(i).source()), y = rp(q.edge(i).target()); double best = 1e300; for (int j = 0; j < 4; ++j) best = std::min(best, std::min(dist(x,m.corner(j))+dist(y,m.corner((j+1)%4)), dist(y,m.corner(j))+dist(x,m.corner((j+1)%4)))); yes(c, "quad-edge", best <= e, str("edge ", i, " of the quadrilateral is no side of it")); } }
        if (n == 3) { const Tri3 t(fp(m.corner(0)), fp(m.corner(1)), fp(m.corner(2))); near(c, "tri-centroid", rp(t.center()), m.f.at(cx/(3*A), cy/(3*A)), 10*e); for (int i = 0; i < 3; ++i) { near(c, "tri-edge", rp(t.edge(i).source()), m.corner(i), 0); near(c, "tri-edge", rp(t.edge(i).target()), m.corner((i+1)%3), 0); } }
    });
    for (auto n : {"segment", "ellipse", "arc", "cylinder", "box-faces", "polygon-edges"}) require(std::string(n) + ":judged", 10000);
    require("arc:full", 500); require("arc:wrap", 500); require("arc:plain", 500);
    return finish();
}
