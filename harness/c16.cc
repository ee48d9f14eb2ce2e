// C16: distance to the boundary, on-geometry and on-boundary tests
#include "objs.hh"
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/distance/pointonboundary.hh>
using namespace vf;
namespace {
V3 place(Rng& r, double s) { static const double f[] = {0, 1, 5, 50}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*s); }
// rim as curves
std::vector<Obj> rimCurves(const Obj& o)
{
    std::vector<Obj> v;
    if (o.k == KDisk) { Obj e = o; e.k = KEllipse; v.push_back(e); }
    else if (o.k == KLateral) for (int i = 0; i < 2; ++i) { Obj e; e.k = KCircle; e.m.f = o.d.cyl.f; e.m.f.o = o.d.cyl.f.at(0, 0, i*o.d.cyl.h); e.m.a = e.m.b = o.d.cyl.r; v.push_back(e); }
    else { const int n = int(o.m.poly.size()); for (int i = 0; i < n; ++i) { Obj e; e.k = KSegment; e.p = o.m.corner(i); e.q = o.m.corner((i+1)%n); v.push_back(e); } }
    return v;
}
Interval rimBounds(const Obj& a, const Obj& o, double tol)
{
    if (a.k == KPoint) { const double v = o.rim(a.p); return {v, v}; }
    Interval w{1e300, 1e300}; for (auto& e : rimCurves(o)) { Interval v = curveMin(e, [&](V3 x) { return a.dist(x); }, tol, 20000); w[0] = std::min(w[0], v[0]); w[1] = std::min(w[1], v[1]); } return w;
}
// the target as class or as face
double toBoundary(const Obj& a, const Obj& o, bool aShape, bool oShape)
{
    if (aShape)
    {
        const TopoDS_Shape s = a.shape();
        if (oShape) return F::computeDistanceToBoundary(s, TopoDS::Face(o.shape()));
        if (o.k == KDisk) return F::computeDistanceToBoundary(s, fdisk(o.m)); if (o.k == KQuad) return F::computeDistanceToBoundary(s, fquad(o.m)); return F::computeDistanceToBoundary(s, fpoly(o.m));
    }
    if (oShape) { const TopoDS_Face f = TopoDS::Face(o.shape()); return a.visit([&](const auto& g) -> double { return F::computeDistanceToBoundary(g, f); }); }
    if (o.k == KDisk) { const auto d = fdisk(o.m); return a.visit([&](const auto& g) -> double { return F::computeDistanceToBoundary(g, d); }); }
    if (o.k == KLateral) { const auto d = fcyl(o.d.cyl).lateralFace(); return a.visit([&](const auto& g) -> double { return F::computeDistanceToBoundary(g, d); }); }
    if (o.k == KQuad) return F::computeDistanceToBoundary(fp(a.p), fquad(o.m)); return F::computeDistanceToBoundary(fp(a.p), fpoly(o.m));
}
void within(Case& c, const std::string& kind, double v, Interval w, double tol)
{ c.count("judged"); if (!(v >= w[0]-tol && v <= w[1]+tol)) c.fail(kind, str("distance to boundary ", v, ", true value in [", w[0], ", ", w[1], "]")); }
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("point-to-boundary", 6000, 150000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const int k = r.pick(std::vector<int>{KDisk, KQuad, KPolygon, KStar, KLateral}); const Obj b = randObj(r, k, o, s); Obj a; a.p = r.b(0.6) ? b.rnd(r) : o + randVec(r, 2*s); const bool as = r.b(0.3), os = r.b(0.3);
        if (k == KLateral && os) throw Skip{"seam"};   // the outer wire of a cylindrical face includes its seam
        a.describe(c.in); b.describe(c.in); c.in << "shapes " << as << os; c.nontrivial(); c.count(kindName(k)); const double w = b.rim(a.p);
        if (as && k == KLateral) throw Skip{"no overload"}; within(c, std::string("point-") + kindName(k) + (os ? "-face" : ""), toBoundary(a, b, as, os), {w, w}, 1e-9*s + 1e-12*norm(o) + 2e-8);
    });
    section("point-to-solid-boundary", 3000, 80000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const int k = KBox + r.i(3); const Obj b = randObj(r, k, o, s); Obj a; a.p = r.b(0.6) ? b.rnd(r) : o + randVec(r, 2*s); a.describe(c.in); b.describe(c.in); c.nontrivial(); const double w = std::abs(b.d.signedDist(a.p)), t = 1e-9*s + 1e-12*norm(o) + 2e-8;
        if (k == KBox && r.b()) within(c, "point-box", F::computeDistanceToBoundary(fp(a.p), FBox(b.d.lo.x, b.d.lo.y, b.d.lo.z, b.d.hi.x, b.d.hi.y, b.d.hi.z)), {w, w}, t); else within(c, std::string("point-") + kindName(k) + "-solid", F::computeDistanceToBoundary(fp(a.p), TopoDS::Solid(b.shape())), {w, w}, t);
    });
    // segments and flat shapes to straight rims are exact, curves to curved rims only almost always (see C15)
    section("geometry-to-boundary", 1500, 40000, [](Rng& r, Case& c) {
        const int k = r.pick(std::vector<int>{KDisk, KQuad, KPolygon, KStar, KLateral}), ka = r.pick(std::vector<int>{KSegment, KSegment, KSegment, KEllipse, KArc, KDisk, KQuad, KPolygon, KBox}); const double s = r.u(0.5, 15); const V3 o = place(r, s); const Obj b = randObj(r, k, o, s);
        Obj a = randObj(r, ka, r.b(0.5) ? b.rnd(r) : o + randVec(r, 2*s), s*r.lu(0.1, 1)); if (ka == KSegment && r.b()) { a.p = b.rnd(r); a.q = b.rnd(r); }
        bool as = r.b(), os = r.b(0.3); if (k == KLateral) { as = os = false; } else if (k != KDisk && !os) as = true; a.describe(c.in); b.describe(c.in); c.in << "shapes " << as << os; const Interval w = rimBounds(a, b, 1e-5*s); c.nontrivial(); const bool soft = ka != KSegment && (k == KDisk || k == KLateral || ka == KEllipse || ka == KArc || ka == KDisk);
        if (w[1]-w[0] < 1e-4*s) c.count("two-sided"); const double v = toBoundary(a, b, as, os); if (v <= w[1] + 1e-4*s) c.count("exact");
        const double in = ka == KBox && w[1] < 1e-4*s ? 1.1e-3 : 0;
        // an answer that is too large must be OpenCASCADE's own one
        bool miss = false; if (soft && v > w[1] + 3e-5*s) { double o1 = 1e300, o2 = 1e300; for (auto& e : rimCurves(b)) { o1 = std::min(o1, occDistance(a.shape(), e.shape())); o2 = std::min(o2, occDistance(e.shape(), a.shape())); } miss = std::min(std::abs(v-o1), std::abs(v-o2)) < 3e-5*s; if (miss) c.count("occ-miss"); }
        within(c, std::string(kindName(ka)) + "-" + kindName(k) + (os ? "-face" : ""), v, {w[0], w[1] + (miss ? 0.4*s : in)}, 3e-5*s);
    });
    // a face with a hole: documented to use the outer wire
    section("face-with-hole", 200, 5000, [](Rng& r, Case& c) {
        const double s = r.u(0.5, 15); Obj b = randObj(r, KQuad, place(r, s), s); double cx = 0, cy = 0; for (auto& p : b.m.poly) { cx += 0.25*p.x; cy += 0.25*p.y; } const double rho = -b.m.signed2(cx, cy); Planar h = b.m; h.isDisk = true; h.f.o = b.m.f.at(cx, cy); h.a = rho*r.u(0.3,0.8); h.b = h.a*r.u(0.5,1);
        if (rho < 0.05*s) throw Skip{"thin"}; const auto cut = F::OCCUtilities::getFaces(F::OCCUtilities::cut(b.shape(), F::OCCUtilities::getShape(fdisk(h)), 1e-7*s)); b.describe(c.in); h.describe(c.in); if (cut.size() != 1) throw Skip{"cut"};
        Obj a; a.p = b.rnd(r); a.describe(c.in); c.nontrivial(); const double w = b.rim(a.p); within(c, "outer-wire", F::computeDistanceToBoundary(fp(a.p), cut[0]), {w, w}, 1e-6*s);
        // next to the rim of the hole: not on the outer boundary
        const double t = r.u(0, 6.28); const P3 p = fp(h.f.at(h.a*std::cos(t), h.b*std::sin(t))); c.count("judged"); if (F::pointOnGeometryBoundary(p, cut[0], 1e-3*s) && b.rim(rp(p)) > 2e-3*s) c.fail("hole", "a point on the rim of the hole is reported on the outer boundary");
    });
    section("on-geometry", 5000, 150000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const int k = 1 + r.i(NKinds-1); const Obj b = randObj(r, k, o, s); const double eps = r.lu(1e-5, 0.2)*s; b.describe(c.in); c.in << "eps=" << eps << " "; c.nontrivial(); c.count(kindName(k));
        for (int i = 0; i < 6; ++i)
        {
            const double off = r.b(0.2) ? 0 : r.lu(1e-9*s, 0.5*s); const V3 p = b.rnd(r) + off*randUnit(r); const double d = b.dist(p); if (k >= KBox && std::abs(b.d.signedDist(p)) < 1.1e-3 && d == 0) continue;
            const bool shape = r.b(0.3); const TopoDS_Shape sh = b.shape(); auto ask = [&](double e) { return shape ? F::pointOnGeometry(fp(p), sh, e) : b.visit([&](const auto& g) -> bool { return F::pointOnGeometry(fp(p), g, e); }); };
            // one eighth around the tolerance is left open; rounding must not matter either
            for (double e : {eps, r.lu(1e-8*s, s)}) if (e > 1e-6*s + 1e-13*norm(o) + 3e-6 + (s < 0.05 ? 0.02*s : 0) && std::abs(d - e) > 0.02*e + 2e-7*s + 1e-7) { const bool got = ask(e); c.count("judged"); c.count(d < e ? "on" : "off"); if (got != (d < e)) c.fail(std::string("eps-") + kindName(k), str("point ", p, " at distance ", d, " with tolerance ", e, " is reported ", got ? "on" : "off")); }
            if (d < 1e-12*s + 1e-14*norm(o) || d > 1e-4*s + 1e-6) { if (norm(o) > 60*s || k == KStar || (s < 0.05 && (shape || k >= KArc))) continue; const bool got = shape ? F::pointOnGeometry(fp(p), sh) : b.visit([&](const auto& g) -> bool { return F::pointOnGeometry(fp(p), g); }); c.count("default"); if (got != (d < 1e-6*s)) c.fail(std::string("default-") + kindName(k), str("point ", p, " at distance ", d, " is reported ", got ? "on" : "off", " with the default tolerance")); }
        }
    });
    section("on-boundary", 5000, 150000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const int k = r.pick(std::vector<int>{KDisk, KQuad, KPolygon, KStar, KLateral}); const Obj b = randObj(r, k, o, s); b.describe(c.in); c.nontrivial(); const auto rims = rimCurves(b); const bool face = k != KLateral && r.b(0.4); c.in << "face=" << face; c.count(kindName(k)); const TopoDS_Face f = TopoDS::Face(b.shape());
        for (int i = 0; i < 6; ++i)
        {
            const double off = r.b(0.2) ? 0 : r.lu(1e-9*s, 0.5*s); const V3 p = (r.b(0.8) ? r.pick(rims).at(r.b(0.1) ? r.i(2) : r.u()) : b.rnd(r)) + off*randUnit(r); const double d = b.rim(p);
            auto ask = [&](double e) { return face ? F::pointOnGeometryBoundary(fp(p), f, e) : k == KDisk ? F::pointOnGeometryBoundary(fp(p), fdisk(b.m), e) : k == KQuad ? F::pointOnGeometryBoundary(fp(p), fquad(b.m), e) : k == KLateral ? F::pointOnGeometryBoundary(fp(p), fcyl(b.d.cyl).lateralFace(), e) : F::pointOnGeometryBoundary(fp(p), fpoly(b.m), e); };
            for (double e : {r.lu(1e-5, 0.2)*s, r.lu(1e-8*s, s)}) if (e > 1e-6*s + 1e-13*norm(o) + 3e-6 + (s < 0.05 ? 0.02*s : 0) && std::abs(d - e) > 0.02*e + 2e-7*s + 1e-7) { const bool got = ask(e); c.count("judged"); c.count(d < e ? "on" : "off"); if (got != (d < e)) c.fail(std::string("eps-") + kindName(k) + (face ? "-face" : ""), str("point ", p, " at distance ", d, " with tolerance ", e, " is reported ", got ? "on" : "off", " the boundary")); }
            if ((d < 1e-12*s + 1e-14*norm(o) || d > 1e-4*s + 1e-6) && norm(o) < 60*s && (k != KStar || face))
            { const bool got = face ? F::pointOnGeometryBoundary(fp(p), f) : k == KDisk ? F::pointOnGeometryBoundary(fp(p), fdisk(b.m)) : k == KQuad ? F::pointOnGeometryBoundary(fp(p), fquad(b.m)) : k == KLateral ? F::pointOnGeometryBoundary(fp(p), fcyl(b.d.cyl).lateralFace()) : F::pointOnGeometryBoundary(fp(p), fpoly(b.m)); c.count("default"); if (got != (d < 1e-6*s)) c.fail(std::string("default-") + kindName(k) + (face ? "-face" : ""), str("point ", p, " at distance ", d, " is reported ", got ? "on" : "off", " the boundary with the default tolerance")); }
        }
    });
    section("unsupported", 60, 600, [](Rng& r, Case& c) {
        const double s = r.u(0.5, 5); const Obj q = randObj(r, KQuad, V3(0,0,0), s), a = randObj(r, KSegment, V3(0,0,0), s), p = randObj(r, KPoint, randVec(r, s), s); c.nontrivial(); q.describe(c.in); a.describe(c.in); c.count("judged", 3);
        if (!throws([&]{ (void)F::computeDistanceToBoundary(Seg3(fp(a.p), fp(a.q)), fquad(q.m)); })) c.fail("class-quad", "an unsupported boundary distance does not throw");
        if (!throws([&]{ (void)F::computeDistanceToBoundary(fp(p.p), FSphere(P3(0.,0.,0.), s)); })) c.fail("point-sphere", "an unsupported boundary distance does not throw");
        if (!throws([&]{ (void)F::pointOnGeometryBoundary(fp(p.p), FSphere(P3(0.,0.,0.), s), 1e-3); })) c.fail("on-sphere", "an unsupported boundary test does not throw");
    });
    section("fixed", 1, 1, [](Rng&, Case& c) { c.nontrivial(); c.in << "point (0.5,0.5,0.9995), unit box"; c.count("judged"); if (!F::pointOnGeometry(P3(0.5, 0.5, 0.9995), FBox(0, 0, 0, 1, 1, 1))) c.fail("point-in-box", "a point in the box is reported off the box"); });
    require("point-to-boundary:judged", 3000); require("point-to-solid-boundary:judged", 2000); require("geometry-to-boundary:judged", 1000); require("geometry-to-boundary:two-sided", 800); require("on-geometry:on", 3000); require("on-geometry:off", 3000); require("on-boundary:on", 3000); require("on-boundary:off", 3000); require("on-boundary:default", 1000); require("face-with-hole:judged", 50);
    return finish();
}
