// C14: lengths, areas and volumes
#include "fk.hh"
#include "clip.hh"
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <BRepBuilderAPI_Copy.hxx>
using namespace vf;
namespace {
V3 place(Rng& r, double s) { static const double f[] = {0, 1, 5, 50}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*s); }
void same(Case& c, const std::string& kind, double v, double want, double rel)
{ c.count("judged"); if (!(std::abs(v-want) <= rel*std::abs(want))) c.fail(kind, str("got ", v, ", true measure ", want, ", relative error ", (v-want)/want)); }
// shape and moved copies of it
template<class S, class G> void shapes(Case& c, Rng& r, const std::string& kind, const S& s, double want, double rel, double size, G&& cast)
{
    same(c, kind, F::computeMagnitude(s), want, rel);
    const V3 v = randVec(r, 3*size);
    same(c, kind + "-translated", F::computeMagnitude(cast(F::OCCUtilities::translate(s, fv(v)))), want, rel);
    gp_Trsf t; const V3 ax = randUnit(r); t.SetRotation(gp_Ax1(gp_Pnt(v.x, v.y, v.z), gp_Dir(ax.x, ax.y, ax.z)), r.u(-3, 3));
    same(c, kind + "-located", F::computeMagnitude(cast(s.Moved(TopLoc_Location(t)))), want, rel);
    const double k = r.u(0.2, 5); gp_Trsf sc; sc.SetScale(gp_Pnt(v.x, v.y, v.z), k); BRepBuilderAPI_Transform tr(s, sc, true); const int dim = s.ShapeType() == TopAbs_SOLID ? 3 : (s.ShapeType() == TopAbs_FACE || s.ShapeType() == TopAbs_SHELL) ? 2 : 1;
    same(c, kind + "-scaled", F::computeMagnitude(cast(tr.Shape())), want*std::pow(k, dim), rel*3);
    same(c, kind + "-reversed", std::abs(F::computeMagnitude(cast(s.Reversed()))), want, rel);
}
const auto E = [](const TopoDS_Shape& s) { return TopoDS::Edge(s); };
const auto W = [](const TopoDS_Shape& s) { return TopoDS::Wire(s); };
const auto Fc = [](const TopoDS_Shape& s) { return TopoDS::Face(s); };
const auto Sh = [](const TopoDS_Shape& s) { return TopoDS::Shell(s); };
const auto So = [](const TopoDS_Shape& s) { return TopoDS::Solid(s); };
template<class Dom> double contained(Case& c, const Planar& m, const Dom& d, int how, std::string& via)
{
    if (how == 3) { via = "face"; const TopoDS_Face f = m.isDisk ? F::OCCUtilities::getShape(fdisk(m)) : F::OCCUtilities::getShape(fpoly(m)); return F::computeContainedMagnitude(f, d); }
    std::shared_ptr<F::Geometry> p;
    if (m.isDisk) { if (how == 1) { via = "disk-ptr"; p = std::make_shared<FDisk>(fdisk(m)); } else { via = "disk"; return F::computeContainedMagnitude(fdisk(m), d); } }
    else if (m.poly.size() == 4 && how != 2) { if (how == 1) { via = "quad-ptr"; p = std::make_shared<Quad3>(fquad(m)); } else { via = "quad"; return F::computeContainedMagnitude(fquad(m), d); } }
    else { if (how == 1) { via = "polygon-ptr"; p = std::make_shared<Poly3>(fpoly(m)); } else { via = "polygon"; return F::computeContainedMagnitude(fpoly(m), d); } }
    return F::computeContainedMagnitude(p, d);
}
FBox fbox(const Solid& d) { return FBox(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z); }
TopoDS_Solid solidShape(const Solid& d)
{ return d.kind == 0 ? F::OCCUtilities::getShape(fbox(d)) : d.kind == 1 ? F::OCCUtilities::getShape(FSphere(fp(d.c), d.r)) : F::OCCUtilities::getShape(fcyl(d.cyl)); }
template<class Fn> void visitDomain(const Solid& d, bool shape, Fn&& f)
{
    if (shape) f(solidShape(d));
    else if (d.kind == 0) f(fbox(d)); else if (d.kind == 1) f(FSphere(fp(d.c), d.r)); else f(fcyl(d.cyl));
}
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("curves", 4000, 80000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const double e = 1e-11*(1 + norm(o)/s); c.nontrivial();
        { const V3 b = o + s*r.u(0.1,1)*randUnit(r); c.in << "segment " << o << b; const Seg3 g(fp(o), fp(b)); const double L = dist(o, b);
          same(c, "segment", g.length(), L, e); same(c, "segment-generic", F::computeLength(g), L, e); same(c, "segment-magnitude", F::computeMagnitude(g), L, e); shapes(c, r, "segment-edge", F::OCCUtilities::getShape(g), L, 1e-9+e, s, E); }
        const Planar m = randDisk(r, o, s); m.describe(c.in);
        { const Circle3 g(fp(o), fd(m.f.w), m.a); const double L = 2*M_PI*m.a; same(c, "circle-generic", F::computeLength(g), L, 1e-12); same(c, "circle-magnitude", F::computeMagnitude(g), L, 1e-12); shapes(c, r, "circle-wire", F::OCCUtilities::getShape(g), L, 1e-7, s, W); }
        const Ellipse3 el(fp(o), fd(m.f.u), fd(m.f.v), m.a, m.b); const double L = ellipseLength(m.a, m.b);
        same(c, "ellipse-generic", F::computeLength(el), L, 1e-5); same(c, "ellipse-magnitude", F::computeMagnitude(el), L, 1e-5); shapes(c, r, "ellipse-wire", F::OCCUtilities::getShape(el), L, 1e-5, s, W); same(c, "ellipse-edge", F::computeLength(F::OCCUtilities::getEdges(F::OCCUtilities::getShape(el))[0]), L, 1e-5);
        same(c, "ellipse-curve", F::computeLength(F::OCCUtilities::getGeomHandle(el)), L, 1e-5);
        const double t0 = r.u(0, 2*M_PI), d = r.b(0.25) ? 2*M_PI : r.u(0.05, 2*M_PI - 0.05); auto at = [&](double t) { return fp(m.f.at(m.a*std::cos(t), m.b*std::sin(t))); };
        const P3 S = at(t0), T = d == 2*M_PI ? S : at(t0 + d); c.in << " arc t0=" << t0 << " d=" << d; const Arc3 arc(el, S, T); const double LA = ellipseArcLength(m.a, m.b, t0, t0+d), ea = 1e-5 + 1e-12*norm(o)/s/d;
        const std::string k = d == 2*M_PI ? "fullarc" : "arc"; c.count(k);
        same(c, k + "-generic", F::computeLength(arc), LA, ea); same(c, k + "-magnitude", F::computeMagnitude(arc), LA, ea); shapes(c, r, k + "-edge", F::OCCUtilities::getShape(arc), LA, ea, s, E); same(c, k + "-curve", F::computeLength(F::OCCUtilities::getGeomHandle(arc)), LA, ea);
    });
    section("planar", 4000, 80000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const double e = 1e-10*(1 + norm(o)/s); c.nontrivial();
        { const Planar m = randDisk(r, o, s); m.describe(c.in); const FDisk g = fdisk(m); const double A = M_PI*m.a*m.b; same(c, "disk", g.area(), A, 1e-12); same(c, "disk-generic", F::computeArea(g), A, 1e-12); same(c, "disk-magnitude", F::computeMagnitude(g), A, 1e-12);
          shapes(c, r, "disk-face", F::OCCUtilities::getShape(g), A, 1e-6, s, Fc); same(c, "disk-boundary", F::computeLength(g.boundingEllipse()), ellipseLength(m.a, m.b), 1e-6); }
        const int n = r.i(3, 9); const bool star = n > 3 && r.b(0.4); const Planar m = star ? randStar(r, o, s, n) : randPolygon(r, o, s, n); m.describe(c.in); const double A = m.area();
        const auto g = fpoly(m); double per = 0; for (int i = 0; i < n; ++i) per += dist(m.corner(i), m.corner((i+1)%n));
        if (!star) { same(c, "polygon", g.area(), A, e); same(c, "polygon-generic", F::computeArea(g), A, e); same(c, "polygon-magnitude", F::computeMagnitude(g), A, e); }
        else { bool thrown = throws([&]{ (void)g.area(); }); bool convex = g.isConvex(); c.count("judged"); if (convex == thrown) c.fail("polygon-concave", "area() of a polygon and its convexity disagree"); if (!thrown) same(c, "polygon", g.area(), A, e); }
        const auto f = F::OCCUtilities::getShape(g); shapes(c, r, star ? "star-face" : "polygon-face", f, A, 1e-7, s, Fc); shapes(c, r, "polygon-wire", F::OCCUtilities::getWires(f)[0], per, 1e-9 + e, s, W);
        if (n == 3) { const Tri3 t(fp(m.corner(0)), fp(m.corner(1)), fp(m.corner(2))); same(c, "triangle", t.area(), A, e); same(c, "triangle-magnitude", F::computeMagnitude(t), A, e); }
        if (n == 4) { const auto q = fquad(m); same(c, "quad", q.area(), A, e); same(c, "quad-generic", F::computeArea(q), A, e); same(c, "quad-magnitude", F::computeMagnitude(q), A, e); shapes(c, r, "quad-face", F::OCCUtilities::getShape(q), A, 1e-7, s, Fc); c.count(star ? "concave-quad" : "quad"); }
    });
    section("solids", 3000, 60000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const double e = 1e-11*(1 + norm(o)/s); c.nontrivial();
        const Solid b = randSolid(r, o, s, 0); b.describe(c.in); const FBox g = fbox(b); const V3 d = b.hi - b.lo; const double V = d.x*d.y*d.z, A = 2*(d.x*d.y + d.y*d.z + d.x*d.z);
        same(c, "box", g.volume(), V, e); same(c, "box-generic", F::computeVolume(g), V, e); same(c, "box-magnitude", F::computeMagnitude(g), V, e); const auto bs = F::OCCUtilities::getShape(g); shapes(c, r, "box-solid", bs, V, 1e-7 + e, s, So); shapes(c, r, "box-shell", F::OCCUtilities::getShells(bs)[0], A, 1e-7 + e, s, Sh);
        const double R = s*r.u(0.2, 1); const FSphere sp(fp(o), R); c.in << " R=" << R; const double VS = 4.0/3.0*M_PI*R*R*R; same(c, "sphere", sp.volume(), VS, 1e-12); same(c, "sphere-magnitude", F::computeMagnitude(sp), VS, 1e-12); const auto ss = F::OCCUtilities::getShape(sp); shapes(c, r, "sphere-solid", ss, VS, 1e-6, s, So); shapes(c, r, "sphere-shell", F::OCCUtilities::getShells(ss)[0], 4*M_PI*R*R, 1e-6, s, Sh);
        const Cyl m = randCyl(r, o, s); m.describe(c.in); const auto cy = fcyl(m); const double VC = M_PI*m.r*m.r*m.h; same(c, "cylinder", cy.volume(), VC, e); same(c, "cylinder-magnitude", F::computeMagnitude(cy), VC, e); const auto cs = F::OCCUtilities::getShape(cy); shapes(c, r, "cylinder-solid", cs, VC, 1e-6, s, So); shapes(c, r, "cylinder-shell", F::OCCUtilities::getShells(cs)[0], 2*M_PI*m.r*(m.r + m.h), 1e-6, s, Sh);
        const double AL = 2*M_PI*m.r*m.h; const auto lf = cy.lateralFace(); same(c, "lateral", lf.area(), AL, e); same(c, "lateral-generic", F::computeArea(lf), AL, e); same(c, "lateral-magnitude", F::computeMagnitude(lf), AL, e); shapes(c, r, "lateral-face", F::OCCUtilities::getShape(lf), AL, 1e-6, s, Fc);
        same(c, "bottom-face", cy.bottomFace().area(), M_PI*m.r*m.r, e); same(c, "top-circle", F::computeLength(lf.upperBoundingCircle()), 2*M_PI*m.r, e);
        const double ri = m.r*r.u(0.1, 0.99); const FHollow h(fp(m.f.o), fd(m.f.w), ri, m.r, m.h); const double VH = M_PI*m.h*(m.r - ri)*(m.r + ri); same(c, "hollow", h.volume(), VH, 1e-11 + e); same(c, "hollow-magnitude", F::computeMagnitude(h), VH, 1e-11 + e); same(c, "hollow-lateral", h.innerLateralFace().area(), 2*M_PI*ri*m.h, e); same(c, "hollow-full", h.fullCylinder().volume(), VC, e);
    });
    // pieces cut out of shapes: trimmed curves and faces with holes
    section("boolean-pieces", 200, 6000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); Planar m = randDisk(r, o, s); Planar h = m; const double k = r.u(0.2, 0.6); h.a = k*m.a; h.b = k*m.b; m.describe(c.in); c.in << " hole factor " << k; c.nontrivial();
        const auto ring = F::OCCUtilities::cut(F::OCCUtilities::getShape(fdisk(m)), F::OCCUtilities::getShape(fdisk(h)), 1e-7*s); double A = 0; for (const auto& f : F::OCCUtilities::getFaces(ring)) A += F::computeMagnitude(f); same(c, "ring", A, M_PI*m.a*m.b*(1-k*k), 1e-6);
        double L = 0; for (const auto& e : F::OCCUtilities::getEdges(ring)) L += F::computeMagnitude(e); same(c, "ring-rims", L, ellipseLength(m.a, m.b)*(1+k), 1e-5);
    });
    section("contained", 400, 16000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const Solid d = randSolid(r, o, s, r.i(3)); d.describe(c.in);
        const bool inner = r.b(0.15); const V3 pc = o + randVec(r, inner ? 0.1*s : 1.3*s); const double size = s*(inner || r.b(0.3) ? r.u(0.05,0.2) : r.u(0.5, 2)); const Planar m = r.b() ? randDisk(r, pc, size, 0.1) : randPolygon(r, pc, size, r.b() ? 4 : r.i(3,7), 0.1); m.describe(c.in);
        const double want = clippedArea(m, d), A = m.area(); const int how = r.i(4); const bool shape = r.b(0.3); std::string via; double got = -1;
        c.in << " how=" << how << shape;
        // faces nearly on the boundary are ambiguous
        if (want > 0 && want < 1e-4*A) throw Skip{"grazing"};
        visitDomain(d, shape, [&](const auto& dom) { got = contained(c, m, dom, how, via); });
        c.nontrivial(); c.count("judged"); c.count("via-" + via); c.count(want == 0 ? "outside" : want > 0.999*A ? "inside" : "partial");
        // OpenCASCADE resolves 1e-7 in absolute terms
        if (!(std::abs(got - want) <= 2e-5*A + 1e-5*want + 1e-6*m.size())) c.fail("area-" + via, str("contained area ", got, ", true value ", want, " of ", A));
    });
    section("contained-curves", 240, 8000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); const Solid d = randSolid(r, o, s, r.i(3)); d.describe(c.in);
        const double sp = r.b(0.2) ? 0.15*s : 1.3*s; const V3 a = o + randVec(r, sp), b = o + randVec(r, sp); const double L = dist(a, b); if (L < 0.05*s) throw Skip{"short"}; c.in << " segment " << a << b;
        const Interval k = d.line(a, (b-a)/L); const double want = std::max(0.0, std::min(k[1], L) - std::max(k[0], 0.0)); if (want > 0 && d.signedDist(a + 0.5*(std::max(k[0], 0.0) + std::min(k[1], L))*((b-a)/L)) > -2e-3*s) throw Skip{"grazing"};
        double got = -1; const bool shape = r.b(0.3); visitDomain(d, shape, [&](const auto& dom) { got = F::computeContainedMagnitude(Seg3(fp(a), fp(b)), dom); });
        c.nontrivial(); c.count("judged"); c.count(want == 0 ? "outside" : want > 0.999*L ? "inside" : "partial"); if (!(std::abs(got-want) <= 1e-6*s + 1e-6*L + 1e-6)) c.fail("length", str("contained length ", got, ", true value ", want, " of ", L));
        visitDomain(d, shape, [&](const auto& dom) { got = F::computeContainedMagnitude(fp(a), dom); }); if (got != 0) c.fail("point", "a point has a contained magnitude");
        // arcs: sum of the part inside, by dense sampling
        const Planar m = randDisk(r, o + randVec(r, s), s*r.u(0.3, 1.2), 0.1); m.describe(c.in); const double t0 = r.u(0, 6.28), dt = r.u(0.3, 5.9); c.in << " t0=" << t0 << " dt=" << dt; const int N = 20000; double in = 0, near = 0, tot = 0;
        for (int i = 0; i < N; ++i) { const double t = t0 + dt*(i+0.5)/N, dl = std::hypot(m.a*std::sin(t), m.b*std::cos(t))*dt/N; const double sd = d.signedDist(m.f.at(m.a*std::cos(t), m.b*std::sin(t))); tot += dl; if (sd < 0) in += dl; if (std::abs(sd) < 1e-3*s) near += dl; }
        if (near > 0.03*s) throw Skip{"grazing arc"};
        auto at = [&](double t) { return fp(m.f.at(m.a*std::cos(t), m.b*std::sin(t))); }; const Arc3 arc(Ellipse3(fp(m.f.o), fd(m.f.u), fd(m.f.v), m.a, m.b), at(t0), at(t0+dt));
        visitDomain(d, shape, [&](const auto& dom) { got = F::computeContainedMagnitude(arc, dom); }); c.count("judged"); c.count("arcs"); if (!(std::abs(got-in) <= 2e-3*tot)) c.fail("arc-length", str("contained arc length ", got, ", true value ", in, " of ", tot));
    });
    // a domain with several arms cuts one geometry into several pieces
    section("contained-pieces", 120, 4000, [](Rng& r, Case& c) {
        const double s = std::max(0.05, randScale(r)); const V3 o = place(r, s); Solid d = randSolid(r, o, s, 0); const int n = r.i(1, 3), ax = r.i(3); const bool cav = r.b(0.2); auto comp = [](V3& v, int i) -> double& { return i == 0 ? v.x : i == 1 ? v.y : v.z; };
        d.describe(c.in); c.in << " axis " << ax << " slabs " << n << (cav ? " cavities" : ""); TopoDS_Shape dom = solidShape(d); std::vector<Solid> cuts;
        for (int i = 0; i < n; ++i)
        {   // slabs across the axis that leave a spine (or a wall all around) standing
            Solid k = d; const double L = comp(d.hi, ax) - comp(d.lo, ax), w = L/(2*n+1); comp(k.lo, ax) = comp(d.lo, ax) + (2*i+1)*w; comp(k.hi, ax) = comp(k.lo, ax) + w*r.u(0.5, 1);
            const int b = (ax+1)%3; const double t = 0.1*(comp(d.hi, b) - comp(d.lo, b)); comp(k.lo, b) += t; if (cav) { comp(k.hi, b) -= t; const int e = (ax+2)%3; const double q = 0.1*(comp(d.hi, e) - comp(d.lo, e)); comp(k.lo, e) += q; comp(k.hi, e) -= q; }
            Solid tool = k; if (!cav) { comp(tool.hi, b) += t; const int e = (ax+2)%3; const double q = comp(d.hi, e) - comp(d.lo, e); comp(tool.lo, e) -= q; comp(tool.hi, e) += q; }
            cuts.push_back(k); dom = F::OCCUtilities::cut(dom, solidShape(tool), 1e-7*s);
        }
        const auto solids = F::OCCUtilities::getSolids(dom); if (solids.size() != 1) throw Skip{"domain fell apart"}; const TopoDS_Solid one = solids[0];
        const V3 cc = 0.5*(d.lo + d.hi); Planar m = r.b() ? randDisk(r, cc + randVec(r, 0.3*s), s*r.u(0.8, 2.5), 0.1) : randPolygon(r, cc + randVec(r, 0.3*s), s*r.u(0.8, 2.5), r.b() ? 4 : r.i(3,7), 0.1); m.describe(c.in); const int how = r.i(4); c.in << " how=" << how; std::string via; double want = clippedArea(m, d); const double A = m.area(), whole = want; for (auto& k : cuts) want -= clippedArea(m, k);
        if (want < 1e-3*A) throw Skip{"grazing"}; const double got = contained(c, m, one, how, via); c.nontrivial(); c.count("judged"); c.count("via-" + via); { const TopoDS_Face face = m.isDisk ? F::OCCUtilities::getShape(fdisk(m)) : F::OCCUtilities::getShape(fpoly(m)); c.count(F::OCCUtilities::getFaces(F::OCCUtilities::intersect(face, one, 1e-7*s)).size() > 1 ? "several pieces" : "one piece"); }
        if (!(std::abs(got - want) <= 3e-5*A + 1e-5*whole + 1e-6*m.size())) c.fail("area-" + via, str("contained area ", got, ", true value ", want, " of ", A));
        // a segment along the axis crosses all slabs
        V3 a = cc, b = cc; comp(a, ax) = comp(d.lo, ax) - s*r.u(0, 0.5); comp(b, ax) = comp(d.hi, ax) + s*r.u(0, 0.5); a = a + randVec(r, 0.1*s); b = b + randVec(r, 0.1*s); const double L = dist(a, b); auto in = [&](const Solid& k) { const Interval t = k.line(a, (b-a)/L); return std::max(0.0, std::min(t[1], L) - std::max(t[0], 0.0)); }; double w = in(d); for (auto& k : cuts) w -= in(k);
        const double g = F::computeContainedMagnitude(Seg3(fp(a), fp(b)), one); c.count("segments"); if (!(std::abs(g - w) <= 1e-6*s + 1e-6*L + 1e-6)) c.fail("length", str("contained length ", g, ", true value ", w, " of ", L));
    });
    for (auto n : {"curves", "planar", "solids"}) require(std::string(n) + ":judged", 20000);
    require("contained-pieces:several pieces", 20); require("contained-pieces:via-face", 10); require("contained-pieces:segments", 60); require("curves:fullarc", 300); require("planar:concave-quad", 50); require("boolean-pieces:judged", 200);
    for (auto n : {"outside", "inside", "partial", "via-disk", "via-quad", "via-polygon", "via-face", "via-disk-ptr", "via-quad-ptr", "via-polygon-ptr"}) require(std::string("contained:") + n, 10);
    for (auto n : {"outside", "inside", "partial", "arcs"}) require(std::string("contained-curves:") + n, 3);
    return finish();
}
