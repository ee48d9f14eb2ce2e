// C07: intersection angles against the angle between (tangent) planes of an independent model at the returned pieces.
#include "isect_special.hh"
#include <BRepPrimAPI_MakeSphere.hxx>
#include <BRepPrimAPI_MakeCone.hxx>
#include <BRepPrimAPI_MakeTorus.hxx>
#include <gp_Trsf.hxx>
#include "angle.hh"
using namespace vf;
namespace {
template<class A_, class B_, class Is> bool ask(Case& c, const char* what, const A_& a, const B_& b, const Is& is, double lo, double hi, const std::vector<Piece>& v)
{
    const double al = F::IntersectionAngle<double>{}(a, b, is); c.count("angles");
    if (!(al >= std::max(0.0, lo - 2e-7) && al <= std::min(M_PI/2, hi) + 2e-7)) { c.fail(what, str(std::setprecision(12), "angle ", al, " expected between ", lo, " and ", hi, " at ", show(v))); return false; }
    if (hi < 1e-7) c.count("angle zero"); else if (hi > M_PI/2 - 1e-7) c.count("right angle");
    return true;
}
template<class A_, class B_, class T> void eachPiece(Case&, const A_&, const B_&, const T&, const Normal&, const Normal&) {}
template<class A_, class B_, class T> void eachPiece(Case& c, const A_& a, const B_& b, const std::vector<T>& is, const Normal& na, const Normal& nb)
{ if (is.size() > 1) for (auto& x : is) { std::vector<Piece> v; addPieces(v, x); double lo, hi; range(v[0], na, nb, lo, hi); if (!ask(c, "angle at one piece", a, b, x, lo, hi, v)) return; } }
Geo flipped(Rng& r, const Geo& g)
{
    Geo o = g; if (g.k == GPlane) { o.q = -1.0*g.q; return o; }
    if (g.cyl()) { o.c.f.o = g.c.f.at(0, 0, g.c.h); o.c.f.w = -1.0*g.c.f.w; o.c.f.v = -1.0*g.c.f.v; return o; }
    if (g.m.isDisk) { o.m.f.u = -1.0*o.m.f.u; o.m.f.w = -1.0*o.m.f.w; return o; }
    std::reverse(o.m.poly.begin(), o.m.poly.end()); std::rotate(o.m.poly.begin(), o.m.poly.begin() + r.i(int(o.m.poly.size())), o.m.poly.end()); return o;
}
void pair(Rng& r, Case& c, const Geo& A, const Geo& B, double eps = 0)
{
    if (eps > 0) c.in << "eps=" << eps << " "; c.in << "A="; A.describe(c.in); c.in << "B="; B.describe(c.in);
    const bool none = (A.k == GCyl && B.k == GFace) || (A.k == GFace && B.k == GCyl);
    onPair(A, B, [&](const auto& a, const auto& b)
    {
        if constexpr (supported(gkOf<std::decay_t<decltype(a)>>::v, gkOf<std::decay_t<decltype(b)>>::v))
        {
            auto is = [&] { try { return eps > 0 ? F::intersect(a, b, eps) : F::intersect(a, b); } catch (const std::runtime_error& e) { if (std::string(e.what()).find("NotImplemented") != std::string::npos) throw Skip{"documented as not implemented"}; throw; } }();
            std::vector<Piece> v; addPieces(v, is); if (v.empty() || v[0].t == '0') throw Skip{"no intersection"};
            c.nontrivial(); c.count("judged"); if (none) { c.count("no overload"); return; }
            const Normal na = normalOf(A), nb = normalOf(B); double lo = 1e300, hi = 1e300; for (auto& p : v) { c.count(std::string("kind ") + p.t); if (p.t == 'N') throw Skip{"common plane"}; double l, h; range(p, na, nb, l, h); lo = std::min(lo, l); hi = std::min(hi, h); }
            if (v.size() > 1) c.count("several pieces");
            if (!ask(c, "angle", a, b, is, lo, hi, v)) return;
            if (!ask(c, "angle with swapped arguments", b, a, is, lo, hi, v)) return;
            const Geo A2 = flipped(r, A), B2 = r.b() ? flipped(r, B) : B;
            onPair(A2, B2, [&](const auto& a2, const auto& b2) { if constexpr (std::is_same_v<std::decay_t<decltype(a2)>, std::decay_t<decltype(a)>> && std::is_same_v<std::decay_t<decltype(b2)>, std::decay_t<decltype(b)>>) ask(c, "angle with reversed normals", a2, b2, is, lo, hi, v); });
            if constexpr (!std::is_same_v<std::decay_t<decltype(a)>, Plane3>) eachPiece(c, a, b, is, na, nb);
        }
    });
}
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("planes", 1500, 30000, [](Rng& r, Case& c)
    {
        const V3 p = randVec(r, randScale(r)), n = randFrame(r, p).u; const int m = r.i(5); double al = 0; V3 n2 = n; const V3 q = anyPerp(n, r.u(0, 6.3));
        if (m == 0) n2 = r.b() ? n : -1.0*n; else { al = m == 1 ? M_PI/2 : m == 2 ? r.lu(1e-6, 1e-2) : m == 3 ? M_PI/2 - r.lu(1e-6, 1e-2) : r.u(0.01, M_PI/2); n2 = unit(std::cos(al)*n + std::sin(al)*q); if (r.b()) n2 = -1.0*n2; }
        const double k1 = r.lu(1e-3, 1e3), k2 = r.lu(1e-3, 1e3); c.in << p << n << n2 << " lengths " << k1 << "," << k2;
        const Plane3 a(fp(p), F::Direction<double,3>(fv(k1*n))), b(fp(p), F::Direction<double,3>(fv(k2*n2))); c.nontrivial(); c.count("judged");
        const double want = between(n, n2), tol = 5e-8;
        for (int k = 0; k < 2; ++k) { const double got = k ? F::IntersectionAngle<double>{}(b, a) : F::IntersectionAngle<double>{}(a, b); if (!(std::abs(got - want) <= tol)) return c.fail("angle between planes", str(std::setprecision(17), got, " instead of ", want)); c.count("angles"); }
        if (m == 0) c.count("parallel");
    });
    for (const auto& k : pairKinds())
    {
        if (k.a == GSeg || k.a == GLine || k.b == GLine) continue;
        const bool slow = k.b >= GCyl || k.a >= GCyl; const std::string n = std::string(gkName(k.a)) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "");
        section("general-" + n, slow ? 25 : 80, slow ? 400 : 1500, [&](Rng& r, Case& c)
        { Geo A, B; const double s = r.b(0.3) ? std::max(0.05, randScale(r)) : r.lu(0.5, 20); randPair(r, k, s, A, B); pair(r, c, A, B, r.b(0.3) ? s*r.lu(1e-6, 1e-4) : 0); });
        require("general-" + n + ":judged", 5);
    }
    for (int g = 1; g < 9; ++g)
    {
        if (g == 2 || g == 3) continue;
        section(std::string("special-") + specialGroup(g), g >= 4 ? 120 : 300, g >= 4 ? 2500 : 6000, [&](Rng& r, Case& c)
        { const double s = r.lu(0.5, 20); Special sp = randSpecial(r, g, s); if (sp.A.k <= GLine || sp.B.k <= GLine) throw Skip{"no second surface"}; c.in << sp.name << " "; c.count("is " + sp.name); pair(r, c, sp.A, sp.B, r.b(0.3) ? s*r.lu(1e-6, 1e-4) : 0); });
    }
    // faces of spheres, cones and tori
    section("curved", 120, 2500, [](Rng& r, Case& c)
    {
        const double s = r.lu(0.5, 20), R = s; const int kind = r.i(3); const V3 o = randVec(r, 3*s); const Frame f = randFrame(r, o); gp_Ax2 ax(gp_Pnt(0,0,0), gp_Dir(0,0,1)); TopoDS_Shape sh; Normal n; double R2 = 0, H = 0;
        auto loc = [f](V3 x) { return f.local(x); }; auto glob = [f](V3 d) { return d.x*f.u + d.y*f.v + d.z*f.w; };
        if (kind == 0) { sh = BRepPrimAPI_MakeSphere(ax, R, -1.2, 1.2).Shape(); n = [=](V3 x) { return unit(x - f.o); }; }
        else if (kind == 1) { R2 = R*r.u(0.2, 0.8); H = R*r.u(0.5, 2); sh = BRepPrimAPI_MakeCone(ax, R, R2, H).Shape(); const double sl = (R - R2)/H; n = [=](V3 x) { const V3 l = loc(x); const double q = std::hypot(l.x, l.y); return unit(glob(V3(l.x/q, l.y/q, sl))); }; }
        else { R2 = R*r.u(0.15, 0.6); sh = BRepPrimAPI_MakeTorus(ax, R, R2).Shape(); n = [=](V3 x) { const V3 l = loc(x); const double q = std::hypot(l.x, l.y); return unit(glob(V3(l.x - R*l.x/q, l.y - R*l.y/q, l.z))); }; }
        gp_Trsf t; t.SetTransformation(gp_Ax3(gp_Pnt(f.o.x, f.o.y, f.o.z), gp_Dir(f.w.x, f.w.y, f.w.z), gp_Dir(f.u.x, f.u.y, f.u.z)), gp_Ax3(gp_Pnt(0,0,0), gp_Dir(0,0,1), gp_Dir(1,0,0)));
        TopoDS_Face face; for (auto& q : F::OCCUtilities::getFaces(sh)) if (BRep_Tool::Surface(q)->DynamicType() != STANDARD_TYPE(Geom_Plane)) face = q;
        if (face.IsNull()) throw Skip{"no face"}; face = TopoDS::Face(face.Moved(TopLoc_Location(t))); if (r.b()) face.Reverse();
        const int fk = r.i(3); Geo G = randFlat(r, fk == 0 ? GDisk : fk == 1 ? GQuad : GFace, o, 2*s); const double h = kind == 1 ? H*r.u(0.2, 0.8) : kind == 2 ? r.u(-0.6, 0.6)*R2 : r.u(-0.7, 0.7)*R;
        if (r.b(0.3)) setNormal(r, G, f.w);
        G.m.f.o = f.at(kind == 2 ? R : 0.3*r.u()*s, 0, h); c.in << "face kind " << kind << " " << f.o << f.w << " R=" << R << " R2=" << R2 << " H=" << H << " and "; G.describe(c.in);
        auto judge = [&](const auto& g) {
            auto is = F::intersect(g, face); std::vector<Piece> v; addPieces(v, is); if (v[0].t == '0') throw Skip{"no intersection"}; c.nontrivial(); c.count("judged"); c.count(str("surface ", kind));
            const Normal na = normalOf(G); double lo = 1e300, hi = 1e300; for (auto& p : v) { double l, h2; range(p, na, n, l, h2); lo = std::min(lo, l); hi = std::min(hi, h2); }
            // the section curve is an approximation of OpenCASCADE
            const double tol = 1e-5; lo -= tol; hi += tol;
            if (ask(c, "angle", g, face, is, lo, hi, v)) ask(c, "angle with swapped arguments", face, g, is, lo, hi, v); };
        if (G.k == GDisk) judge(fdisk(G.m)); else if (G.k == GQuad) judge(fquad(G.m)); else judge(G.face());
    });
    require("curved:judged", 25); require("planes:parallel", 50);
    return finish();
}
