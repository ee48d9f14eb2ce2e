// C06: results do not depend on argument order, placement, unit or representation.
#include "isect_special.hh"
using namespace vf;
namespace {
struct Motion { Frame f; double k = 1; V3 pt(V3 x) const { return f.at(k*x.x, k*x.y, k*x.z); } V3 dir(V3 x) const { return x.x*f.u + x.y*f.v + x.z*f.w; } };
Frame moved(const Frame& f, const Motion& m) { Frame g; g.o = m.pt(f.o); g.u = unit(m.dir(f.u)); g.v = unit(m.dir(f.v)); g.w = unit(m.dir(f.w)); return g; }
Geo moved(const Geo& g, const Motion& m)
{
    Geo r = g; r.p = m.pt(g.p); r.q = g.k == GSeg ? m.pt(g.q) : m.dir(g.q); r.m.f = moved(g.m.f, m); r.m.a *= m.k; r.m.b *= m.k; for (auto& x : r.m.poly) { x.x *= m.k; x.y *= m.k; } for (auto& h : r.m.holes) for (auto& x : h) { x.x *= m.k; x.y *= m.k; }
    r.c.f = moved(g.c.f, m); r.c.r *= m.k; r.c.h *= m.k; return r;
}
void moveResult(std::vector<Piece>& v, const Motion& m, double& areaScale)
{   // only what the comparison uses: kinds, samples, sizes
    for (auto& p : v) { for (auto& x : p.s) x = m.pt(x); if (p.t == 'F') p.len *= m.k*m.k; else p.len *= m.k; }
    areaScale = m.k*m.k;
}
// another description of the same set of points
Geo other(Rng& r, const Geo& g, const Geo& partner, std::string& what)
{
    Geo o = g;
    switch (g.k)
    {
        case GSeg: std::swap(o.p, o.q); what = "reversed segment"; return o;
        case GLine: o.p = g.p + r.u(-3, 3)*g.q; if (r.b()) o.q = -1.0*g.q; what = "line from another point"; return o;
        case GPlane: o.p = g.p + r.u(-3, 3)*anyPerp(g.q, r.u(0, 6.3)); if (r.b()) o.q = -1.0*g.q; what = "plane from another point"; return o;
        default: break;
    }
    if (g.cyl())
    {   // opposite axis, start at the other end
        o.c.f.o = g.c.f.at(0, 0, g.c.h); o.c.f.w = -1.0*g.c.f.w; o.c.f.v = -1.0*g.c.f.v; what = "cylinder surface from the other end"; return o;
    }
    if (g.m.isDisk)
    {
        const int k = r.i(3); if (k == 0) { o.m.f.u = -1.0*o.m.f.u; o.m.f.v = -1.0*o.m.f.v; } else if (k == 1) { o.m.f.u = -1.0*o.m.f.u; o.m.f.w = -1.0*o.m.f.w; } else { o.m.f.v = -1.0*o.m.f.v; o.m.f.w = -1.0*o.m.f.w; }
        what = "disk with flipped axes"; return o;
    }
    const int n = int(g.m.poly.size()); const int rot = r.i(n); std::rotate(o.m.poly.begin(), o.m.poly.begin() + rot, o.m.poly.end()); const bool rev = r.b(); if (rev) std::reverse(o.m.poly.begin(), o.m.poly.end());
    what = rev ? "corners in reverse order" : "corners renumbered";
    if (n == 4 && r.b()) { if (g.k == GQuad && supported(GPoly, partner.k)) { o.k = GPoly; what = "quadrilateral as polygon"; } else if (g.k == GPoly && supported(GQuad, partner.k)) { o.k = GQuad; what = "polygon as quadrilateral"; } }
    return o;
}
double near(const std::vector<Piece>& v, V3 x)
{ double b = 1e300; for (auto& p : v) b = std::min(b, p.distTo(x)); return b; }
// v: result of the related call; w: the original result mapped to it. tol in its units.
bool same(Case& c, const char* what, const std::vector<Piece>& w, const std::vector<Piece>& v, double tol, bool exact)
{
    auto bad = [&](const std::string& d) { c.fail(what, d + ": original (mapped) " + show(w) + " | related call " + show(v)); return false; };
    std::map<char,int> nw, nv; std::map<char,double> lw, lv; for (auto& p : w) { nw[p.t]++; lw[p.t] += p.len; } for (auto& p : v) { nv[p.t]++; lv[p.t] += p.len; }
    for (auto& [t, n] : nw) if (!nv.count(t) || (exact && nv[t] != n)) return bad(std::string("kind or number of pieces ") + t);
    for (auto& [t, n] : nv) if (!nw.count(t)) return bad(std::string("kind of pieces ") + t);
    for (auto& [t, l] : lw) if (t != 'L' && t != 'N' && std::abs(l - lv[t]) > 10*tol + 1e-6*l + (t == 'F' ? 20*tol*std::sqrt(l) : 0)) return bad(str("total size ", l, " and ", lv[t]));
    for (auto& p : w) for (auto& x : p.s) { const double d = near(v, x); if (d > tol) return bad(str("point ", x, " of the original result missed by ", d)); c.count("points compared"); }
    c.count(what); return true;
}
// generous margins: the structure of the intersection is the same if everything is shifted a little. amp: amplification of errors
bool clear(const Geo& A, const Geo& B, double s, double tol, double& amp)
{
    amp = 1; const double m = std::max(2e-3*s, 50*tol);
    if (A.k == GSeg)
    {
        const double d = distSegSeg(A.p, A.q, B.p, B.q); if (d > m) return true; const V3 u = A.q - A.p, w = B.q - B.p, n = cross(u, w); const double nn = std::sqrt(dot(n, n)/(dot(u,u)*dot(w,w)));
        if (nn < 0.02 || d > 1e-3*tol) return false; const double t = dot(cross(B.p - A.p, w), n)/dot(n, n); const V3 x = A.p + t*u; amp = 1/nn; return std::min(A.depth(x), B.depth(x)) > m;
    }
    if (A.k <= GPlane && B.k <= GPlane) { const bool pp = A.k == GPlane && B.k == GPlane; const double sn = pp ? norm(cross(A.q, B.q)) : std::abs(dot(A.q, B.q)); amp = 1/sn; return sn > 0.01; }
    if (A.k == GLine || B.k == GLine)
    { const Geo &l = A.k == GLine ? A : B, &f = A.k == GLine ? B : A; const double nd = dot(l.q, f.m.f.w); if (std::abs(nd) < 0.02) return false; const V3 x = l.p + (dot(f.m.f.o - l.p, f.m.f.w)/nd)*l.q; amp = 1/std::abs(nd); return std::abs(f.depth(x)) > m*amp; }
    if (A.cyl() && B.cyl()) return false;
    const Ref ref = reference(A, B); if (!ref.known) return false; if (A.flat() && B.flat()) { const double sn = norm(cross(A.m.f.w, B.m.f.w)); if (sn < 0.03) return false; amp = 1/sn; }
    else { const Geo& f = A.flat() ? A : B; const Cyl& y = A.flat() ? B.c : A.c; const double nw = std::abs(dot(f.m.f.w, y.f.w)); if (nw > 1e-9 && nw < 0.03) return false; if (nw > 1e-9) amp = 1/nw;
        if (nw <= 1e-9) { const double dd = std::abs(dot(f.m.f.o - y.f.o, f.m.f.w)); if (std::abs(dd - y.r) < 0.02*y.r) return false; amp = 10; } }
    const double sz[2] = {A.size(), B.size()}; const int N = int(std::min(30000.0, std::max(800.0, 400*std::max(sz[0], sz[1])/std::min(sz[0], sz[1])))); double L0 = 0, L1 = 0;
    for (auto& q : ref.curves)
    {
        auto lo = components(q, m, N), hi = components(q, -m, N); if (lo.size() != hi.size()) return false; auto L = [&](const Comp& k) { double l = 0; V3 a = q.at(k.t0); for (int i = 1; i <= 100; ++i) { const V3 b = q.at(k.t0 + (k.t1-k.t0)*i/100); l += dist(a, b); a = b; } return l; };
        for (size_t i = 0; i < lo.size(); ++i) { if (lo[i].full != hi[i].full) return false; L0 += L(lo[i]); L1 += L(hi[i]); }
    }
    const double K = (L1 - L0)/m; amp *= 1 + K; return amp < 300;
}
void judge(Rng& r, Case& c, const Geo& A, const Geo& B, double s, double amp, bool exact, double eps0, const std::vector<Piece>& base, bool swappable)
{
    const double tol = 30*amp*std::max(eps0, 1e-7); const bool empty = base.size() == 1 && base[0].t == '0'; c.nontrivial(); c.count("judged"); c.count(empty ? "empty" : "non-empty");
    if (swappable && !same(c, "swapped arguments", base, doIs(B, A), tol, exact)) return;
    { std::string wa, wb; const Geo A2 = r.b(0.7) ? other(r, A, B, wa) : A, B2 = wa.empty() || r.b() ? other(r, B, A2, wb) : B; if (supported(A2.k, B2.k)) { c.in << " other: " << wa << "/" << wb; if (!same(c, "other representation", base, doIs(A2, B2), tol, exact)) return; if (!wa.empty()) c.count("by " + wa); if (!wb.empty()) c.count("by " + wb); } }
    { Motion m; m.f = randFrame(r, randVec(r, 4*s)); auto w = base; double q; moveResult(w, m, q); c.in << " moved to " << m.f.o << m.f.u << m.f.v; const double off = 1 + norm(m.f.o)/1e6; if (!same(c, "rigid motion", w, doIs(moved(A, m), moved(B, m)), tol*off, exact)) return; }
    { Motion m; m.f.o = V3(0,0,0); m.f.u = V3(1,0,0); m.f.v = V3(0,1,0); m.f.w = V3(0,0,1); const double lo = std::max(1e-3, 2e-8/eps0); m.k = r.lu(std::min(lo, 1.0), 1e3); auto w = base; double q; moveResult(w, m, q); c.in << " scaled by " << m.k; double e2; auto v = doIs(moved(A, m), moved(B, m), 0, &e2);
      // lines and planes keep their absolute tolerance
      if (!same(c, "change of unit", w, v, std::max(tol*m.k, 30*amp*std::max(e2, 1e-7)), exact)) return; }
}
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    for (const auto& k : pairKinds())
    {
        const bool slow = k.b >= GCyl || k.a >= GCyl; if ((k.a == GCyl || k.a == GFace) && k.b == GFace && k.cf && k.a == GCyl) continue;
        const std::string n = std::string(gkName(k.a)) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "");
        section("general-" + n, slow ? 12 : 60, slow ? 250 : 1500, [&](Rng& r, Case& c)
        {
            Geo A, B; double s = r.lu(0.5, 20); randPair(r, k, s, A, B); s = std::min(s, std::min(A.size(), B.size())); c.in << "A="; A.describe(c.in); c.in << "B="; B.describe(c.in);
            double eps; std::vector<Piece> v; try { v = doIs(A, B, 0, &eps); } catch (const std::logic_error&) { throw; } catch (const std::runtime_error& e) { if (std::string(e.what()).find("NotImplemented") != std::string::npos) throw Skip{"documented as not implemented"}; throw; }
            if (eps < 2e-8 && A.k != GSeg) throw Skip{"default tolerance below what OpenCASCADE resolves"};
            double amp; if (!clear(A, B, s, eps, amp)) throw Skip{"close to a change of structure"};
            const bool faces = A.k == GFace || B.k == GFace; judge(r, c, A, B, s, amp, !faces, std::max(eps, 1e-9), v, true);
        });
        require("general-" + n + ":judged", 4);
    }
    for (int g = 0; g < 9; ++g)
    {
        section(std::string("special-") + specialGroup(g), g >= 4 ? 60 : 200, g >= 4 ? 1000 : 3000, [&](Rng& r, Case& c)
        {
            const double s = r.lu(0.5, 20); Special sp = randSpecial(r, g, s); if (sp.any || sp.tang || (g == 6 && sp.name.find("tangent") != std::string::npos)) throw Skip{"ambiguous"}; c.in << sp.name << " A="; sp.A.describe(c.in); c.in << "B="; sp.B.describe(c.in);
            double eps; const auto v = doIs(sp.A, sp.B, 0, &eps); if (eps < 2e-8) throw Skip{"default tolerance below what OpenCASCADE resolves"}; c.count("is " + sp.name); const bool faces = sp.A.k == GFace || sp.B.k == GFace;
            judge(r, c, sp.A, sp.B, s, 3*sp.amp, !faces, std::max(eps, 1e-9), v, true);
        });
        require(std::string("special-") + specialGroup(g) + ":judged", 15);
    }
    return finish();
}
