// C05: the pieces cover exactly the common points, with the right kind.
#include "isect_special.hh"
using namespace vf;
static double tolOf(double eps) { return 10*std::max(eps, 1e-7); }
static bool call(const Geo& A, const Geo& B, double epsIn, double& eps, std::vector<Piece>& v, Case& c)
{
    c.in << "eps=" << epsIn << " A="; A.describe(c.in); c.in << "B="; B.describe(c.in);
    try { v = doIs(A, B, epsIn, &eps); }
    catch (const std::logic_error&) { throw; }
    catch (const std::runtime_error& e) { if (std::string(e.what()).find("NotImplemented") != std::string::npos && coplanar(A, B)) throw Skip{"documented as not implemented"}; throw; }
    return true;
}
static bool faceCase(const Geo& A, const Geo& B) { return A.k == GFace || B.k == GFace; }
static void general(Rng& r, Case& c, const PairKind& k, double s)
{
    Geo A, B; randPair(r, k, s, A, B); s = std::min(s, std::min(A.size(), B.size())); double eps; std::vector<Piece> v; call(A, B, r.b(0.2) ? s*r.lu(1e-7, 1e-5) : 0, eps, v, c); const double tol = tolOf(eps);
    if (eps < 1e-8) throw Skip{"default tolerance below what OpenCASCADE resolves"};
    const bool empty = v.size() == 1 && v[0].t == '0';
    auto fail = [&](const char* kind, const std::string& d = "") { c.fail(kind, d + " got: " + show(v)); };
    auto judged = [&](const char* w) { c.count("judged"); c.count(w); c.nontrivial(); };
    if (A.k == GSeg)
    {
        const double d = distSegSeg(A.p, A.q, B.p, B.q); if (d > 3*tol) { judged("apart"); if (!empty) fail("apart but not empty"); return; }
        // crossing point of the lines
        const V3 u = A.q - A.p, w = B.q - B.p, n = cross(u, w); const double nn = dot(n, n); if (nn < 1e-3*dot(u,u)*dot(w,w)) return;
        const double t = dot(cross(B.p - A.p, w), n)/nn; const V3 x = A.p + t*u; if (std::min(A.depth(x), B.depth(x)) < 1e-3*s || d > 0.1*eps) return;
        judged("crossing"); if (v.size() != 1 || v[0].t != 'P' || dist(v[0].s[0], x) > tol) fail("crossing segments"); return;
    }
    if (A.k <= GPlane && B.k <= GPlane)
    {
        const bool pp = A.k == GPlane && B.k == GPlane; const double sn = pp ? norm(cross(A.q, B.q)) : std::abs(dot(A.q, B.q));
        if (sn < 1e-3) return; judged("transversal"); if (v.size() != 1 || v[0].t != (pp ? 'L' : 'P')) return fail("kind of a transversal intersection");
        if (pp) { if (norm(cross(v[0].u, unit(cross(A.q, B.q)))) > 1e-7) fail("direction of the line"); }
        return;
    }
    if (A.k == GLine || B.k == GLine)
    {
        const Geo &l = A.k == GLine ? A : B, &f = A.k == GLine ? B : A; const double nd = dot(l.q, f.m.f.w); if (std::abs(nd) < 1e-3) return; const V3 x = l.p + (dot(f.m.f.o - l.p, f.m.f.w)/nd)*l.q; const double d = f.depth(x), m = 1e-4*s;
        if (std::abs(d) < m) return; judged(d > 0 ? "through" : "beside");
        if (d < 0) { if (!empty) fail("beside the shape but not empty"); return; }
        if (v.size() != 1 || v[0].t != 'P' || dist(v[0].s[0], x) > tol/std::abs(nd) + 1e-12*dist(l.p, x)) fail("line through the shape"); return;
    }
    const Ref ref = reference(A, B);
    if (!ref.known)
    {   // two cylinder surfaces: common points by rulings of A against B
        const Cyl &a = A.c, &b = B.c; long n = 0;
        if (!(A.cyl() && B.cyl())) return;
        for (int i = 0; i < 90; ++i)
        {
            const double th = 2*M_PI*i/90; const V3 p = a.f.at(a.r*std::cos(th), a.r*std::sin(th)), l = b.f.local(p), d{dot(a.f.w, b.f.u), dot(a.f.w, b.f.v), dot(a.f.w, b.f.w)};
            const double qa = d.x*d.x + d.y*d.y, qb = l.x*d.x + l.y*d.y, qc = l.x*l.x + l.y*l.y - b.r*b.r, D = qb*qb - qa*qc; if (qa < 1e-2 || D < 1e-2*b.r*b.r*qa) continue;
            for (int sg = -1; sg <= 1; sg += 2) { const double t = (-qb + sg*std::sqrt(D))/qa; const double z = l.z + t*d.z; const double m = 1e-3*s; if (std::min(std::min(t, a.h - t), std::min(z, b.h - z)) < m) continue; ++n; const V3 x = p + t*a.f.w; double best = 1e300; for (auto& q : v) best = std::min(best, q.distTo(x)); c.count("covered points"); if (best > 100*tol) { std::ostringstream o; o << x << " missed by " << best; fail("common point missed", o.str()); return; } }
        }
        if (n) judged("cylinders"); return;
    }
    if (ref.parallel && A.flat() && B.flat()) return;   // C05 special positions
    const double mm = 1e-3*s, fine = 20*tol; size_t nLo = 0, nHi = 0; bool full = false; double lenLo = 0, lenHi = 0; std::vector<Comp> mid; char kind = 'S'; double amb = 0;
    std::vector<std::pair<const RefCurve*, Comp>> comps; const double sz[2] = {A.size(), B.size()}; const int N = int(std::min(30000.0, std::max(1200.0, 400*std::max(sz[0], sz[1])/std::min(sz[0], sz[1]))));
    for (auto& q : ref.curves)
    {
        auto lo = components(q, mm, N), hi = components(q, -mm, N), at = components(q, 0, N); if (lo.size() != hi.size() || lo.size() != at.size()) return; nLo += lo.size(); nHi += hi.size(); kind = q.kind;
        for (size_t i = 0; i < lo.size(); ++i) if (lo[i].full != hi[i].full) return; else full = full || lo[i].full;
        auto L = [&](const Comp& m) { double l = 0; const int N = 400; V3 a = q.at(m.t0); for (int i = 1; i <= N; ++i) { const V3 b = q.at(m.t0 + (m.t1-m.t0)*i/N); l += dist(a, b); a = b; } return l; };
        for (auto& x : components(q, fine, N)) lenLo += L(x); for (auto& x : components(q, -fine, N)) lenHi += L(x); for (auto& x : at) comps.push_back({&q, x});
    }
    (void)amb;
    if (ref.curves.empty() || comps.empty())
    {   // apart unless nearly tangential
        if (A.cyl() != B.cyl()) { const Geo& f = A.flat() ? A : B; const Cyl& y = A.flat() ? B.c : A.c; if (ref.parallel && std::abs(std::abs(dot(f.m.f.o - y.f.o, f.m.f.w)) - y.r) < mm) return; }
        judged("apart"); if (!empty) fail("apart but not empty"); return;
    }
    judged(full ? "closed" : comps.size() > 1 ? "several components" : "one component");
    if (empty) return fail("intersection missed");
    // coverage
    for (auto& [q, x] : comps) for (int i = 0; i <= 24; ++i)
    {
        const double t = x.t0 + (x.t1-x.t0)*i/24; if (q->g(t) < fine) continue; const V3 y = q->at(t); double best = 1e300; for (auto& p : v) best = std::min(best, p.distTo(y)); c.count("covered points");
        if (best > 3*tol) { std::ostringstream o; o << std::setprecision(12) << y << " is inside both by " << q->g(t) << " but missed by " << best; return fail("common point missed", o.str()); }
    }
    double len = 0; for (auto& p : v) if (p.dim() == 1) len += p.len;
    if (len < lenLo*(1 - 1e-4) - fine || len > lenHi*(1 + 1e-4) + fine) { std::ostringstream o; o << std::setprecision(12) << "total length " << len << " expected between " << lenLo << " and " << lenHi; return fail("length of the intersection", o.str()); }
    for (auto& p : v) if (p.dim() != 1) return fail("unexpected kind of piece");
    if (faceCase(A, B)) { for (auto& p : v) if (p.t != 'e') return fail("unexpected kind of piece"); return; }
    if (v.size() != comps.size()) return fail("number of pieces");
    for (auto& p : v) if (p.t != (full ? 'E' : kind)) return fail("kind of piece");
}
static void special(Rng& r, Case& c, int g)
{
    const double s = g >= 4 ? r.lu(0.5, 20) : r.b(0.3) ? std::max(0.05, randScale(r)) : r.lu(0.5, 20); Special sp = randSpecial(r, g, s); if (sp.any) throw Skip{"ambiguous"};
    c.in << sp.name << " "; double eps; std::vector<Piece> v; call(sp.A, sp.B, 0, eps, v, c); const double tol = sp.amp*3*tolOf(eps) + (sp.tang ? std::sqrt(2*s*1e-2*eps) : 0); const bool fc = faceCase(sp.A, sp.B);
    c.count("judged"); c.count("is " + sp.name); c.nontrivial();
    auto fail = [&](const char* kind, const std::string& d = "") { std::ostringstream o; o << sp.name << ": " << d << " expected "; for (auto& e : sp.ex) { o << e.t; if (!e.s.empty()) o << e.s.front() << e.s.back(); o << " len=" << e.len << ";"; } o << " got " << show(v); c.fail(sp.name + ": " + kind, o.str()); };
    const bool empty = v.size() == 1 && v[0].t == '0';
    if (sp.ex.empty()) { if (!empty) fail("not empty"); return; }
    if (empty) { if (sp.tang) { c.count("tangential contact not found"); return; } return fail("missed"); }
    auto norm_ = [&](char t) { return fc && (t == 'S' || t == 'A' || t == 'E') ? 'e' : t; };
    std::map<char,double> len, want; std::map<char,int> n, nw; for (auto& p : v) { len[p.t] += p.len; n[p.t]++; } for (auto& e : sp.ex) { want[norm_(e.t)] += e.len; nw[norm_(e.t)]++; }
    for (auto& [t, k] : n) if (!nw.count(t)) return fail("kind of piece");
    for (auto& [t, k] : nw) { if (!n.count(t)) return fail("kind of piece"); if (t != 'e' && t != 'F' && n[t] != k) return fail("number of pieces"); }
    for (auto& [t, l] : want) if (std::abs(len[t] - l) > 10*tol + (t == 'F' ? 1e-3*l + 10*tol*s : 1e-7*l)) { std::ostringstream o; o << std::setprecision(12) << "size " << len[t] << " instead of " << l; return fail("size", o.str()); }
    for (auto& e : sp.ex) for (auto& x : e.s) { double best = 1e300; for (auto& p : v) if (p.t == norm_(e.t)) best = std::min(best, p.distTo(x)); c.count("covered points"); if (best > tol) { std::ostringstream o; o << std::setprecision(12) << x << " missed by " << best; return fail("point missed", o.str()); } }
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    for (const auto& k : pairKinds())
    {
        const bool slow = k.b >= GCyl || k.a >= GCyl; const std::string n = std::string(gkName(k.a)) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "");
        section("general-" + n, slow ? 30 : 120, slow ? 400 : 1500, [&](Rng& r, Case& c) { general(r, c, k, (k.b == GFace || k.a == GFace || !r.b(0.3)) ? r.lu(0.5, 20) : std::max(0.05, randScale(r))); });
    }
    for (int g = 0; g < 9; ++g) section(std::string("special-") + specialGroup(g), g >= 4 ? 180 : 500, g >= 4 ? 2500 : 6000, [&](Rng& r, Case& c) { special(r, c, g); });
    for (const auto& k : pairKinds()) require(std::string("general-") + gkName(k.a) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "") + ":judged", 8);
    for (int g = 0; g < 9; ++g) require(std::string("special-") + specialGroup(g) + ":judged", 40);
    return finish();
}
