// C08: verdicts of the constraints against a three-valued model (holds / violated / too close to tell).
#include "isect_special.hh"
#include "cmodel.hh"
using namespace vf;
namespace {
template<class A_, class B_> Facts facts(Rng& r, const Geo& A, const Geo& B, const A_& a, const B_& b, double eps)
{
    Facts f; f.tol = 3*std::max(eps > 0 ? eps : std::min(F::defaultEpsilon(a), F::defaultEpsilon(b)), 1e-7);
    try { if (eps > 0) addPieces(f.v, F::intersect(a, b, eps)); else addPieces(f.v, F::intersect(a, b)); } catch (const std::runtime_error& e) { if (std::string(e.what()).find("NotImplemented") != std::string::npos && coplanar(A, B)) { f.failed = true; return f; } throw; }
    f.empty = f.v.size() == 1 && f.v[0].t == '0';
    if (!f.empty) { const Normal na = normalOf(A), nb = normalOf(B); for (auto& p : f.v) { double l, h; range(p, na, nb, l, h); f.aLo = std::min(f.aLo, l); f.aHi = std::min(f.aHi, h); } return f; }
    const Obj oa = objOf(A), ob = objOf(B); f.d = distanceBounds(oa, ob, 1e-4*(A.size() + B.size()), r); f.distKnown = true;
    if (A.cyl() || B.cyl() || oa.k == KDisk || ob.k == KDisk || oa.k == KStar || ob.k == KStar)
    {   // OpenCASCADE misses some minima of curved shapes (see C15): its answer only has to be an upper bound
        const double o1 = occDistance(oa.shape(), ob.shape()), o2 = occDistance(ob.shape(), oa.shape()); f.d[1] = std::max(f.d[1], std::max(o1, o2));
    }
    return f;
}
constexpr bool pointerKind(int k) { return k == GDisk || k == GQuad || k == GPoly; }
template<class T> std::shared_ptr<F::Geometry> pointer(const T& t) { return std::make_shared<T>(t); }
// random calls on the constraints object and the settings they leave
void setUp(Rng& r, Constraints& C, Settings& s, double len, double mag, double ang, double bd, std::ostream& log)
{
    const int n = r.i(1, 9); auto near = [&](double v) { static const double f[] = {0.5, 0.99, 1.01, 2, 0.1, 10}; return v > 0 && v < 1e200 && r.b(0.8) ? v*f[r.i(6)] : len*r.lu(1e-4, 2); };
    for (int i = 0; i < n; ++i) switch (r.i(11))
    {
        case 0: case 1: { s.d = r.b(0.05) ? 0 : near(len); s.uD = true; C.setMinDistance(s.d); log << " setMinDistance(" << s.d << ")"; break; }
        case 2: case 3: { s.a = r.b(0.05) ? 0 : r.b(0.7) && ang < 2 ? ang + (r.b() ? 1 : -1)*r.lu(1e-5, 0.3) : r.u(0, 1.6); s.uA = true; C.setMinIntersectingAngle(s.a); log << " setMinAngle(" << s.a << ")"; break; }
        case 4: case 5: { s.m = near(mag); s.uM = true; C.setMinIntersectionMagnitude(s.m); log << " setMinMagnitude(" << s.m << ")"; break; }
        case 6: case 7: { s.b = near(bd); s.uB = true; C.setMinIntersectionDistance(s.b); log << " setMinBoundaryDistance(" << s.b << ")"; break; }
        case 8: { const int k = r.i(4); log << " neglect" << k; if (k == 0) { C.neglectMinDistance(); s.uD = false; } else if (k == 1) { C.neglectMinIntersectionAngle(); s.uA = false; } else if (k == 2) { C.neglectMinIntersectionMagnitude(); s.uM = false; } else { C.neglectMinIntersectionDistance(); s.uB = false; } break; }
        case 9: { s.equi = r.b(0.6); C.allowEquiDimensionalIntersections(s.equi); log << " equi" << s.equi; break; }
        case 10: { if (r.b(0.4)) { s.uE = false; C.setDefaultIntersectionEpsilon(); log << " defaultEps"; } else { s.uE = true; s.eps = len*r.lu(1e-6, 1e-4); C.setIntersectionEpsilon(s.eps); log << " eps(" << s.eps << ")"; } break; }
    }
    if (r.b(0.1)) { Constraints copy(C); Constraints other; other.setMinDistance(1e9); other = copy; C = other; log << " copied"; }
}
const char* name(Tri t) { return t == Yes ? "accepted" : "rejected"; }
void pair(Rng& r, Case& c, const Geo& A, const Geo& B, double s)
{
    c.in << "A="; A.describe(c.in); c.in << "B="; B.describe(c.in);
    onPair(A, B, [&](const auto& a, const auto& b)
    {
        using TA = std::decay_t<decltype(a)>; using TB = std::decay_t<decltype(b)>;
        if constexpr (gkOf<TA>::v >= GDisk && gkOf<TB>::v >= GDisk)
        {
            const bool noAngle = (A.k == GCyl && B.k == GFace) || (A.k == GFace && B.k == GCyl);
            const Facts f0 = facts(r, A, B, a, b, 0); double mag = 0, bd = 1e300; for (auto& p : f0.v) { if (p.dim() > 0 && (mag == 0 || p.len < mag)) mag = p.len; if (p.dim() == 0 || p.dim() == 1) for (auto& x : {p.s.front(), p.s.back()}) for (auto* g : {&A, &B}) if (rim(*g, x) > 1e-4*s) bd = std::min(bd, rim(*g, x)); }
            Constraints C = r.b() ? Constraints() : F::makeDefaultConstraints<double>(); Settings S; const bool slow = A.k == GFace || B.k == GFace; const int rounds = slow ? 1 : r.i(1, 3);
            for (int k = 0; k < rounds; ++k)
            {
                setUp(r, C, S, f0.empty && f0.d[1] > 0 ? f0.d[1] : s, mag, f0.aHi, bd < 1e200 ? bd : 0, c.in); if (S.uA && noAngle) { C.neglectMinIntersectionAngle(); S.uA = false; }
                const Facts f = S.uE ? facts(r, A, B, a, b, S.eps) : f0; c.nontrivial(); c.count("asked");
                bool hasFace = false; for (auto& p : f.v) hasFace = hasFace || p.t == 'F';
                if (f.failed && S.any()) { c.count("intersection not implemented"); continue; }
                if (hasFace && S.equi && S.uB && !f.empty) { c.count("face boundary distance not implemented"); continue; }
                const Tri want = model(S, A, B, f); if (want == Unsure) { c.count("too close to tell"); continue; }
                c.count("judged"); c.count(name(want)); c.count(f.empty ? "apart" : "meeting"); if (!S.any()) c.count("no constraint");
                auto check = [&](const char* how, bool got) { if (got != (want == Yes)) { c.fail(how, str(how, " is ", got ? "accepted" : "rejected", ", expected ", name(want), " with ", S, " pieces ", show(f.v), " distance in [", f.d[0], ",", f.d[1], "] angle in [", f.aLo, ",", f.aHi, "]")); return false; } c.count(how); return true; };
                if (!check("pair", C.evaluate(a, b))) return;
                if (!check("swapped pair", C.evaluate(b, a))) return;
                if (slow && r.b(0.7)) continue;
                const std::vector<TA> va{a, a}; const std::vector<TB> vb{b};
                if (!check("set and entity", C.evaluate(va, b)) || !check("entity and set", C.evaluate(a, vb)) || !check("set and set", C.evaluate(va, vb))) return;
                if (!check("empty set", C.evaluate(std::vector<TA>{}, b) ? want == Yes : want != Yes)) return;
                if constexpr (pointerKind(gkOf<TA>::v)) { if (!check("pointer and entity", C.evaluate(pointer(a), b)) || !check("entity and pointer", C.evaluate(b, pointer(a)))) return; }
                if constexpr (pointerKind(gkOf<TA>::v) && pointerKind(gkOf<TB>::v)) { std::vector<std::shared_ptr<F::Geometry>> pv{pointer(a), pointer(a)}; if (!check("pointers", C.evaluate(pointer(a), pointer(b))) || !check("set of pointers", C.evaluate(pv, pointer(b))) || !check("set of pointers and entity", C.evaluate(pv, b))) return; }
            }
        }
    });
}
struct CountingEngine
{
    double value; std::shared_ptr<int> calls = std::make_shared<int>(0);
    template<class A, class B, class I> double operator()(const A&, const B&, const I&) const { ++*calls; return value; }
};
}
int main(int argc, char** argv)
{
    parse(argc, argv); allowHoles() = false;
    for (const auto& k : pairKinds())
    {
        if (k.a <= GPlane || k.b <= GPlane) continue;
        const bool slow = k.b >= GFace || k.a >= GFace; const std::string n = std::string(gkName(k.a)) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "");
        section("general-" + n, slow ? 16 : (k.a == GCyl || k.b == GCyl) ? 35 : 50, slow ? 400 : 3000, [&](Rng& r, Case& c)
        { Geo A, B; double s = r.lu(0.5, 20); randPair(r, k, s, A, B); if (r.b(0.25)) moveBy(B, randVec(r, 3*s)); s = std::min(s, std::min(A.size(), B.size())); pair(r, c, A, B, s); });
        require("general-" + n + ":judged", 3);
    }
    for (int g = 4; g < 9; ++g)
    {
        section(std::string("special-") + specialGroup(g), 60, 2000, [&](Rng& r, Case& c)
        { const double s = r.lu(0.5, 20); Special sp = randSpecial(r, g, s); if (sp.A.k <= GPlane || sp.B.k <= GPlane) throw Skip{"no second surface"}; c.in << sp.name << " "; c.count("is " + sp.name); pair(r, c, sp.A, sp.B, s); });
        require(std::string("special-") + specialGroup(g) + ":judged", 8);
    }
    // a cylinder cut right through: full ellipses
    section("full-cut", 60, 2000, [](Rng& r, Case& c)
    {
        const double s = r.lu(0.5, 20); const Geo C = randGeo(r, GCyl, randVec(r, 3*s), s); const V3 n = unit(C.c.f.w + r.u(0, 0.3)*anyPerp(C.c.f.w, r.u(0, 6.3))); const int k = r.pick(std::vector<int>{GDisk, GQuad, GPoly, GFace});
        Frame f; f.o = C.c.f.at(0, 0, C.c.h*r.u(0.1, 0.9)); f.w = n; f.u = anyPerp(n, r.u(0, 6.3)); f.v = cross(n, f.u); Geo G = flatAround(r, k, f, C.c.r*r.u(3, 6)); if (r.b()) { Geo D = C; if (r.b(0.3)) D.k = GFace; if (r.b()) pair(r, c, G, D, s); else pair(r, c, D.k == GFace || G.k == GFace ? G : D, D.k == GFace || G.k == GFace ? D : G, s); } else pair(r, c, G, C, s);
    });
    require("full-cut:judged", 25);
    // sets: accepted exactly if every member is
    section("sets", 150, 6000, [](Rng& r, Case& c)
    {
        const double s = r.lu(0.5, 20); const int n = r.i(1, 4), m = r.i(1, 3); std::vector<Geo> ga, gb; for (int i = 0; i < n; ++i) ga.push_back(randGeo(r, GDisk, randVec(r, 2*s), s)); for (int i = 0; i < m; ++i) gb.push_back(randGeo(r, GQuad, randVec(r, 2*s), s*r.u(0.3, 1)));
        Constraints C; Settings S; setUp(r, C, S, s*0.3, s*0.5, r.u(0, 1.5), 0.1*s, c.in); std::vector<FDisk> a; std::vector<Quad3> b; std::vector<std::shared_ptr<F::Geometry>> pa; for (auto& g : ga) { g.describe(c.in); a.push_back(fdisk(g.m)); pa.push_back(pointer(a.back())); } for (auto& g : gb) { g.describe(c.in); b.push_back(fquad(g.m)); }
        std::vector<std::vector<bool>> v(n, std::vector<bool>(m)); bool all = true; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { v[i][j] = C.evaluate(a[i], b[j]); all = all && v[i][j]; if (C.evaluate(b[j], a[i]) != v[i][j]) c.count("undecided by rounding"); }
        c.nontrivial(); c.count("judged"); c.count(all ? "accepted" : "rejected");
        auto check = [&](const char* how, bool got, bool want) { if (got != want) c.fail(how, str(how, " is ", got ? "accepted" : "rejected", " with ", S)); };
        check("set of disks and set of quads", C.evaluate(a, b), all); check("pointers and set of quads", C.evaluate(pa, b), all);
        for (int j = 0; j < m; ++j) { bool w = true; for (int i = 0; i < n; ++i) w = w && v[i][j]; check("set of disks and quad", C.evaluate(a, b[j]), w); check("quad and set of disks", C.evaluate(b[j], a), w); check("quad and set of pointers", C.evaluate(b[j], pa), w); }
        for (int i = 0; i < n; ++i) { bool w = true; for (int j = 0; j < m; ++j) w = w && v[i][j]; check("disk and set of quads", C.evaluate(a[i], b), w); check("pointer and set of quads", C.evaluate(pa[i], b), w); }
    });
    require("sets:accepted", 10); require("sets:rejected", 10);
    section("engine", 60, 1500, [](Rng& r, Case& c)
    {   // the angle engine given by the user decides
        const double s = r.u(1, 5); Geo A = randGeo(r, GDisk, V3(0,0,0), s), B = randGeo(r, GDisk, randVec(r, s), s); A.describe(c.in); B.describe(c.in); CountingEngine e{r.u(0, 1.5)}; const double thr = r.u(0, 1.5); F::EntityNetworkConstraints<double, CountingEngine> C(e); C.setMinIntersectingAngle(thr); c.in << e.value << " vs " << thr;
        std::vector<Piece> v; addPieces(v, F::intersect(fdisk(A.m), fdisk(B.m))); const bool empty = v[0].t == '0'; c.nontrivial(); c.count("judged"); const bool got = C.evaluate(fdisk(A.m), fdisk(B.m)); if (got != (empty || e.value >= thr)) c.fail("user-defined angle engine", str("verdict ", got)); if (*e.calls != (empty ? 0 : 1)) c.fail("user-defined angle engine not consulted", str(*e.calls, " calls"));
    });
    section("unsupported-pointer", 20, 100, [](Rng& r, Case& c)
    {   // pointers to geometries without a known class are refused
        c.nontrivial(); c.count("judged"); const double s = r.u(1, 3); c.in << s; Constraints C; C.setMinDistance(0.1); const Cyl y = randGeo(r, GCyl, V3(0,0,0), s).c; std::shared_ptr<F::Geometry> p = std::make_shared<FCylSurf>(gCyl(y).surf()); const FDisk d = fdisk(randGeo(r, GDisk, V3(0,0,0), s).m); if (!throws([&] { C.evaluate(p, d); })) c.fail("pointer to a cylinder surface", "not refused");
    });
    return finish();
}
