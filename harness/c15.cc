// C15: distances
#include "objs.hh"
#include <frackit/distance/distance.hh>
using namespace vf;
namespace {
V3 place(Rng& r, double s) { static const double f[] = {0, 1, 5, 50}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*s); }
void within(Case& c, const std::string& kind, double v, Interval w, double tol)
{ c.count("judged"); if (!(v >= w[0]-tol && v <= w[1]+tol)) c.fail(kind, str("distance ", v, ", true value in [", w[0], ", ", w[1], "]")); }
double frackitDistance(const Obj& a, const Obj& b, int how)
{
    if (how == 1) return F::computeDistance(a.shape(), b.shape());
    if (how == 2) { const auto s = a.shape(); return b.visit([&](const auto& g) -> double { return F::computeDistance(s, g); }); }
    if (how == 3) { const auto s = b.shape(); return a.visit([&](const auto& g) -> double { return F::computeDistance(g, s); }); }
    return a.visit([&](const auto& g) -> double { return b.visit([&](const auto& h) -> double { return F::computeDistance(g, h); }); });
}
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("analytic", 6000, 120000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s), a = o, b = o + s*randVec(r, 1), p = r.b(0.2) ? a + r.u(-1,2)*(b-a) : o + s*randVec(r, 2); const double e = 1e-12*(s + norm(o)) + 2e-7*dist(a,b);
        c.in << "p=" << p << " a=" << a << " b=" << b; c.nontrivial();
        within(c, "point-point", F::computeDistance(fp(p), fp(a)), {dist(p,a), dist(p,a)}, 1e-14*(s+norm(o)));
        const double dl = distPointLine(p, a, b-a); const Line3 L(fp(a), fd(b-a)); within(c, "point-line", F::computeDistance(fp(p), L), {dl, dl}, e*1e-3 + 1e-11*(s+norm(o))); within(c, "line-point", F::computeDistance(L, fp(p)), {dl, dl}, e*1e-3 + 1e-11*(s+norm(o)));
        const double ds = distPointSegment(p, a, b); within(c, "point-segment", F::computeDistance(fp(p), Seg3(fp(a), fp(b))), {ds, ds}, e); within(c, "segment-point", F::computeDistance(Seg3(fp(a), fp(b)), fp(p)), {ds, ds}, e);
    });
    // objects bounded by straight lines only, or one of them without curves: exact
    section("pairs", 5000, 150000, [](Rng& r, Case& c) {
        const std::vector<int> flat{KPoint, KSegment, KQuad, KPolygon, KStar, KBox}; int ka = r.pick(flat), kb = r.pick(flat); double s = r.pick(std::vector<double>{0.1, 1, 10, 100, 1000})*r.u(0.5, 2);
        if (r.b(0.4)) { ka = r.i(2); kb = r.i(NKinds); if (r.b()) std::swap(ka, kb); }
        const V3 o = place(r, s); const double far = r.b(0.3) ? 4 : 1.5;
        const Obj a = randObj(r, ka, o, s), b = randObj(r, kb, o + randVec(r, far*s), s*r.lu(0.2, 2)); const int how = r.i(4); a.describe(c.in); b.describe(c.in); c.in << "how=" << how;
        const Interval w = distanceBounds(a, b, 1e-6*s, r); const double v = frackitDistance(a, b, how), t = 3e-6*s + 1e-10*norm(o) + 2e-7;
        c.nontrivial(); const std::string n = std::string(kindName(std::min(ka,kb))) + "-" + kindName(std::max(ka,kb)); c.count(w[1] < 1e-6*s ? "meeting" : "apart"); if (w[1]-w[0] < 1e-5*s) c.count("two-sided");
        // OpenCASCADE takes points less than 1e-3 deep inside a solid as points on its surface
        const double in = w[1] < t && (ka >= KBox || kb >= KBox) ? 1.1e-3 : 0;
        within(c, n, v, {w[0], w[1] + in}, t);
        const double v2 = frackitDistance(b, a, r.i(4)); c.count("judged"); if (std::abs(v - v2) > 2*t + in) c.fail("symmetry-" + n, str("distance ", v, " one way, ", v2, " the other way"));
    });
    // two curved objects: OpenCASCADE's extrema search is approximate now and then (see DESIGN.md); an answer that is
    // too large must be the one OpenCASCADE itself gives for the two shapes, none may be too small, and most must be exact
    section("curved", 160, 4000, [](Rng& r, Case& c) {
        int exact = 0, n = 0; c.nontrivial(std::to_string(c.idx));
        for (int i = 0; i < 30; ++i)
        {
            const std::vector<int> cur{KCircle, KEllipse, KArc, KDisk, KDisk, KLateral, KSphere, KCylinder}; int ka = r.pick(cur), kb = r.b(0.3) ? 2 + r.i(NKinds-2) : r.pick(cur); if (r.b()) std::swap(ka, kb); const double s = r.u(0.5, 15); const V3 o = place(r, s); const double far = r.b(0.3) ? 4 : 1.5;
            const Obj a = randObj(r, ka, o, s), b = randObj(r, kb, o + randVec(r, far*s), s*r.lu(0.2, 2)); const int how = r.i(4); c.in.str(""); a.describe(c.in); b.describe(c.in); c.in << "how=" << how;
            const Interval w = distanceBounds(a, b, 1e-5*s, r); const double v = frackitDistance(a, b, how), t = 3e-5*s + 1e-10*norm(o); ++n; if (v >= w[0] - t && v <= w[1] + t) ++exact;
            c.count(w[1] < 1e-5*s ? "meeting" : "apart"); if (w[1]-w[0] < 1e-4*s) c.count("two-sided"); const std::string k = std::string(kindName(std::min(ka,kb))) + "-" + kindName(std::max(ka,kb));
            const bool miss = v > w[1] + t && occMiss(v, a.shape(), b.shape(), t); if (miss) c.count("occ-miss");
            within(c, k, v, {w[0], w[1] + (miss ? 0.4*s : 0)}, t); const double v2 = frackitDistance(b, a, r.i(4)); c.count("judged"); if (std::abs(v-v2) > (miss || occMiss(v2, a.shape(), b.shape(), t) ? 0.4*s : 3*t)) c.fail("symmetry-" + k, str("distance ", v, " one way, ", v2, " the other way"));
        }
        c.count("exact", exact); if (exact < 24) c.fail("inexact", str("only ", exact, " of ", n, " distances are exact"));
    });
    // fixed inputs for which the answer is known to be wrong (known_findings.json)
    section("curved-fixed", 1, 1, [](Rng&, Case& c) {
        Obj a, b; a.k = b.k = KEllipse; a.m.f = {V3(-173.6,-103.9,-98.5), V3(0,-1,0), V3(0,0,-1), V3(1,0,0)}; a.m.a = 88.6; a.m.b = 81.5; b.m.f = {V3(-121.9,115.3,183.5), V3(-1,0,0), V3(0,-1,0), V3(0,0,1)}; b.m.a = 52.3; b.m.b = 18.8;
        within(c, "point-in-box", F::computeDistance(P3(0.5, 0.5, 0.9995), FBox(0, 0, 0, 1, 1, 1)), {0, 0}, 1e-6);
        a.describe(c.in); b.describe(c.in); c.nontrivial(); Rng r(1); within(c, "ellipse-ellipse", frackitDistance(a, b, 0), distanceBounds(a, b, 1e-4, r), 1e-2); within(c, "ellipse-ellipse-swapped", frackitDistance(b, a, 0), distanceBounds(a, b, 1e-4, r), 1e-2);
    });
    section("lists", 400, 12000, [](Rng& r, Case& c) {
        const double s = r.u(0.5, 15); const V3 o = place(r, s); const bool close = r.b(0.25); const Obj a = randObj(r, close ? KPoint : r.i(NKinds), o, s); const int k = close ? (int)KPoint : r.i(NKinds); const int n = r.i(1, 5); std::vector<Obj> v; for (int i = 0; i < n; ++i) { v.push_back(randObj(r, k, o + randVec(r, 4*s), 0.5*s)); if (close) { v.back().p = a.p + r.lu(1e-9, 1)*s*unit(randVec(r, 1.0)); c.count("close points"); } }
        a.describe(c.in); for (auto& x : v) x.describe(c.in); c.nontrivial(); double want = 1e300; for (auto& x : v) want = std::min(want, frackitDistance(a, x, 0));
        double got = -1;
        a.visit([&](const auto& g) -> int { return v[0].visit([&](const auto& h0) -> int { std::vector<std::decay_t<decltype(h0)>> L; for (auto& x : v) x.visit([&](const auto& h) -> int { if constexpr (std::is_same_v<std::decay_t<decltype(h)>, std::decay_t<decltype(h0)>>) L.push_back(h); return 0; }); got = F::computeDistance(g, L); return 0; }); });
        within(c, "list", got, {want, want}, 1e-12*s);
        // variants and lists of variants
        using V = std::variant<P3, Seg3, Arc3>; std::vector<V> L; double w2 = 1e300; for (int i = 0; i < n; ++i) { Obj x = randObj(r, std::vector<int>{KPoint, KSegment, KArc}[r.i(3)], o + randVec(r, 4*s), 0.5*s); if (close && x.k == KPoint) x.p = a.p + r.lu(1e-9, 1)*s*unit(randVec(r, 1.0)); x.describe(c.in); if (x.k == KPoint) L.push_back(fp(x.p)); else if (x.k == KSegment) L.push_back(Seg3(fp(x.p), fp(x.q))); else L.push_back(x.arc()); w2 = std::min(w2, frackitDistance(a, x, 0)); }
        double g2 = -1; a.visit([&](const auto& g) -> int { g2 = F::computeDistance(g, L); return 0; }); within(c, "variants", g2, {w2, w2}, 1e-12*s);
    });
    require("analytic:judged", 20000); require("pairs:meeting", 60); require("pairs:apart", 1500); require("pairs:two-sided", 2000); require("curved:meeting", 300); require("curved:two-sided", 1000); require("lists:judged", 600);
    return finish();
}
