// C02: samplers of disks, quadrilaterals and polygons
#define VERIF_DETERMINISTIC_DEVICE
#include "fk.hh"
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
using namespace vf;
namespace {
V3 place(Rng& r, double s) { static const double f[] = {0, 1, 5, 50}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*s); }
struct Runaway {};
// what each distribution returned, by role
struct Role { std::function<double(long)> next; long n = 0; double last = 0; };
Role roles[8];
enum { Maj, Mnr, AX, AY, AZ, Num };   // strike, dip angle: AX, AY; strike, dip length: Maj, Mnr
template<int k, class T = double> struct Rec
{
    template<class G> T operator()(G&) { Role& q = roles[k]; if (q.n > 1000000) throw Runaway{}; q.last = q.next(q.n++); return T(q.last); }
};
struct DiskTraits { using MajorAxisLengthDistribution = Rec<Maj>; using MinorAxisLengthDistribution = Rec<Mnr>; using XAngleDistribution = Rec<AX>; using YAngleDistribution = Rec<AY>; using ZAngleDistribution = Rec<AZ>; };
struct PolyTraits { using StrikeAngleDistribution = Rec<AX>; using DipAngleDistribution = Rec<AY>; using StrikeLengthDistribution = Rec<Maj>; using DipLengthDistribution = Rec<Mnr>; using NumCornersDistribution = Rec<Num, int>; };
V3 lastCenter; long nCenters; V3 around; double spread; Rng* rng;
struct Points : F::PointSampler<P3> { P3 operator()() override { ++nCenters; lastCenter = around + randVec(*rng, spread); return fp(lastCenter); } };
V3 turn(V3 v, V3 a, double t) { return std::cos(t)*v + std::sin(t)*cross(a, v) + ((1-std::cos(t))*dot(a, v))*a; }
double randAngle(Rng& r) { switch (r.i(6)) { case 0: return 0; case 1: return 0.5*M_PI*r.i(-4, 4); case 2: return r.u(-20, 20); case 3: return r.u(-1e-3, 1e-3); default: return r.u(0, 2*M_PI); } }
// lengths: sometimes a number of inadmissible values first
std::function<double(long)> lengths(Rng& r, double s, long bad, bool zero)
{ auto good = [&r, s] { return s*r.lu(0.1, 1); }; return [=, &r](long n) mutable { if (n % (bad+1) < bad) return zero && r.b(0.3) ? 0.0 : -s*r.lu(0.01, 1); return good(); }; }
void reset(Rng& r, V3 c, double s) { for (auto& q : roles) { q.n = 0; q.next = [](long) { return 0.0; }; } for (int k : {AX, AY, AZ}) roles[k].next = [&r](long) { return randAngle(r); }; around = c; spread = 0.3*s; rng = &r; nCenters = 0; }
// the corners of a polygon drawn from the current roles
void judgePolygon(Case& c, const std::vector<V3>& p, int n, double s, double off, V3 center)
{
    const double strike = roles[AX].last, dip = roles[AY].last; c.count("judged");
    const V3 yd(-std::sin(strike), std::cos(strike), 0), xd = turn(V3(std::cos(strike), std::sin(strike), 0), yd, dip), nn = cross(xd, yd); const double tol = 1e-9*s + 1e-12*off;
    if (int(p.size()) != n) { c.fail("corners", str(n, " corners drawn, ", p.size(), " corners")); return; }
    double lo[3], hi[3], bl[3], bh[3]; for (int k = 0; k < 3; ++k) { lo[k] = bl[k] = 1e300; hi[k] = bh[k] = -1e300; }
    for (auto& q : p) { const V3 l(dot(q, xd), dot(q, yd), dot(q, nn)); for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], l[k]); hi[k] = std::max(hi[k], l[k]); bl[k] = std::min(bl[k], q[k]); bh[k] = std::max(bh[k], q[k]); } }
    if (hi[2]-lo[2] > tol) c.fail("plane", str("corners leave the plane given by strike ", strike, " and dip ", dip, " by ", hi[2]-lo[2]));
    const double Ld = roles[Mnr].last, Ls = roles[Maj].last;
    if (!(hi[0]-lo[0] >= 0.8*Ld - tol && hi[0]-lo[0] <= Ld + tol)) c.fail("dip-length", str("drawn ", Ld, ", extent ", hi[0]-lo[0]));
    if (!(hi[1]-lo[1] >= 0.8*Ls - tol && hi[1]-lo[1] <= Ls + tol)) c.fail("strike-length", str("drawn ", Ls, ", extent ", hi[1]-lo[1]));
    const V3 mid(0.5*(bl[0]+bh[0]), 0.5*(bl[1]+bh[1]), 0.5*(bl[2]+bh[2])); if (dist(mid, center) > tol) c.fail("center", str("drawn centre ", center, ", centre of the bounding box ", mid));
    // convex and in cyclic order: all turns to the same side, once around
    double total = 0; int pos = 0, neg = 0; for (int i = 0; i < n; ++i)
    { const V3 a = p[(i+1)%n]-p[i], b = p[(i+2)%n]-p[(i+1)%n]; const double cr = dot(cross(a, b), nn), t = 1e-9*norm(a)*norm(b) + 1e-12*(s+off)*(norm(a)+norm(b)); total += std::atan2(cr, dot(a, b)); if (cr > t) ++pos; if (cr < -t) ++neg; if (norm(a) == 0) c.fail("degenerate", "two corners coincide"); }
    if (pos && neg) c.fail("convex", str("the polygon is not convex: ", pos, " left turns, ", neg, " right turns")); else if (std::abs(std::abs(total) - 2*M_PI) > 1e-3) c.fail("convex", str("the corners turn by ", total));
}
std::string lastRoles() { return str("lengths ", roles[Maj].last, " ", roles[Mnr].last, " angles ", roles[AX].last, " ", roles[AY].last, " ", roles[AZ].last, " n=", roles[Num].last, " centre ", lastCenter); }
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("disk", 4000, 150000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); reset(r, o, s); const long bad = r.b(0.7) ? 0 : r.i(1, 30); roles[Maj].next = lengths(r, s, bad, true); roles[Mnr].next = lengths(r, s, r.b() ? bad : 0, true); c.in << "s=" << s << " o=" << o << " bad=" << bad; c.nontrivial();
        F::DiskSampler<double, DiskTraits> sampler(Points{}, Rec<Maj>{}, Rec<Mnr>{}, Rec<AX>{}, Rec<AY>{}, Rec<AZ>{}); const double tol = 1e-12*(s+norm(o));
        for (int i = 0; i < 6; ++i)
        {
            nCenters = 0; const auto d = sampler(); c.count("judged"); const double a = roles[Maj].last, b = std::min(a, roles[Mnr].last); if (b < roles[Mnr].last) c.count("minor-above-major");
            if (dist(rp(d.center()), lastCenter) > tol || nCenters != 1) c.fail("center", str("drawn ", lastCenter, ", disk at ", rp(d.center())));
            if (std::abs(d.majorAxisLength() - a) > 1e-12*s || std::abs(d.minorAxisLength() - b) > 1e-12*s) c.fail("size", str("drawn ", a, " ", roles[Mnr].last, ", disk ", d.majorAxisLength(), " ", d.minorAxisLength()));
            auto all = [](V3 v) { return turn(turn(turn(v, V3(1,0,0), roles[AX].last), V3(0,1,0), roles[AY].last), V3(0,0,1), roles[AZ].last); };
            const V3 e1 = all(V3(1,0,0)), e2 = all(V3(0,1,0)), e3 = all(V3(0,0,1));
            if (dist(rd(d.majorAxis()), e1) > 1e-9 || dist(rd(d.minorAxis()), e2) > 1e-9 || dist(rd(d.normal()), e3) > 1e-9) c.fail("orientation", str("expected axes ", e1, e2, e3, ", disk ", rd(d.majorAxis()), rd(d.minorAxis()), rd(d.normal()), "; ", lastRoles()));
            if (!(d.minorAxisLength() > 0 && d.minorAxisLength() <= d.majorAxisLength())) c.fail("admissible", str("axes ", d.majorAxisLength(), " ", d.minorAxisLength()));
        }
    });
    auto polygons = [](Rng& r, Case& c, bool quad) {
        const double s = r.b(0.1) ? r.lu(1e-6, 1e-3) : randScale(r); const V3 o = place(r, s); reset(r, o, s); const long bad = r.b(0.7) ? 0 : r.i(1, 40); const int nmax = r.b(0.2) ? 40 : 8; roles[Maj].next = lengths(r, s, bad, true); roles[Mnr].next = lengths(r, s*(r.b(0.3) ? r.lu(0.02, 1) : 1), r.b() ? bad : 0, true);
        const long badN = r.b(0.7) ? 0 : r.i(1, 40); roles[Num].next = [&r, badN, nmax](long n) { return n % (badN+1) < badN ? double(r.i(-5, 2)) : double(r.i(3, nmax)); }; c.in << "quad=" << quad << " s=" << s << " o=" << o << " bad=" << bad << "," << badN; c.nontrivial(); if (bad || badN) c.count("with-inadmissible");
        F::PolygonSampler<3, double, PolyTraits> ps(Points{}, Rec<AX>{}, Rec<AY>{}, Rec<Maj>{}, Rec<Mnr>{}, Rec<Num, int>{}); F::QuadrilateralSampler<3, double, PolyTraits> qs(Points{}, Rec<AX>{}, Rec<AY>{}, Rec<Maj>{}, Rec<Mnr>{});
        for (int i = 0; i < 6; ++i)
        {
            std::vector<V3> p; int n = 4; nCenters = 0;
            if (quad) { const auto q = qs(); for (int k : {0, 1, 3, 2}) p.push_back(rp(q.corner(k))); }
            else { const auto q = ps(); n = int(roles[Num].last); for (unsigned int k = 0; k < q.numCorners(); ++k) p.push_back(rp(q.corner(k))); if (!q.isConvex()) c.fail("convex", "the polygon class takes the sampled polygon as not convex"); }
            judgePolygon(c, p, n, s, norm(o), lastCenter);
        }
    };
    section("polygon", 3000, 100000, [&](Rng& r, Case& c) { polygons(r, c, false); });
    section("quadrilateral", 2000, 60000, [&](Rng& r, Case& c) { polygons(r, c, true); });
    // distributions that (almost) never produce admissible values
    section("inadmissible", 300, 3000, [](Rng& r, Case& c) {
        const double s = r.lu(0.01, 100); reset(r, V3(0,0,0), s); const int which = r.i(4); const long bad = r.b(0.3) ? 1000000000 : r.i(30, 200); c.in << "which=" << which << " bad=" << bad; c.nontrivial();
        roles[Maj].next = lengths(r, s, which == 0 || which == 3 ? bad : 0, true); roles[Mnr].next = lengths(r, s, which == 1 || which == 3 ? bad : 0, true); roles[Num].next = [&, which, bad](long n) { return which == 2 && n % (bad+1) < bad ? r.i(-3, 2) : r.i(3, 8); };
        F::PolygonSampler<3, double, PolyTraits> ps(Points{}, Rec<AX>{}, Rec<AY>{}, Rec<Maj>{}, Rec<Mnr>{}, Rec<Num, int>{});
        try { const auto q = ps(); std::vector<V3> p; for (unsigned int k = 0; k < q.numCorners(); ++k) p.push_back(rp(q.corner(k))); judgePolygon(c, p, int(roles[Num].last), s, 0, lastCenter); c.count("returned"); if (bad > 1000000) c.fail("impossible", "a polygon was returned without an admissible draw"); }
        catch (const std::exception& e) { c.count("threw"); if (bad < 90) c.fail("gave-up", str("gave up after ", bad, " inadmissible draws: ", e.what())); }
        catch (const Runaway&) { c.fail("unbounded", "more than a million redraws"); }
    });
    // the sampler that takes edge lengths and a minimum edge length (deprecated, but still offered)
    section("edge-lengths", 1500, 40000, [](Rng& r, Case& c) {
        const double s = randScale(r); const V3 o = place(r, s); reset(r, o, s); const double mean = s, dev = s*r.pick(std::vector<double>{0.05, 0.5, 1.0}), mn = s*r.pick(std::vector<double>{0.01, 0.3, 1.0}); c.in << "s=" << s << " o=" << o << " dev=" << dev << " min=" << mn; c.nontrivial();
        F::QuadrilateralSampler<3, double, PolyTraits> qs(Points{}, Rec<AX>{}, Rec<AY>{}, std::normal_distribution<double>(mean, dev), mn);
        for (int i = 0; i < 4; ++i)
        {
            const auto q = qs(); V3 p[4]; for (int k = 0; k < 4; ++k) p[k] = rp(q.corner(k)); const double strike = roles[AX].last, dip = roles[AY].last, tol = 1e-9*s + 1e-12*norm(o); c.count("judged");
            const V3 yd(-std::sin(strike), std::cos(strike), 0), xd = turn(V3(std::cos(strike), std::sin(strike), 0), yd, dip), nn = cross(xd, yd);
            for (int k = 0; k < 4; ++k)
            {
                const V3 l = p[k] - lastCenter; const double x = (k%2 ? 1 : -1)*dot(l, xd), y = (k/2 ? 1 : -1)*dot(l, yd); if (std::abs(dot(l, nn)) > tol) c.fail("plane", str("corner ", k, " is ", dot(l, nn), " off the plane given by strike and dip"));
                if (!(x >= 0.5*mn - tol) || !(y >= 0.5*mn - tol)) c.fail("edge-length", str("half edge lengths ", x, " ", y, " below half of the minimum ", mn));
            }
        }
    });
    require("disk:judged", 10000); require("disk:minor-above-major", 2000); require("polygon:judged", 8000); require("quadrilateral:judged", 6000); require("polygon:with-inadmissible", 500); require("inadmissible:threw", 60); require("inadmissible:returned", 40); require("edge-lengths:judged", 3000);
    return finish();
}
