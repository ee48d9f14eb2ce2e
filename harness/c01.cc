// C01: point samplers
#define VERIF_DETERMINISTIC_DEVICE
#include "fk.hh"
#include "clip.hh"
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/boxpointsampler.hh>
#include <frackit/sampling/cylinderpointsampler.hh>
using namespace vf;
namespace {
V3 place(Rng& r, double s) { static const double f[] = {0, 1, 5, 50}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*s); }
// a domain: box, cylinder or hollow cylinder
struct Dom
{
    int kind = 0; Solid d; double ri = 0;
    // coordinates in the unit cube that are uniform for uniform points; first the signed distance to the domain
    double outside(V3 p) const
    {
        if (kind == 0) return d.signedDist(p);
        const V3 l = d.cyl.f.local(p); const double rad = std::hypot(l.x, l.y);
        return std::max(std::max(rad - d.cyl.r, ri - rad), std::max(-l.z, l.z - d.cyl.h));
    }
    V3 unitCube(V3 p) const
    {
        if (kind == 0) return V3((p.x-d.lo.x)/(d.hi.x-d.lo.x), (p.y-d.lo.y)/(d.hi.y-d.lo.y), (p.z-d.lo.z)/(d.hi.z-d.lo.z));
        const V3 l = d.cyl.f.local(p); double t = std::atan2(l.y, l.x)/(2*M_PI); if (t < 0) t += 1; const double R = d.cyl.r;
        return V3((l.x*l.x + l.y*l.y - ri*ri)/(R*R - ri*ri), t, l.z/d.cyl.h);
    }
    void describe(std::ostream& o) const { d.describe(o); if (kind == 2) o << " ri=" << ri; o << " "; }
    double size() const { return d.diag(); }
};
Dom randDom(Rng& r, int kind)
{
    const double s = randScale(r); const V3 o = place(r, s); Dom D; D.kind = kind;
    if (kind == 0) { D.d.kind = 0; const V3 h(s*r.lu(0.05,1), s*r.lu(0.05,1), s*r.lu(0.05,1)); D.d.lo = o - h; D.d.hi = o + h; }
    else { D.d.kind = 2; D.d.cyl = randCyl(r, o, s); if (r.b(0.3)) D.d.cyl.h *= r.lu(0.05, 20); D.ri = kind == 2 ? D.d.cyl.r*(r.b(0.2) ? r.u(0.95, 0.999) : r.u(0.02, 0.95)) : 0; }
    return D;
}
FBox fbox(const Dom& D) { return FBox(D.d.lo.x, D.d.lo.y, D.d.lo.z, D.d.hi.x, D.d.hi.y, D.d.hi.z); }
// calls f with the frackit domain
template<class Fn> void visit(const Dom& D, int variant, Fn&& f)
{
    if (D.kind == 0) { f(fbox(D)); return; }
    const Cyl& c = D.d.cyl; const P3 o = fp(c.f.o); const D3 n = fd(c.f.w);
    if (D.kind == 1) { if (variant) f(FCyl(F::Disk<double>(o, fd(c.f.u), fd(c.f.v), c.r, c.r), c.h)); else f(FCyl(Circle3(o, n, c.r), c.h)); }
    else f(FHollow(o, n, D.ri, c.r, c.h));
}
// a distribution over an interval that records its bounds and draws and prefers extreme values
struct Log { double a = 0, b = 0; long n = 0; double last = 0; };
Log logs[3];
template<int k> struct Extreme
{
    double a, b;
    Extreme(double x, double y) : a(x), b(y) { logs[k].a = x; logs[k].b = y; }
    template<class G> double operator()(G& g)
    { const double u = std::uniform_real_distribution<double>(0, 1)(g); const double v = u < 0.15 ? a : u > 0.85 ? b : a + (b-a)*std::uniform_real_distribution<double>(0, 1)(g); logs[k].last = v; ++logs[k].n; return v; }
};
struct ExtremeTraits { using DistributionBase1 = Extreme<0>; using DistributionBase2 = Extreme<1>; using DistributionBase3 = Extreme<2>; };
struct NormalTraits { using DistributionBase1 = std::normal_distribution<double>; using DistributionBase2 = std::normal_distribution<double>; using DistributionBase3 = std::normal_distribution<double>; };
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    // uniform sampler: containment of each point, uniformity of each coordinate and of all 4x4x4 cells
    auto uniform = [](Rng& r, Case& c, int kind, int N) {
        const Dom D = randDom(r, kind); D.describe(c.in); c.nontrivial(); const double tol = 1e-10*(D.size() + norm(D.d.kind == 0 ? D.d.lo : D.d.cyl.f.o));
        visit(D, r.i(2), [&](const auto& dom) {
            auto sampler = F::makeUniformPointSampler(dom); std::array<std::vector<double>, 3> v; long cells[64] = {}; long bad = 0; std::string msg;
            const bool viaCopy = r.b(0.3); auto copy = sampler; F::PointSampler<P3>& s = viaCopy ? static_cast<F::PointSampler<P3>&>(copy) : sampler;
            for (int i = 0; i < N; ++i)
            {
                const P3 q = s(); const V3 p = rp(q), u = D.unitCube(p); c.count("draws");
                if (!(D.outside(p) <= tol) || !dom.contains(q)) { if (!bad++) msg = str("point ", p, " is not in the domain (", D.outside(p), " outside)"); }
                int id = 0; for (int k = 0; k < 3; ++k) { v[k].push_back(u[k]); id = id*4 + std::min(3, std::max(0, int(u[k]*4))); } cells[id]++;
            }
            if (bad) c.fail("outside", str(bad, " of ", N, " draws: ", msg));
            // Kolmogorov-Smirnov at 1e-10
            for (int k = 0; k < 3; ++k)
            {
                std::sort(v[k].begin(), v[k].end()); double d = 0; for (int i = 0; i < N; ++i) d = std::max(d, std::max(std::abs(v[k][i] - double(i)/N), std::abs(v[k][i] - double(i+1)/N)));
                c.count("distributions"); if (d*std::sqrt(double(N)) > 3.45) c.fail("not-uniform", str("coordinate ", k, ": Kolmogorov-Smirnov distance ", d, " of ", N, " draws"));
            }
            double chi = 0; const double e = N/64.0; for (long n : cells) chi += (n-e)*(n-e)/e; c.count("distributions"); if (chi > 190) c.fail("not-uniform", str("chi-square ", chi, " of 64 equal-volume cells, ", N, " draws"));
        });
    };
    section("uniform-box", 120, 4000, [&](Rng& r, Case& c) { uniform(r, c, 0, 3000); });
    section("uniform-cylinder", 160, 5000, [&](Rng& r, Case& c) { uniform(r, c, 1, 3000); });
    section("uniform-hollow", 160, 5000, [&](Rng& r, Case& c) { uniform(r, c, 2, 3000); });
    section("uniform-long", 8, 160, [&](Rng& r, Case& c) { uniform(r, c, int(c.idx%3), 60000); });
    // any distribution: the domain's bounds are handed to it and each drawn triple is mapped to its point
    section("mapping", 800, 30000, [](Rng& r, Case& c) {
        const Dom D = randDom(r, r.i(3)); D.describe(c.in); c.nontrivial(); const double L = D.size(), off = norm(D.d.kind == 0 ? D.d.lo : D.d.cyl.f.o), tol = 1e-10*(L + off);
        visit(D, r.i(2), [&](const auto& dom) {
            auto s = F::makePointSampler<ExtremeTraits>(dom);
            double lo[3] = {0, 0, 0}, hi[3] = {0, 2*M_PI, D.d.cyl.h}; if (D.kind == 0) for (int k = 0; k < 3; ++k) { lo[k] = D.d.lo[k]; hi[k] = D.d.hi[k]; } else { lo[0] = D.ri*D.ri; hi[0] = D.d.cyl.r*D.d.cyl.r; }
            for (int k = 0; k < 3; ++k) { c.count("judged"); const double t = 1e-9*(std::abs(hi[k]) + std::abs(lo[k])); if (std::abs(logs[k].a - lo[k]) > t || std::abs(logs[k].b - hi[k]) > t) c.fail("bounds", str("distribution ", k, " over [", logs[k].a, ",", logs[k].b, "], domain [", lo[k], ",", hi[k], "]")); }
            V3 bu(1,0,0), bv(0,1,0); if constexpr (!std::is_same_v<std::decay_t<decltype(dom)>, FBox>) { bu = rd(dom.base1()); bv = rd(dom.base2()); }
            for (int i = 0; i < 30; ++i)
            {
                for (auto& l : logs) l.n = 0; const V3 p = rp(s()); c.count("judged"); if (!(D.outside(p) <= tol)) c.fail("outside", str("point ", p, " is ", D.outside(p), " outside of the domain"));
                if (logs[0].n != 1 || logs[1].n != 1 || logs[2].n != 1) { c.count("several-draws"); continue; }
                V3 want(logs[0].last, logs[1].last, logs[2].last); if (D.kind) { const double rad = std::sqrt(want.x), t = want.y; want = D.d.cyl.f.o + rad*std::cos(t)*bu + rad*std::sin(t)*bv + want.z*D.d.cyl.f.w; }
                c.count("judged"); if (dist(p, want) > tol) c.fail("coordinates", str("drawn coordinates give ", want, ", the sampler ", p));
            }
        });
    });
    // samplers made from user distributions (constructors), non-uniform
    section("constructors", 200, 6000, [](Rng& r, Case& c) {
        const double s = r.lu(0.01, 100); const V3 o = place(r, s); Cyl cy = randCyl(r, o, s); const FCyl f = fcyl(cy); cy.describe(c.in); c.nontrivial();
        auto t = F::CylinderPointSampler<double, ExtremeTraits>(f, Extreme<0>(0.04*s*s, 0.09*s*s), Extreme<1>(1.0, 1.5), Extreme<2>(0.2*s, 0.3*s));
        const V3 bu = rd(f.bottomFace().majorAxis()), bv = rd(f.bottomFace().minorAxis());
        for (int i = 0; i < 20; ++i) { const V3 p = rp(t()); const double rad = std::sqrt(logs[0].last), a = logs[1].last; const V3 want = cy.f.o + rad*std::cos(a)*bu + rad*std::sin(a)*bv + logs[2].last*cy.f.w; c.count("judged"); if (dist(p, want) > 1e-10*(s + norm(o))) c.fail("cylinder", str("drawn coordinates give ", want, ", the sampler ", p)); }
        auto b = F::BoxPointSampler<double, ExtremeTraits>(Extreme<0>(1, 2), Extreme<1>(10, 20), Extreme<2>(100, 200));
        for (int i = 0; i < 20; ++i) { const V3 p = rp(b()); c.count("judged"); if (p.x != logs[0].last || p.y != logs[1].last || p.z != logs[2].last) c.fail("box", str("drawn ", V3(logs[0].last, logs[1].last, logs[2].last), ", sampled ", p)); }
        auto q = F::BoxPointSampler<double, NormalTraits>(std::normal_distribution<double>(5*s, s), std::normal_distribution<double>(-5*s, s), std::normal_distribution<double>(0, 2*s));
        V3 mean; const int N = 2000; for (int i = 0; i < N; ++i) mean = mean + (1.0/N)*rp(q()); c.count("judged"); const double m = 7*s/std::sqrt(double(N)); if (std::abs(mean.x - 5*s) > m || std::abs(mean.y + 5*s) > m || std::abs(mean.z) > 2*m) c.fail("normal", str("mean ", mean, " of ", N, " draws around (5,-5,0)*", s));
    });
    require("uniform-box:draws", 200000); require("uniform-cylinder:draws", 300000); require("uniform-hollow:draws", 300000); require("mapping:judged", 30000); require("constructors:judged", 2000);
    return finish();
}
