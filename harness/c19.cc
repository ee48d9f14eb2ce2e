// C19: vector, direction, line and plane algebra
#include "fk.hh"
#include <frackit/common/math.hh>
using namespace vf;
namespace {
using L = long double;
double mag(Rng& r) { return std::pow(10.0, r.u(-4, 4)); }
V3 rvec(Rng& r)   // generic, sparse or special vectors
{
    const double s = mag(r); const int k = r.i(6);
    if (k == 0) { V3 v; const int i = r.i(3); (i == 0 ? v.x : i == 1 ? v.y : v.z) = r.b() ? s : -s; return v; }
    if (k == 1) { V3 v = s*randUnit(r); const int i = r.i(3); (i == 0 ? v.x : i == 1 ? v.y : v.z) = r.b() ? 0.0 : -0.0; return v; }
    if (k == 2) { V3 v = s*randUnit(r); const int i = r.i(3); (i == 0 ? v.x : i == 1 ? v.y : v.z) *= 1e-9; return v; }
    return s*randUnit(r);
}
void near(Case& c, const char* kind, double v, double want, double tol)
{ c.count("judged"); if (!(std::abs(v - want) <= tol)) c.fail(kind, str("got ", v, ", expected ", want, " (tolerance ", tol, ")")); }
void near(Case& c, const char* kind, V3 v, V3 want, double tol)
{ c.count("judged"); if (!(dist(v, want) <= tol)) c.fail(kind, str("got ", v, ", expected ", want, " (tolerance ", tol, ")")); }
void yes(Case& c, const char* kind, bool b, const std::string& d = "")
{ c.count("judged"); if (!b) c.fail(kind, d); }
V3 rod(V3 v, V3 k, double t) { return std::cos(t)*v + std::sin(t)*cross(k, v) + (1-std::cos(t))*dot(k, v)*k; }
}

int main(int argc, char** argv)
{
    parse(argc, argv);
    section("arithmetic", 20000, 400000, [](Rng& r, Case& c) {
        const V3 a = rvec(r), b = rvec(r), d = rvec(r); const double k = (r.b() ? 1 : -1)*mag(r);
        c.in << a << b << d << " k=" << k; c.nontrivial();
        const W3 A = fv(a), B = fv(b), D = fv(d); const double na = norm(a), nb = norm(b), nd = norm(d), e = 1e-14;
        near(c, "plus", rv(A + B), a + b, e*(na+nb)); near(c, "minus", rv(A - B), a - b, e*(na+nb));
        near(c, "dot", A*B, dot(a,b), e*na*nb); near(c, "squaredLength", A.squaredLength(), dot(a,a), e*na*na); near(c, "length", A.length(), na, e*na);
        W3 S = A; auto& ref = (S *= k); near(c, "scale", rv(S), k*a, e*std::abs(k)*na); yes(c, "scale-ref", &ref == &S);
        W3 Q = A; Q /= k; near(c, "divide", rv(Q), a/k, e*na/std::abs(k));
        near(c, "cross", rv(F::crossProduct(A, B)), cross(a,b), 4*e*na*nb);
        near(c, "box", F::boxProduct(A, B, D), dot(a, cross(b,d)), 4*e*na*nb*nd);
        const double bx = dot(a, cross(b,d))/(na*nb*nd);
        if (std::abs(bx) > 1e-6) { yes(c, "righthand", F::isRightHandSystem(A, B, D) == (bx > 0)); yes(c, "righthand-odd", F::isRightHandSystem(B, A, D) == (bx < 0)); }
        // 1d, 2d
        const F::Vector<double,2> a2(a.x, a.y), b2(b.x, b.y); const F::Vector<double,1> a1(a.x), b1(b.x);
        const auto s2 = a2 + b2, d2 = a2 - b2; near(c, "plus2", V3(s2.x(), s2.y(), 0), V3(a.x+b.x, a.y+b.y, 0), e*(na+nb)); near(c, "minus2", V3(d2.x(), d2.y(), 0), V3(a.x-b.x, a.y-b.y, 0), e*(na+nb));
        near(c, "dot2", a2*b2, a.x*b.x + a.y*b.y, e*na*nb); near(c, "cross2", F::crossProduct(a2, b2), a.x*b.y - a.y*b.x, 4*e*na*nb); near(c, "length2", a2.length(), std::hypot(a.x, a.y), e*na);
        near(c, "plus1", (a1+b1).x(), a.x+b.x, e*(na+nb)); near(c, "minus1", (a1-b1).x(), a.x-b.x, e*(na+nb)); near(c, "dot1", a1*b1, a.x*b.x, e*na*nb); near(c, "length1", a1.length(), std::abs(a.x), e*na);
        // points
        const P3 p = fp(a); P3 q = p; q += B; near(c, "p+=", rp(q), a+b, e*(na+nb)); q = p; q -= B; near(c, "p-=", rp(q), a-b, e*(na+nb));
        near(c, "p+", rp(p + B), a+b, e*(na+nb)); near(c, "p-", rp(p - B), a-b, e*(na+nb)); q = p; q *= k; near(c, "p*=", rp(q), k*a, e*std::abs(k)*na); q = p; q /= k; near(c, "p/=", rp(q), a/k, e*na/std::abs(k));
        near(c, "vec-from-points", rv(W3(fp(a), fp(b))), b-a, e*(na+nb));
        const F::Point<double,2> p2(a.x, a.y), q2(b.x, b.y); const F::Vector<double,2> v2(p2, q2); near(c, "vec2-from-points", V3(v2.x(), v2.y(), 0), V3(b.x-a.x, b.y-a.y, 0), e*(na+nb));
        const auto t2 = p2 + a2, u2 = p2 - b2; near(c, "p2+", V3(t2.x(), t2.y(), 0), V3(2*a.x, 2*a.y, 0), e*na*2); near(c, "p2-", V3(u2.x(), u2.y(), 0), V3(a.x-b.x, a.y-b.y, 0), e*(na+nb));
        const F::Point<double,1> p1(a.x); near(c, "p1+", (p1 + b1).x(), a.x+b.x, e*(na+nb)); near(c, "p1-", (p1 - b1).x(), a.x-b.x, e*(na+nb));
        const double ep = na*r.lu(1e-6, 1); const V3 dir = randUnit(r);
        yes(c, "isEqual-eps", p.isEqual(fp(a + 0.9*ep*dir), ep)); yes(c, "isEqual-eps-far", !p.isEqual(fp(a + 1.1*ep*dir), ep));
        if (na < 1e3) { yes(c, "isEqual", p.isEqual(fp(a + 0.9e-7*dir))); yes(c, "isEqual-far", !p.isEqual(fp(a + 1.1e-7*dir))); }
        const double deg = r.u(-720, 720); near(c, "toRadians", F::toRadians(deg), deg*M_PI/180, 1e-12); near(c, "toDegrees", F::toDegrees(F::toRadians(deg)), deg, 1e-9);
    });
    section("parallel", 20000, 400000, [](Rng& r, Case& c) {
        const V3 a = rvec(r); const V3 ua = unit(a), n = anyPerp(ua, r.u(0, 7)); const double k = (r.b() ? 1 : -1)*mag(r);
        c.in << a << " k=" << k; c.nontrivial();
        yes(c, "parallel-missed", fv(a).isParallel(fv(k*a)), str("vectors v and ", k, "*v not recognised as parallel"));
        yes(c, "parallel-self", fv(a).isParallel(fv(a)), "a vector is not parallel to itself");
        const double t = r.b() ? r.lu(1e-6, 1.5) : r.lu(1e-7, 1e-3), s = r.b() ? 1 : -1; const V3 b = mag(r)*s*(std::cos(t)*ua + std::sin(t)*n);
        yes(c, "parallel-false", !fv(a).isParallel(fv(b)), str("vectors at ", t, " rad taken as parallel, sign ", s));
        const double eps = r.lu(1e-6, 0.3), t1 = eps*r.u(0, 0.9), t2 = std::min(1.5, eps*r.u(1.1, 5));
        const V3 b1 = mag(r)*s*(std::cos(t1)*ua + std::sin(t1)*n), b2 = mag(r)*s*(std::cos(t2)*ua + std::sin(t2)*n);
        yes(c, "parallel-eps", fv(a).isParallel(fv(b1), eps), str("angle ", t1, " within ", eps, " not parallel, sign ", s)); yes(c, "parallel-eps-false", !fv(a).isParallel(fv(b2), eps), str("angle ", t2, " beyond ", eps, " parallel, sign ", s));
        if (std::hypot(a.x, a.y) > 1e-3*norm(a))
        {
            const F::Vector<double,2> a2(a.x, a.y), b2(k*a.x, k*a.y), c2(-a.y + 0.1*a.x, a.x + 0.1*a.y);
            yes(c, "parallel2", a2.isParallel(b2)); yes(c, "parallel2-false", !a2.isParallel(c2));
        }
        yes(c, "parallel1", F::Vector<double,1>(a.x + 1).isParallel(F::Vector<double,1>(k)));
    });
    section("direction", 20000, 400000, [](Rng& r, Case& c) {
        const V3 a = rvec(r); c.in << a; c.nontrivial(); const double k = (r.b() ? 1 : -1)*mag(r);
        D3 d(fv(a)); near(c, "unit-length", norm(rd(d)), 1, 1e-14); near(c, "same-direction", rd(d), unit(a), 1e-14);
        near(c, "dir-scaled", rv(d*k), k*unit(a), 1e-14*std::abs(k)); near(c, "vec-of-dir", rv(W3(d)), unit(a), 1e-14);
        D3 e = d; e.invert(); near(c, "invert", rd(e), -unit(a), 1e-14); near(c, "invert-copy", rd(d), unit(a), 1e-14);
        const W3 o = F::makeOrthogonalVector(fv(a)); yes(c, "orthogonal-nonzero", o.length() > 0); near(c, "orthogonal", dot(rv(o), a)/(norm(rv(o))*norm(a)), 0, 1e-14);
        if (std::hypot(a.x, a.y) > 1e-5*norm(a)) { const double n2 = std::hypot(a.x, a.y); F::Direction<double,2> d2{F::Vector<double,2>(a.x, a.y)}; near(c, "unit2", std::hypot(d2.x(), d2.y()), 1, 1e-14); near(c, "dir2", V3(d2.x(), d2.y(), 0), V3(a.x/n2, a.y/n2, 0), 1e-14); d2.invert(); near(c, "inv2", d2.x(), -a.x/n2, 1e-14); }
        if (a.x != 0) { F::Direction<double,1> d1{F::Vector<double,1>(a.x)}; near(c, "dir1", d1.x(), a.x > 0 ? 1 : -1, 1e-15); d1.invert(); near(c, "inv1", d1.x(), a.x > 0 ? -1 : 1, 1e-15); }
    });
    section("rotate", 15000, 300000, [](Rng& r, Case& c) {
        const V3 a = rvec(r), k = unit(rvec(r)), b = rvec(r); const double t = r.b(0.2) ? 0.5*M_PI*r.i(-4, 4) : r.u(-7, 7), t2 = r.u(-7, 7); c.in << a << b << " axis " << k << " angle " << t; c.nontrivial();
        const double na = norm(a), nb = norm(b); W3 v = fv(a), w = fv(b); const D3 ax = fd(k);
        F::rotate(v, ax, t); F::rotate(w, ax, t);
        near(c, "rotated", rv(v), rod(a, k, t), 2e-14*na); near(c, "length-kept", v.length(), na, 2e-14*na); near(c, "angle-kept", v*w, dot(a,b), 4e-14*na*nb);
        near(c, "axis-part-kept", dot(rv(v), k), dot(a, k), 2e-14*na);
        std::vector<W3> vs = {fv(a), fv(b), fv(a)}; F::rotate(vs, ax, t); yes(c, "list-size", vs.size() == 3);
        near(c, "list0", rv(vs[0]), rod(a, k, t), 2e-14*na); near(c, "list1", rv(vs[1]), rod(b, k, t), 2e-14*nb); near(c, "list2", rv(vs[2]), rod(a, k, t), 2e-14*na);
        W3 x = fv(a), y = fv(a); F::rotate(x, ax, t); F::rotate(x, ax, t2); F::rotate(y, ax, t + t2); near(c, "compose", rv(x), rv(y), 1e-13*na);
        W3 z = fv(a); F::rotate(z, ax, t); F::rotate(z, ax, -t); near(c, "inverse", rv(z), a, 4e-14*na);
        std::vector<W3> none; F::rotate(none, ax, t); yes(c, "empty-list", none.empty());
    });
    section("projection", 15000, 300000, [](Rng& r, Case& c) {
        const double s = mag(r); const Frame f = randFrame(r, randVec(r, r.i(5)*s)); const V3 p = f.o + randVec(r, 5*s), q = f.o + randVec(r, 5*s); c.in << f.o << f.u << f.v << p << q; c.nontrivial();
        const double sc = 5*s + norm(f.o), e = 4e-14*sc;
        const Line3 l(fp(f.o), fd(s*f.u)); const V3 pl = rp(l.projection(fp(p))); near(c, "line-proj", pl, f.o + dot(p-f.o, f.u)*f.u, e); near(c, "line-idem", rp(l.projection(fp(pl))), pl, e); near(c, "line-orth", dot(p - pl, f.u), 0, e);
        const Plane3 n(fp(f.o), fd(s*f.w)); 
        Plane3 n3(fp(f.at(s*r.u(-1,1), s*r.u(-1,1))), fp(f.at(s*r.u(2,3), s*r.u(-1,1))), fp(f.at(s*r.u(-1,1), s*r.u(2,3))));
        const Plane3 n4(fp(f.o), fd(f.u), fd(f.v), fd(f.w));
        int i = 0;
        for (const Plane3& g : {n, n3, n4})
        {
            ++i; const double ee = i == 2 ? 20*e : e;
            const V3 pp = rp(g.projection(fp(p))); near(c, "plane-proj", pp, p - dot(p-f.o, f.w)*f.w, ee); near(c, "plane-idem", rp(g.projection(fp(pp))), pp, ee);
            const V3 b1 = rd(g.base1()), b2 = rd(g.base2()), nn = rd(g.normal());
            near(c, "base-unit", std::abs(norm(b1)-1) + std::abs(norm(b2)-1) + std::abs(norm(nn)-1), 0, 1e-13); near(c, "base-orth", std::abs(dot(b1,b2)) + std::abs(dot(b1,nn)) + std::abs(dot(b2,nn)), 0, 1e-13); near(c, "base-right-handed", dot(cross(b1,b2), nn), 1, 1e-13);
            near(c, "normal", std::abs(dot(nn, f.w)), 1, 1e-13);
            const Seg3 ps = g.projection(Seg3(fp(p), fp(q))); near(c, "seg-proj-source", rp(ps.source()), p - dot(p-f.o, f.w)*f.w, ee); near(c, "seg-proj-target", rp(ps.target()), q - dot(q-f.o, f.w)*f.w, ee);
            const V3 dl = randUnit(r); const V3 want = dl - dot(dl, f.w)*f.w;
            if (norm(want) > 0.05)
            {
                // the support point may be anywhere, also such that support + direction projects onto it
                const Line3 pl2 = g.projection(Line3(fp(p), fd(dl))); const V3 d2 = rd(pl2.direction());
                near(c, "line-proj-dir", norm(cross(d2, unit(want))), 0, 1e-11*(1+sc)); near(c, "line-proj-support", dot(rp(pl2.supportingPoint()) - f.o, f.w), 0, ee);
                near(c, "line-proj-passes", distPointLine(rp(g.projection(fp(p))), rp(pl2.supportingPoint()), d2), 0, ee);
            }
        }
        near(c, "tri-normal", norm(cross(rd(Tri3(fp(f.at(0,0)), fp(f.at(s,0.3*s)), fp(f.at(-0.2*s, s))).normal()), f.w)), 0, 1e-13*(1 + norm(f.o)/s));
    });
    section("intervals", 5000, 100000, [](Rng& r, Case& c) {
        std::array<double,2> a{double(r.i(-5,5)), 0}, b{double(r.i(-5,5)), 0}; a[1] = a[0] + r.i(0,5); b[1] = b[0] + r.i(0,5); const double eps = r.u(0.01, 0.4);
        c.in << a[0] << "," << a[1] << " " << b[0] << "," << b[1] << " eps " << eps; c.nontrivial();
        const double gap = std::max(a[0], b[0]) - std::min(a[1], b[1]); // integer: > 0 gap
        if (gap > 0 || gap < 0) { yes(c, "overlap", F::intervalsOverlap(a, b, eps) == (gap < 0)); yes(c, "overlap-sym", F::intervalsOverlap(b, a, eps) == (gap < 0)); }
        else { yes(c, "touch", F::intervalsOverlap(a, b, eps)); yes(c, "touch-sym", F::intervalsOverlap(b, a, eps)); }
        std::array<double,2> b2{a[1] + eps*r.u(0.1, 0.9), 0}; b2[1] = b2[0] + r.u(0, 3); yes(c, "overlap-within-eps", F::intervalsOverlap(a, b2, eps) && F::intervalsOverlap(b2, a, eps));
        std::array<double,2> b3{a[1] + eps*r.u(1.1, 3), 0}; b3[1] = b3[0] + r.u(0, 3); yes(c, "overlap-beyond-eps", !F::intervalsOverlap(a, b3, eps) && !F::intervalsOverlap(b3, a, eps));
    });
    for (auto n : {"arithmetic", "parallel", "direction", "rotate", "projection", "intervals"}) require(std::string(n) + ":judged", 20000);
    return finish();
}
