// C04: every returned piece lies in both geometries, pieces do not overlap, empty markers stand alone.
#include "isect_special.hh"
using namespace vf;
static double worst = 0;
static double tolOf(double eps, const Geo& A, const Geo& B) { return 10*std::max(eps, 1e-7); }
static void judge(Case& c, const Geo& A, const Geo& B, double epsIn)
{
    c.in << "eps=" << epsIn << " A="; A.describe(c.in); c.in << "B="; B.describe(c.in);
    double eps = 0; std::vector<Piece> v;
    try { v = doIs(A, B, epsIn, &eps); }
    
    catch (const std::runtime_error& e) { if (std::string(e.what()).find("NotImplemented") != std::string::npos && coplanar(A, B)) throw Skip{"documented as not implemented"}; throw; }
    if (eps < 1e-8 && A.k != GSeg) throw Skip{"default tolerance below what OpenCASCADE resolves"};
    const double tol = tolOf(eps, A, B);
    size_t empties = 0; for (auto& p : v) empties += p.t == '0';
    if (v.empty()) return c.fail("no piece and no empty marker", "");
    if (empties && v.size() > 1) return c.fail("empty marker mixed with pieces", show(v));
    if (empties) { c.count("empty"); return; }
    c.count("pieces"); c.nontrivial();
    for (auto& p : v)
    {
        c.count(std::string("kind ") + p.t);
        for (auto& x : p.s)
        {
            if (!(std::isfinite(x.x) && std::isfinite(x.y) && std::isfinite(x.z))) return c.fail("piece not finite", show(v));
            const double da = A.dist_(x), db = B.dist_(x); worst = std::max(worst, std::max(da, db)/tol*10);
            if (da > tol || db > tol) { std::ostringstream o; o << std::setprecision(12) << x << " of piece " << p.t << " is off by " << da << " / " << db << " tol " << tol << " : " << show(v); return c.fail("piece off its geometries", o.str()); }
            c.count("points");
        }
        if (p.t == 'F')
        {   // interior of the face: sample inside the reference operands is decided by area in C05; here the centre of mass of convex pieces
        }
    }
    // two cylinders: the pieces are OpenCASCADE's approximated section curves, whose ends scatter beyond the tolerance of the points
    if (A.cyl() && B.cyl()) { c.count("curved pairs"); return; }
    // no overlap: inner samples of one piece are not on another one of the same or a higher dimension
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (i != j && v[i].dim() <= v[j].dim() && v[i].t != 'F')
    {
        const auto& s = v[i].s; if (s.size() == 1) { if (v[j].distTo(s[0]) <= 0.3*eps && !(v[j].t == 'P' && j < i)) return c.fail("point piece on another piece", show(v)); c.count("overlap tests"); continue; }
        int on = 0; for (size_t k = 1; k + 1 < s.size(); ++k) on += v[j].distTo(s[k]) < 0.1*eps; c.count("overlap tests");
        if (v[i].len > 200*tol && on >= 2) return c.fail("pieces overlap", show(v));
    }
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    for (const auto& k : pairKinds())
    {
        const bool slow = k.b >= GCyl || k.a >= GCyl; const std::string n = std::string(gkName(k.a)) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "");
        section("general-" + n, slow ? 40 : 120, slow ? 400 : 1500, [&](Rng& r, Case& c)
        {
            const double s = r.b(0.3) ? std::max(0.05, randScale(r)) : r.lu(0.5, 20); Geo A, B; randPair(r, k, s, A, B); judge(c, A, B, r.b(0.2) ? s*r.lu(1e-7, 1e-5) : 0);
        });
    }
    for (int g = 0; g < 9; ++g) section(std::string("special-") + specialGroup(g), g >= 4 ? 120 : 400, g >= 4 ? 2500 : 6000, [&](Rng& r, Case& c)
    { const double s = g >= 4 ? r.lu(0.5, 20) : r.b(0.3) ? std::max(0.05, randScale(r)) : r.lu(0.5, 20); Special sp = randSpecial(r, g, s); if (sp.any) throw Skip{"no second geometry"}; c.in << sp.name << " "; judge(c, sp.A, sp.B, 0); });
    for (const auto& k : pairKinds()) require(std::string("general-") + gkName(k.a) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : "") + ":pieces", 8);
    for (int g = 0; g < 9; ++g) require(std::string("special-") + specialGroup(g) + ":pieces", 15);
    return finish();
}
