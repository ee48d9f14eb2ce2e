// C11: contained networks: sub-domains are filled, entities confined as requested, geometry conforming.
#include "net.hh"
using namespace vf;
namespace {
using Builder = F::ContainedEntityNetworkBuilder<double>;
V3 place(Rng& r, double L) { static const double f[] = {0, 0, 1, 20}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*L); }
double scale(Rng& r) { static const double s[] = {0.1, 1, 1, 1, 10, 100, 1000}; return s[r.i(7)]*r.u(0.5, 2); }
V3 cellPoint(int ax, double at, double x, double y) { return ax == 0 ? V3(at, x, y) : ax == 1 ? V3(x, at, y) : V3(x, y, at); }
double comp(V3 v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
struct Network
{
    std::map<std::size_t, std::vector<Frag>> ents; std::map<std::size_t, std::vector<TopoDS_Shape>> doms;
};
template<class N> Network observe(Case& c, const N& net, const Scenario& s, const std::set<std::size_t>& domIds, int dimE, int dimD)
{
    Network w; std::set<std::size_t> ids; for (auto id : net.subDomainIds()) if (!ids.insert(id.get()).second) c.fail("ids", "a sub-domain id is listed twice");
    if (ids != domIds) c.fail("ids", str(ids.size(), " sub-domain ids reported, ", domIds.size(), " sub-domains were added")); if (net.entityDimension() != dimE || net.domainDimension() != dimD) c.fail("dimension", str("dimensions ", net.entityDimension(), ", ", net.domainDimension()));
    std::set<std::size_t> all = domIds; for (auto& e : s.ents) all.insert(e.sub);
    for (auto id : all) w.ents[id] = fragments(c, net.subDomainEntityFragments(F::Id(id)), net.subDomainEntityFragmentsIndexMap(F::Id(id)), dimE == 2 ? TopAbs_FACE : TopAbs_EDGE);
    for (auto id : domIds) { TopTools_MapOfShape seen; for (const auto& d : net.subDomainFragments(F::Id(id))) { if (d.ShapeType() != (dimD == 3 ? TopAbs_SOLID : TopAbs_FACE)) c.fail("fragment-type", "a domain fragment has the wrong kind of shape"); else if (!seen.Add(d)) c.fail("fragment-twice", "a domain fragment is listed twice"); else w.doms[id].push_back(d); } }
    return w;
}
bool isFaceOf(const TopoDS_Shape& f, const std::vector<TopoDS_Shape>& solids, TopAbs_ShapeEnum t) { for (auto& s : solids) for (TopExp_Explorer x(s, t); x.More(); x.Next()) if (x.Current().IsSame(f)) return true; return false; }
struct Rect { int ax, at, lo[2], hi[2]; bool contains(int axis, int level, double i, double j) const { return axis == ax && level == at && i > lo[0] && i < hi[0] && j > lo[1] && j < hi[1]; } };
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("domains", 420, 14000, [](Rng& r, Case& c) {
        Scenario s; s.L = scale(r); const V3 o = place(r, s.L); const int nd = r.i(1, 3); std::vector<std::size_t> ids; while (ids.size() < 4) { const std::size_t i = r.b(0.8) ? r.i(8) : r.i(1000); if (!std::count(ids.begin(), ids.end(), i)) ids.push_back(i); }
        const int ax = r.i(3); const V3 dir = ax == 0 ? V3(1,0,0) : ax == 1 ? V3(0,1,0) : V3(0,0,1); s.unionOn = r.b(0.7); const bool boxes = r.b(0.5);
        if (boxes)
        {   // layers of one box (sometimes with a gap)
            const V3 h(s.L*r.u(0.5,1.2), s.L*r.u(0.5,1.2), s.L*r.u(0.5,1.2)); V3 lo = o; const bool gap = r.b(0.2);
            for (int i = 0; i < nd; ++i) { Dom D; D.id = ids[i]; D.how = r.i(2); D.confining = r.b(0.6); D.d.kind = 0; V3 hi = lo + h; const double t = r.u(0.4, 1); const V3 cut = (1-t)*comp(h, ax)*dir; hi = hi - cut; D.d.lo = lo; D.d.hi = hi; s.doms.push_back(D); lo = lo + (comp(hi, ax) - comp(lo, ax) + (gap ? 0.3*s.L : 0.0))*dir; }
        }
        else for (int i = 0; i < nd; ++i) { Dom D; D.id = ids[i]; D.how = r.i(2); D.confining = r.b(0.6); D.d = randSolid(r, o + (i*3.2*s.L)*dir, s.L, r.i(3)); s.doms.push_back(D); }
        const int n = r.i(0, 6); for (int i = 0; i < n; ++i) { const V3 m = boxes ? o + r.u()*(s.doms[r.i(nd)].d.hi - o) : o + (r.u(-0.2, nd - 0.8)*3.2*s.L)*dir; addGeneric(r, s, m, r.b(0.4) ? 0.1*s.L : 0.6*s.L, s.L*(r.b(0.3) ? r.u(0.1, 0.3) : r.b(0.35) ? r.u(2, 5) : r.u(0.5, 2)), ids[r.b(0.9) ? r.i(nd) : 3]); }
        s.describe(c.in); std::vector<double> want; for (auto& e : s.ents) want.push_back(wantedArea(s, e));
        CoutCapture cap; Builder b; if (r.b()) { fillDomains(b, s); fillEntities(b, s); } else { fillEntities(b, s); fillDomains(b, s); } const auto& net = b.build(); c.nontrivial(str(s.doms.size(), s.ents.size()));
        std::set<std::size_t> domIds; for (auto& d : s.doms) domIds.insert(d.id); if (s.ents.empty()) { c.count("no entities"); }
        Network w = observe(c, net, s, domIds, s.ents.empty() ? net.entityDimension() : 2, 3); if (c.failed) return;
        // entities, with the index they have within their sub-domain
        std::map<std::size_t,int> local; std::vector<std::vector<Frag*>> g; std::size_t used = 0, total = 0;
        for (std::size_t i = 0; i < s.ents.size(); ++i)
        {
            const Ent& e = s.ents[i]; const int idx = ++local[e.sub]; std::vector<Frag*> v; for (auto& f : w.ents[e.sub]) if (f.idx == idx) v.push_back(&f); g.push_back(v); used += v.size();
            checkFill(c, r, s, e, v, want[i], str("entity ", idx, " of sub-domain ", e.sub)); const Dom* D = s.dom(e.sub); const bool clipped = want[i] < 0.999999*e.measure();
            c.count(!D ? "without domain" : D->confining ? clipped ? "confined" : "inside" : s.unionOn ? clipped ? "confined to union" : "inside union" : "unconfined");
        }
        for (auto& p : w.ents) total += p.second.size(); if (used != total) c.fail("index-range", "a fragment has an index that belongs to no entity of its sub-domain"); if (c.failed) return;
        for (std::size_t i = 0; i < s.ents.size() && !c.failed; ++i) for (std::size_t j = 0; j < i && !c.failed; ++j) checkCrossing(c, s, s.ents[i], s.ents[j], g[i], g[j]);
        // domains
        for (auto& D : s.doms)
        {
            double V = 0; for (auto& f : w.doms[D.id]) { V += std::abs(shapeMeasure(f)); for (TopExp_Explorer x(f, TopAbs_EDGE); x.More(); x.Next()) if (!BRep_Tool::Degenerated(TopoDS::Edge(x.Current()))) for (auto& p : edgeData(TopoDS::Edge(x.Current())).pts) if (D.d.signedDist(p) > 3e-6*s.L) { c.fail("domain-not-contained", str("a fragment of sub-domain ", D.id, " reaches ", D.d.signedDist(p), " out of it")); return; } }
            const double ref = D.d.volume(); if (!(std::abs(V - ref) <= (D.d.kind == 0 ? 1e-5 : 1e-4)*ref)) c.fail("domain-volume", str(w.doms[D.id].size(), " fragments of sub-domain ", D.id, " have volume ", V, ", expected ", ref)); c.count("domains judged"); if (w.doms[D.id].size() > 1) c.count("domains cut");
        }
        if (c.failed) return;
        // conformity in both directions
        const double tol = 2e-3*s.L;
        for (std::size_t i = 0; i < s.ents.size(); ++i) for (auto f : g[i]) if (f->hasRef) for (auto& D : s.doms) if (D.d.signedDist(f->ref) < -tol)
        { c.count("faces in domains"); if (!isFaceOf(f->s, w.doms[D.id], TopAbs_FACE)) { c.fail("not-conforming", str("a fragment of entity ", i+1, " inside sub-domain ", D.id, " is no face of its fragments")); return; } }
        for (auto& D : s.doms) for (auto& so : w.doms[D.id]) for (TopExp_Explorer x(so, TopAbs_FACE); x.More(); x.Next())
        {
            const TopoDS_Face fc = TopoDS::Face(x.Current()); BRepAdaptor_Surface a(fc); if (a.GetType() != GeomAbs_Plane) continue; const gp_Pln pl = a.Plane(); Frame fr; fr.o = rg(pl.Location()); fr.u = V3(pl.XAxis().Direction().X(), pl.XAxis().Direction().Y(), pl.XAxis().Direction().Z()); fr.v = V3(pl.YAxis().Direction().X(), pl.YAxis().Direction().Y(), pl.YAxis().Direction().Z()); fr.w = cross(fr.u, fr.v);
            Frag f = makeFrag(fc); f.findRef(r, fr); if (!f.hasRef || D.d.signedDist(f.ref) > -tol) continue; bool known = false; for (auto& p : w.ents) for (auto& e : p.second) known = known || e.s.IsSame(fc); c.count("inner faces"); if (!known) { c.fail("phantom-face", str("sub-domain ", D.id, " is cut by a face at ", f.ref, " that is no entity fragment")); return; }
        }
    });
    // box-shaped sub-domains and rectangles on a lattice: components, areas and volumes exactly
    section("lattice", 420, 14000, [](Rng& r, Case& c) {
        const double h = scale(r)*0.25; const V3 o = place(r, 4*h); const int N = r.i(2, 4); Scenario s; s.L = N*h; s.unionOn = r.b(0.7); const int nd = r.i(1, 3), ax = r.i(3); int a[3], z[3];
        for (int d = 0; d < 3; ++d) { a[d] = r.i(-1, N-2); z[d] = d == ax ? std::max(a[d]+nd, N-1) : r.i(a[d]+1, N); } if (z[ax]-a[ax] < nd) throw Skip{"too many layers"};
        std::vector<int> cuts{a[ax], z[ax]}; while (int(cuts.size()) < nd+1) { const int k = r.i(a[ax]+1, z[ax]-1); if (!std::count(cuts.begin(), cuts.end(), k)) cuts.push_back(k); } std::sort(cuts.begin(), cuts.end());
        std::vector<std::size_t> ids; while (int(ids.size()) < nd+1) { const std::size_t i = r.i(9); if (!std::count(ids.begin(), ids.end(), i)) ids.push_back(i); }
        for (int k = 0; k < nd; ++k) { Dom D; D.id = ids[k]; D.how = r.i(2); D.confining = r.b(0.6); double lo[3], hi[3]; for (int d = 0; d < 3; ++d) { lo[d] = (d == ax ? cuts[k] : a[d]) + 0.5; hi[d] = (d == ax ? cuts[k+1] : z[d]) + 0.5; } D.d.kind = 0; D.d.lo = o + h*V3(lo[0],lo[1],lo[2]); D.d.hi = o + h*V3(hi[0],hi[1],hi[2]); s.doms.push_back(D); }
        const int n = r.i(1, 6); std::vector<Rect> v; std::vector<TopoDS_Face> shared(n); CoutCapture cap; Builder b; const bool domFirst = r.b(); if (domFirst) fillDomains(b, s);
        for (int k = 0; k < n; ++k)
        {
            Rect q; bool same = false; std::size_t sub = ids[r.b(0.9) ? r.i(nd) : nd]; int src = -1;
            if (k && r.b(0.2)) { src = r.i(k); q = v[src]; same = true; } else { q.ax = r.i(3); q.at = k && r.b(0.3) ? r.pick(v).at : r.i(N+1); const bool full = r.b(0.45); for (int d = 0; d < 2; ++d) { q.lo[d] = full ? 0 : r.i(N); q.hi[d] = full ? N : r.i(q.lo[d]+1, N); } }
            v.push_back(q); Ent e; e.sub = sub; e.how = 1; e.m.isDisk = false; e.m.f.o = o + h*cellPoint(q.ax, q.at, q.lo[0], q.lo[1]); e.m.f.u = q.ax == 0 ? V3(0,1,0) : V3(1,0,0); e.m.f.v = q.ax == 2 ? V3(0,1,0) : V3(0,0,1); e.m.f.w = cross(e.m.f.u, e.m.f.v); const double x = h*(q.hi[0]-q.lo[0]), y = h*(q.hi[1]-q.lo[1]); e.m.poly = {{0,0},{x,0},{x,y},{0,y}}; s.ents.push_back(e);
            // the very same shape may be used in several sub-domains
            if (same && r.b(0.7)) { shared[k] = shared[src]; c.in << " shared"; c.count("shared shapes"); } else shared[k] = F::OCCUtilities::getShape(fpoly(e.m)); b.addSubDomainEntity(shared[k], F::Id(sub));
        }
        if (!domFirst) fillDomains(b, s); s.describe(c.in); const auto& net = b.build(); c.nontrivial(); std::set<std::size_t> domIds; for (auto& d : s.doms) domIds.insert(d.id);
        Network w = observe(c, net, s, domIds, 2, 3); if (c.failed) return;
        auto inDom = [&](const Dom& D, V3 x) { return x.x > D.d.lo.x && x.x < D.d.hi.x && x.y > D.d.lo.y && x.y < D.d.hi.y && x.z > D.d.lo.z && x.z < D.d.hi.z; };
        auto present = [&](int k, V3 x) { const auto reg = s.region(s.ents[k]); if (reg.empty()) return true; for (auto d : reg) if (inDom(*d, x)) return true; return false; };
        std::map<std::size_t,std::vector<int>> order; for (int k = 0; k < n; ++k) order[s.ents[k].sub].push_back(k);
        // per sub-domain: quarter cells of every lattice plane
        for (auto& p : w.ents)
        {
            auto& ord = order[p.first]; for (auto& f : p.second) if (f.idx < 1 || f.idx > int(ord.size())) { c.fail("index-range", str("index ", f.idx, " in sub-domain ", p.first)); return; }
            for (int k : ord) for (int i = 2*v[k].lo[0]; i < 2*v[k].hi[0]; ++i) for (int j = 2*v[k].lo[1]; j < 2*v[k].hi[1]; ++j)
            {
                const V3 x = o + h*cellPoint(v[k].ax, v[k].at, 0.5*i + 0.23, 0.5*j + 0.27); const bool want = present(k, x); Frame pl = s.ents[k].m.f; pl.o = x; int hits = 0; c.count("cells");
                for (auto& f : p.second) if (v[ord[f.idx-1]].ax == v[k].ax && std::abs(dot(f.cen - x, pl.w)) < 1e-4*h && f.inside(pl, x)) { hits++; const auto& q = v[ord[f.idx-1]]; if (!q.contains(v[k].ax, v[k].at, 0.5*i + 0.23, 0.5*j + 0.27)) c.fail("wrong-index", str("the fragment at ", x, " has index ", f.idx, " of an entity that is not there")); }
                if (hits != int(want)) { c.fail(want ? hits ? "overlap" : "uncovered" : "not-confined", str(hits, " fragments in sub-domain ", p.first, " at ", x, ", expected ", want)); return; }
            }
            double A = 0, W = 0; for (auto& f : p.second) A += f.measure; std::set<std::array<int,4>> cells; for (int k : ord) for (int i = 2*v[k].lo[0]; i < 2*v[k].hi[0]; ++i) for (int j = 2*v[k].lo[1]; j < 2*v[k].hi[1]; ++j) if (present(k, o + h*cellPoint(v[k].ax, v[k].at, 0.5*i + 0.23, 0.5*j + 0.27))) cells.insert({v[k].ax, v[k].at, i, j});
            W = 0.25*h*h*cells.size(); if (std::abs(A - W) > 1e-5*(W + h*h)) { c.fail("measure", str("entity fragments of sub-domain ", p.first, " have area ", A, ", expected ", W)); return; }
        }
        // connected parts of every sub-domain; cells of half the lattice width
        for (auto& D : s.doms)
        {
            int lo[3], nn[3]; for (int d = 0; d < 3; ++d) { lo[d] = int(std::lround(2*comp(D.d.lo - o, d)/h)); nn[d] = int(std::lround(2*comp(D.d.hi - o, d)/h)) - lo[d]; } auto id = [&](int i, int j, int k) { return (i*nn[1] + j)*nn[2] + k; }; std::vector<int> mark(nn[0]*nn[1]*nn[2], -1); std::vector<double> vol;
            auto blocked = [&](int i, int j, int k, int d) {   // between the cell and its upper neighbour in direction d
                const int q[3] = {i, j, k}; const int plane = lo[d] + q[d] + 1; if (plane % 2) return false; double m[3]; for (int e = 0; e < 3; ++e) m[e] = 0.5*(lo[e] + q[e]) + 0.25; m[d] = plane/2; const V3 x = o + h*V3(m[0], m[1], m[2]); const int d0 = d == 0 ? 1 : 0, d1 = d == 2 ? 1 : 2;
                for (int e = 0; e < n; ++e) if (v[e].contains(d, plane/2, m[d0], m[d1]) && present(e, x)) return true; return false; };
            for (int i = 0; i < nn[0]; ++i) for (int j = 0; j < nn[1]; ++j) for (int k = 0; k < nn[2]; ++k) if (mark[id(i,j,k)] < 0)
            {
                std::vector<std::array<int,3>> st{{i,j,k}}; mark[id(i,j,k)] = int(vol.size()); double V = 0;
                while (!st.empty()) { auto q = st.back(); st.pop_back(); V += h*h*h/8; for (int d = 0; d < 3; ++d) for (int sgn = -1; sgn < 2; sgn += 2) { auto t = q; t[d] += sgn; if (t[d] < 0 || t[d] >= nn[d] || mark[id(t[0],t[1],t[2])] >= 0) continue; const auto& l = sgn > 0 ? q : t; if (blocked(l[0], l[1], l[2], d)) continue; mark[id(t[0],t[1],t[2])] = int(vol.size()); st.push_back(t); } }
                vol.push_back(V);
            }
            std::vector<double> got; for (auto& f : w.doms[D.id]) got.push_back(std::abs(shapeMeasure(f))); std::sort(got.begin(), got.end()); std::sort(vol.begin(), vol.end()); bool ok = got.size() == vol.size(); for (std::size_t i = 0; ok && i < got.size(); ++i) ok = std::abs(got[i]-vol[i]) < 1e-5*h*h*h; c.count("domains judged"); if (vol.size() > 1) c.count("domains cut");
            if (!ok) { std::string t; for (double x : got) t += str(" ", x/(h*h*h)); t += " expected"; for (double x : vol) t += str(" ", x/(h*h*h)); c.fail("domain-parts", str("parts of sub-domain ", D.id, " have volumes", t)); return; }
            // conformity
            for (auto& p : w.ents) for (auto& f : p.second) { Frame fr = s.ents[order[p.first][f.idx-1]].m.f; if (!f.hasRef) f.findRef(r, fr); if (f.hasRef && inDom(D, f.ref)) { c.count("faces in domains"); if (!isFaceOf(f.s, w.doms[D.id], TopAbs_FACE)) { c.fail("not-conforming", str("an entity fragment inside sub-domain ", D.id, " is no face of its fragments")); return; } } }
        }
    });
    // one-dimensional networks in planar domains, on a lattice
    section("planar", 420, 14000, [](Rng& r, Case& c) {
        const double h = scale(r)*0.25; const V3 o = place(r, 4*h); const Frame fr = randFrame(r, o, 0.3); const int N = r.i(2, 5); Scenario s; s.L = N*h; s.unionOn = r.b(0.8); const int nd = r.i(1, 2); auto at = [&](double x, double y) { return fr.at(h*x, h*y); };
        int a[2], z[2]; for (int d = 0; d < 2; ++d) { a[d] = r.i(-1, N-2); z[d] = d == 0 ? std::max(a[d]+nd, N-1) : r.i(a[d]+1, N); } if (z[0]-a[0] < nd) throw Skip{"too many layers"}; const int cut = nd == 1 ? z[0] : r.i(a[0]+1, z[0]-1);
        struct R2 { std::size_t id; bool conf; double x0, x1, y0, y1; bool in(double x, double y) const { return x > x0 && x < x1 && y > y0 && y < y1; } }; std::vector<R2> D; for (int k = 0; k < nd; ++k) D.push_back({std::size_t(k ? 7 : r.i(5)), r.b(0.6), (k ? cut : a[0]) + 0.5, (k ? z[0] : cut) + 0.5, a[1] + 0.5, z[1] + 0.5});
        struct Sg { bool vert; int at, lo, hi; std::size_t sub; bool on(bool v, int l, double t) const { return v == vert && l == at && t > lo && t < hi; } }; std::vector<Sg> v; const int n = r.i(1, 7);
        CoutCapture cap; Builder b; if (!s.unionOn) b.setConfineToSubDomainUnion(false);
        for (auto& d : D) { const Quad3 q(fp(at(d.x0,d.y0)), fp(at(d.x1,d.y0)), fp(at(d.x0,d.y1)), fp(at(d.x1,d.y1))); if (d.conf) b.addConfiningSubDomain(q, F::Id(d.id)); else if (r.b()) b.addSubDomain(q, F::Id(d.id)); else b.addSubDomain(F::OCCUtilities::getShape(q), F::Id(d.id)); c.in << " domain " << d.id << (d.conf ? " confining" : " open") << " [" << d.x0 << "," << d.x1 << "]x[" << d.y0 << "," << d.y1 << "]"; }
        for (int k = 0; k < n; ++k) { Sg g; g.vert = r.b(); g.at = r.i(N+1); g.lo = r.i(N); g.hi = r.i(g.lo+1, N); g.sub = D[r.i(nd)].id; v.push_back(g); Ent e; e.sub = g.sub; e.seg = true; s.ents.push_back(e); const V3 p = g.vert ? at(g.at, g.lo) : at(g.lo, g.at), q = g.vert ? at(g.at, g.hi) : at(g.hi, g.at); if (r.b()) b.addSubDomainEntity(Seg3(fp(p), fp(q)), F::Id(g.sub)); else b.addSubDomainEntity(F::OCCUtilities::getShape(Seg3(fp(q), fp(p))), F::Id(g.sub)); c.in << " segment " << g.sub << " " << p << q; }
        c.in << " frame at " << o << " h=" << h << (s.unionOn ? "" : " unconfined"); const auto& net = b.build(); c.nontrivial(); std::set<std::size_t> ids; for (auto& d : D) ids.insert(d.id); Network w = observe(c, net, s, ids, 1, 2); if (c.failed) return;
        auto dom = [&](std::size_t id) -> const R2& { for (auto& d : D) if (d.id == id) return d; return D[0]; };
        auto present = [&](const Sg& g, double x, double y) { const R2& d = dom(g.sub); if (d.conf) return d.in(x, y); if (!s.unionOn) return true; for (auto& e : D) if (e.in(x, y)) return true; if (nd == 2 && std::abs(x - D[0].x1) < 1e-9 && y > D[0].y0 && y < D[0].y1) return true; return false; };
        // pieces of the segments: half lattice units
        std::map<std::size_t,std::vector<int>> order; for (int k = 0; k < n; ++k) order[v[k].sub].push_back(k);
        for (auto& d : D)
        {
            auto& ord = order[d.id]; std::set<std::array<int,3>> cells; for (int k : ord) for (int i = 2*v[k].lo; i < 2*v[k].hi; ++i) { const double t = 0.5*i + 0.25; if (v[k].vert ? present(v[k], v[k].at, t) : present(v[k], t, v[k].at)) cells.insert({v[k].vert, v[k].at, i}); } double W = 0.5*h*cells.size(), A = 0;
            for (auto& f : w.ents[d.id])
            {
                A += f.measure; if (f.idx < 1 || f.idx > int(ord.size())) { c.fail("index-range", str("index ", f.idx, " in sub-domain ", d.id)); return; } const Sg& g = v[ord[f.idx-1]]; const V3 p = fr.local(f.edges[0].a)/h, q = fr.local(f.edges[0].b)/h, m = 0.5*(p+q);
                if (std::abs((g.vert ? m.x : m.y) - g.at) > 1e-4 || (g.vert ? m.y : m.x) < g.lo - 1e-4 || (g.vert ? m.y : m.x) > g.hi + 1e-4) { c.fail("wrong-index", str("a fragment at ", f.cen, " has index ", f.idx, " of another segment")); return; } if (!present(g, m.x + 1e-7, m.y + 1e-7)) { c.fail("not-confined", str("a fragment at ", f.cen, " is outside of its domain")); return; }
                // no present segment crosses in the interior
                for (auto& x : v) if (x.vert != g.vert) { const double t = x.at; const double lo = g.vert ? std::min(p.y,q.y) : std::min(p.x,q.x), hi = g.vert ? std::max(p.y,q.y) : std::max(p.x,q.x); const double cx = g.vert ? g.at : t, cy = g.vert ? t : g.at; if (t > lo + 1e-4 && t < hi - 1e-4 && g.at >= x.lo && g.at <= x.hi && present(x, cx, cy)) { c.fail("uncut", str("segments meet inside the fragment at ", f.cen)); return; } }
                bool inside = d.in(m.x, m.y); for (auto& e : D) if (e.in(m.x, m.y)) { c.count("edges in domains"); if (!isFaceOf(f.s, w.doms[e.id], TopAbs_EDGE)) { c.fail("not-conforming", str("an entity fragment inside sub-domain ", e.id, " is no edge of its fragments")); return; } } (void)inside;
            }
            if (std::abs(A - W) > 1e-5*(W + h)) { c.fail("measure", str("entity fragments of sub-domain ", d.id, " have length ", A, ", expected ", W)); return; }
            // parts of the domain
            const int lx = int(std::lround(2*d.x0)), ly = int(std::lround(2*d.y0)), nx = int(std::lround(2*d.x1)) - lx, ny = int(std::lround(2*d.y1)) - ly; std::vector<int> mark(nx*ny, -1); std::vector<double> vol;
            auto blocked = [&](int i, int j, int dd) { const int plane = dd == 0 ? lx + i + 1 : ly + j + 1; if (plane % 2) return false; const double t = dd == 0 ? 0.5*(ly + j) + 0.25 : 0.5*(lx + i) + 0.25; for (auto& g : v) if (g.on(dd == 0, plane/2, t) && (dd == 0 ? present(g, plane/2, t) : present(g, t, plane/2))) return true; return false; };
            for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) if (mark[i*ny+j] < 0)
            { std::vector<std::array<int,2>> st{{i,j}}; mark[i*ny+j] = 1; double V = 0; while (!st.empty()) { auto q = st.back(); st.pop_back(); V += 0.25*h*h; for (int dd = 0; dd < 2; ++dd) for (int sg = -1; sg < 2; sg += 2) { auto t = q; t[dd] += sg; if (t[0] < 0 || t[1] < 0 || t[0] >= nx || t[1] >= ny || mark[t[0]*ny+t[1]] >= 0) continue; const auto& l = sg > 0 ? q : t; if (blocked(l[0], l[1], dd)) continue; mark[t[0]*ny+t[1]] = 1; st.push_back(t); } } vol.push_back(V); }
            std::vector<double> got; for (auto& f : w.doms[d.id]) got.push_back(std::abs(shapeMeasure(f))); std::sort(got.begin(), got.end()); std::sort(vol.begin(), vol.end()); bool ok = got.size() == vol.size(); for (std::size_t i = 0; ok && i < got.size(); ++i) ok = std::abs(got[i]-vol[i]) < 1e-5*h*h; c.count("domains judged"); if (vol.size() > 1) c.count("domains cut");
            if (!ok) { std::string t; for (double x : got) t += str(" ", x/(h*h)); t += " expected"; for (double x : vol) t += str(" ", x/(h*h)); c.fail("domain-parts", str("parts of sub-domain ", d.id, " have areas", t)); return; }
        }
    });
    require("domains:confined", 60); require("domains:confined to union", 20); require("domains:inside", 30); require("domains:unconfined", 20); require("domains:without domain", 10); require("domains:domains judged", 300); require("domains:domains cut", 50); require("domains:faces in domains", 100); require("domains:inner faces", 100);
    require("lattice:cells", 3000); require("lattice:domains judged", 300); require("lattice:domains cut", 25); require("lattice:shared shapes", 30); require("lattice:faces in domains", 200); require("planar:domains cut", 60); require("planar:edges in domains", 200);
    return finish();
}
