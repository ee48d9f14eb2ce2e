// C10: the fragments of a network cover its entities: area, location, overlaps, uncut crossings, index map.
#include "net.hh"
using namespace vf;
namespace {
using Builder = F::EntityNetworkBuilder<double>;
V3 place(Rng& r, double L) { static const double f[] = {0, 0, 1, 20}; const double k = f[r.i(4)]; return k == 0 ? V3(0,0,0) : randVec(r, k*L); }
double scale(Rng& r) { static const double s[] = {0.1, 1, 1, 1, 10, 100, 1000}; return s[r.i(7)]*r.u(0.5, 2); }
std::vector<Frag*> ofIndex(std::vector<Frag>& v, int idx) { std::vector<Frag*> p; for (auto& f : v) if (f.idx == idx) p.push_back(&f); return p; }
void crossings(Case& c, const Scenario& s, const std::vector<std::vector<Frag*>>& g)
{ for (std::size_t i = 0; i < s.ents.size() && !c.failed; ++i) for (std::size_t j = 0; j < i && !c.failed; ++j) checkCrossing(c, s, s.ents[i], s.ents[j], g[i], g[j]); }

// ---- lattice: axis-aligned rectangles with integer corners, judged cell by cell
struct Rect { int ax, at, lo[2], hi[2]; bool contains(int axis, int level, int i, int j) const { return axis == ax && level == at && i >= lo[0] && i < hi[0] && j >= lo[1] && j < hi[1]; } };
V3 cellPoint(int ax, double at, double x, double y) { return ax == 0 ? V3(at, x, y) : ax == 1 ? V3(x, at, y) : V3(x, y, at); }
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    section("plain", 700, 20000, [](Rng& r, Case& c) {
        Scenario s; s.L = scale(r); s.plain = r.b(0.7); const V3 o = place(r, s.L); const int n = r.i(1, 6); const std::size_t sub = s.plain ? 0 : r.i(5); if (r.b(0.2)) s.eps = s.L*r.lu(1e-8, 1e-6);
        for (int i = 0; i < n; ++i) addGeneric(r, s, o, 0.4*s.L, s.L*r.u(0.5, 1.5), sub); if (s.ents.empty()) throw Skip{"no general position"}; s.describe(c.in);
        Builder b; fillDomains(b, s); fillEntities(b, s); const auto& net = b.build(); c.nontrivial(); c.count(s.ents.size() == 1 ? "single" : "several");
        if (net.entityDimension() != 2) c.fail("dimension", str("entityDimension() = ", net.entityDimension()));
        auto v = fragments(c, net.entityFragments(), net.entityFragmentsIndexMap(), TopAbs_FACE); std::vector<std::vector<Frag*>> g; std::size_t used = 0;
        for (std::size_t i = 0; i < s.ents.size(); ++i) { g.push_back(ofIndex(v, int(i)+1)); used += g[i].size(); checkFill(c, r, s, s.ents[i], g[i], s.ents[i].measure(), str("entity ", i+1)); if (g[i].size() > 1) c.count("cut entities"); }
        if (used != v.size()) c.fail("index-range", "a fragment has an index that belongs to no entity");
        if (!c.failed) crossings(c, s, g);
    });
    section("confined", 700, 20000, [](Rng& r, Case& c) {
        Scenario s; s.L = scale(r); const V3 o = place(r, s.L); Dom D; D.id = r.i(4); D.confining = r.b(0.7); D.how = r.i(2); D.d = randSolid(r, o, s.L, r.i(3)); s.doms.push_back(D); s.unionOn = r.b(0.85); s.plain = D.id == 0 && r.b();
        const int n = r.i(1, 6); for (int i = 0; i < n; ++i) addGeneric(r, s, o, r.b(0.3) ? 0.3*s.L : 1.2*s.L, s.L*(r.b(0.3) ? r.u(0.1, 0.3) : r.u(0.5, 2)), D.id); if (s.ents.empty()) throw Skip{"no general position"}; s.describe(c.in);
        std::vector<double> want; double all = 0; for (auto& e : s.ents) { want.push_back(wantedArea(s, e)); all += want.back(); }
        Builder b; if (r.b()) { fillDomains(b, s); fillEntities(b, s); } else { fillEntities(b, s); fillDomains(b, s); } const auto& net = b.build(); c.nontrivial();
        auto v = fragments(c, net.entityFragments(), net.entityFragmentsIndexMap(), TopAbs_FACE); std::vector<std::vector<Frag*>> g; std::size_t used = 0;
        for (std::size_t i = 0; i < s.ents.size(); ++i)
        { g.push_back(ofIndex(v, int(i)+1)); used += g[i].size(); checkFill(c, r, s, s.ents[i], g[i], want[i], str("entity ", i+1)); c.count(want[i] == 0 ? "outside" : want[i] > 0.999999*s.ents[i].measure() ? "inside" : "across"); }
        if (used != v.size()) c.fail("index-range", "a fragment has an index that belongs to no entity"); if (all == 0) c.count("nothing left");
        if (!c.failed) crossings(c, s, g);
    });
    // several sub-domains side by side, some without a domain; indices are unique over all of them
    section("sub-domains", 700, 20000, [](Rng& r, Case& c) {
        Scenario s; s.L = scale(r); const V3 o = place(r, s.L); const int nd = r.i(0, 3); std::vector<std::size_t> ids; while (ids.size() < 4) { const std::size_t i = r.b(0.8) ? r.i(8) : r.i(1000); if (!std::count(ids.begin(), ids.end(), i)) ids.push_back(i); }
        const V3 dir = r.i(3) == 0 ? V3(1,0,0) : r.b() ? V3(0,1,0) : V3(0,0,1); s.unionOn = r.b(0.8);
        for (int i = 0; i < nd; ++i)
        {
            Dom D; D.id = ids[i]; D.confining = r.b(0.7); D.how = r.i(2); const bool stack = i > 0 && s.doms.back().d.kind == 0 && r.b(0.5);
            if (stack) { D.d = s.doms.back().d; const V3 h = D.d.hi - D.d.lo; const double t = r.u(0.4, 1.3); if (dir.x > 0) { D.d.lo.x = D.d.hi.x; D.d.hi.x += t*h.x; } else if (dir.y > 0) { D.d.lo.y = D.d.hi.y; D.d.hi.y += t*h.y; } else { D.d.lo.z = D.d.hi.z; D.d.hi.z += t*h.z; } }
            else D.d = randSolid(r, o + (i*3.1*s.L)*dir, s.L, r.b(0.6) ? 0 : r.i(1, 2));
            s.doms.push_back(D);
        }
        for (std::size_t i = 1; i < s.doms.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (s.doms[i].d.kind == 0 && s.doms[j].d.kind != 0) { auto& q = s.doms[i].d; const V3 m = 0.5*(q.lo+q.hi), f = s.doms[j].d.kind == 1 ? s.doms[j].d.c : s.doms[j].d.cyl.f.at(0,0,0.5*s.doms[j].d.cyl.h); if (dist(m, f) < s.L) throw Skip{"overlapping domains"}; }
        for (std::size_t i = 1; i < s.doms.size(); ++i) for (std::size_t j = 0; j + 1 < i; ++j) if (s.doms[i].d.kind == 0 && s.doms[j].d.kind == 0 && s.doms[j].d.signedDist(0.5*(s.doms[i].d.lo + s.doms[i].d.hi)) < 0.3*s.L) throw Skip{"overlapping domains"};
        const int n = r.i(2, 8); for (int i = 0; i < n; ++i) addGeneric(r, s, o + (r.u(-0.3, std::max(1, nd) - 0.7)*(r.b() ? 1.2 : 3.1)*s.L)*dir, r.b(0.3) ? 0.2*s.L : 0.8*s.L, s.L*(r.b(0.3) ? r.u(0.1, 0.3) : r.u(0.5, 2)), ids[r.i(r.b(0.8) && nd > 1 ? nd : 4)]);
        if (s.ents.empty()) throw Skip{"no general position"}; s.describe(c.in);
        std::vector<double> want; for (auto& e : s.ents) want.push_back(wantedArea(s, e));
        Builder b; if (r.b()) { fillDomains(b, s); fillEntities(b, s); } else { fillEntities(b, s); fillDomains(b, s); } const auto& net = b.build(); c.nontrivial();
        auto v = fragments(c, net.entityFragments(), net.entityFragmentsIndexMap(), TopAbs_FACE); std::vector<std::vector<Frag*>> g(s.ents.size()); std::map<int,int> owner; std::set<int> reported;
        for (auto& f : v)
        {   // the entity this fragment lies in
            int own = -1, cnt = 0; for (std::size_t k = 0; k < s.ents.size(); ++k) { bool in = true; for (auto& e : f.edges) for (auto& x : e.pts) in = in && s.ents[k].distTo(x) < 2e-5*s.ents[k].size() + 2e-6*s.L; if (in) { own = int(k); cnt++; } }
            if (cnt == 0) { c.fail("not-contained", "a fragment lies in no entity"); return; } if (cnt > 1) throw Skip{"ambiguous fragment"};
            g[own].push_back(&f); auto it = owner.find(f.idx); if (it == owner.end()) owner[f.idx] = own; else if (it->second != own) { c.fail("index-shared", str("index ", f.idx, " is used for fragments of entity ", it->second, " and of entity ", own)); return; }
        }
        std::map<int,std::set<int>> idxOf; for (auto& p : owner) idxOf[p.second].insert(p.first); for (auto& p : idxOf) if (p.second.size() > 1) c.fail("index-split", str("fragments of entity ", p.first, " have ", p.second.size(), " different indices"));
        std::set<std::size_t> subs; for (std::size_t i = 0; i < s.ents.size(); ++i) { checkFill(c, r, s, s.ents[i], g[i], want[i], str("entity ", i+1)); c.count(want[i] == 0 ? "outside" : "present"); subs.insert(s.ents[i].sub); }
        c.count(subs.size() > 1 ? "several networks" : "one network"); if (!c.failed) crossings(c, s, g);
    });
    // coplanar overlaps, shared edges, T-junctions and duplicates, cell by cell; no or one box-shaped domain
    section("lattice", 900, 30000, [](Rng& r, Case& c) {
        const double h = scale(r)*0.25; const V3 o = place(r, 4*h); const int N = r.i(2, 5), n = r.i(1, 7); std::vector<Rect> v;
        for (int k = 0; k < n; ++k)
        {
            Rect q; if (k && r.b(0.15)) { q = r.pick(v); v.push_back(q); continue; } q.ax = r.i(3); q.at = k && r.b(0.4) ? r.pick(v).at : r.i(N+1);
            for (int d = 0; d < 2; ++d) { q.lo[d] = r.i(N); q.hi[d] = r.i(q.lo[d]+1, N); } v.push_back(q);
        }
        Scenario s; s.L = 4*h; s.plain = r.b(0.7); std::size_t sub = 0; const bool box = r.b(0.5), multi = r.b(0.3); double lo[3], hi[3]; if (multi) s.plain = false;
        if (box) { s.plain = false; sub = r.i(3); Dom D; D.id = sub; D.confining = r.b(0.7); D.how = r.i(2); for (int d = 0; d < 3; ++d) { lo[d] = r.i(-1, N-1) + 0.5; hi[d] = r.i(int(lo[d]+0.5), N) + 0.5; } D.d.kind = 0; D.d.lo = o + h*V3(lo[0], lo[1], lo[2]); D.d.hi = o + h*V3(hi[0], hi[1], hi[2]); s.doms.push_back(D); }
        for (auto& q : v)
        {
            Ent e; e.sub = multi ? r.i(3) : sub; e.how = r.i(3); e.m.isDisk = false; e.m.f.o = o + h*cellPoint(q.ax, q.at, q.lo[0], q.lo[1]); e.m.f.u = q.ax == 0 ? V3(0,1,0) : V3(1,0,0); e.m.f.v = q.ax == 2 ? V3(0,1,0) : V3(0,0,1); e.m.f.w = cross(e.m.f.u, e.m.f.v);
            const double x = h*(q.hi[0]-q.lo[0]), y = h*(q.hi[1]-q.lo[1]); e.m.poly = {{0,0},{x,0},{x,y},{0,y}}; s.ents.push_back(e);
        }
        s.describe(c.in); Builder b; fillDomains(b, s); fillEntities(b, s); const auto& net = b.build(); c.nontrivial();
        auto fr = fragments(c, net.entityFragments(), net.entityFragmentsIndexMap(), TopAbs_FACE); if (c.failed) return;
        auto inBox = [&](V3 x) { if (!box) return true; const V3 l = (x - o)/h; return l.x > lo[0] && l.x < hi[0] && l.y > lo[1] && l.y < hi[1] && l.z > lo[2] && l.z < hi[2]; };
        double total = 0; for (auto& f : fr) total += f.measure; double wantTotal = 0; Frame P[3]; for (int a = 0; a < 3; ++a) { P[a].o = o; P[a].u = a == 0 ? V3(0,1,0) : V3(1,0,0); P[a].v = a == 2 ? V3(0,1,0) : V3(0,0,1); P[a].w = cross(P[a].u, P[a].v); }
        // entities of other sub-domains are not confined
        auto present = [&](int k, V3 x) { return s.ents[k].sub != sub || inBox(x); }; if (multi) c.count("several networks");
        std::vector<int> axOf; for (auto& f : fr) { V3 w(0,0,0); for (auto& e : f.edges) for (auto& e2 : f.edges) { const V3 q = cross(e.b-e.a, e2.b-e2.a); if (norm(q) > norm(w)) w = q; } axOf.push_back(std::abs(w.x) > std::abs(w.y) ? std::abs(w.x) > std::abs(w.z) ? 0 : 2 : std::abs(w.y) > std::abs(w.z) ? 1 : 2); }
        for (auto& f : fr) if (f.idx < 1 || f.idx > n) { c.fail("index-range", str("index ", f.idx)); return; }
        // quarter cells
        for (int ax = 0; ax < 3; ++ax) for (int at = 0; at <= N; ++at) for (int i = 0; i < 2*N; ++i) for (int j = 0; j < 2*N; ++j)
        {
            std::set<int> own; for (int k = 0; k < n; ++k) if (v[k].contains(ax, at, i/2, j/2) && present(k, o + h*cellPoint(ax, at, 0.5*i + 0.23, 0.5*j + 0.27))) own.insert(k+1);
            const V3 x = o + h*cellPoint(ax, at, 0.5*i + 0.23, 0.5*j + 0.27); const bool want = !own.empty(); if (want) wantTotal += 0.25*h*h; Frame pl = P[ax]; pl.o = x;
            int hits = 0; for (std::size_t q = 0; q < fr.size(); ++q) { auto& f = fr[q]; if (axOf[q] == ax && std::abs(dot(f.cen - x, pl.w)) < 1e-4*h && f.inside(pl, x)) { hits++; if (want && !multi && !own.count(f.idx)) c.fail("wrong-index", str("the fragment at ", x, " has index ", f.idx, " of an entity that is not there")); } }
            if (hits != int(want)) c.fail(want ? hits ? "overlap" : "uncovered" : "not-contained", str(hits, " fragments at ", x, ", expected ", want)); if (want) c.count("cells"); if (want && own.size() > 1) c.count("cells shared");
            // edges on which other entities meet this plane
            if (!want || c.failed) continue;
            for (int e = 0; e < 2; ++e)
            {   // the grid line through the lower side of this quarter cell, if it lies on integer coordinates
                if ((e == 0 ? j : i) % 2) continue; const V3 y = o + h*(e == 0 ? cellPoint(ax, at, 0.5*i + 0.23, j/2) : cellPoint(ax, at, i/2, 0.5*j + 0.27)); bool meets = false; const V3 l = (y - o)/h; const double co[3] = {l.x, l.y, l.z};
                for (int k = 0; k < n; ++k) if (v[k].ax != ax && !own.count(k+1) && present(k, y)) { const int a = v[k].ax, d0 = a == 0 ? 1 : 0, d1 = a == 2 ? 1 : 2; if (std::abs(co[a] - v[k].at) < 1e-6 && co[d0] > v[k].lo[0] - 1e-6 && co[d0] < v[k].hi[0] + 1e-6 && co[d1] > v[k].lo[1] - 1e-6 && co[d1] < v[k].hi[1] + 1e-6) meets = true; }
                if (!meets) continue; c.count("meeting points"); for (std::size_t t = 0; t < fr.size(); ++t) { auto& f = fr[t]; if (axOf[t] != ax || std::abs(dot(f.cen - y, pl.w)) > 1e-4*h || f.distEdges(y) < 1e-4*h) continue; Frame q = pl; q.o = y; if (f.inside(q, y)) c.fail("uncut", str("entities meet inside a fragment at ", y)); }
            }
        }
        if (!c.failed && std::abs(total - wantTotal) > 1e-5*(h*h + wantTotal)) c.fail("measure", str("total area ", total, ", expected ", wantTotal));
    });
    // one-dimensional networks: segments, free or confined to a solid or a planar domain
    section("segments", 900, 30000, [](Rng& r, Case& c) {
        Scenario s; s.L = scale(r); const V3 o = place(r, s.L); const bool planar = r.b(0.7), face = planar && r.b(0.5), solid = !face && r.b(0.4); Planar Q = randPolygon(r, o, s.L, 4); s.plain = !solid && !face; Dom D; if (solid) { D.d = randSolid(r, o, s.L, r.i(3)); D.id = 3; D.confining = true; s.doms.push_back(D); }
        const int n = r.i(1, 6); auto pt = [&] { return planar ? Q.f.at(r.u(-1,1)*s.L, r.u(-1,1)*s.L) : o + randVec(r, s.L); };
        for (int t = 0; t < 40 && int(s.ents.size()) < n; ++t)
        {
            Ent e; e.seg = true; e.sub = solid ? 3 : face ? 2 : 0; e.how = r.i(2); e.p = pt(); e.q = pt(); if (dist(e.p, e.q) < 0.2*s.L) continue; bool bad = false; const double tol = 0.01*s.L;
            for (auto& x : s.ents) { if (std::min(std::min(distPointSegment(e.p, x.p, x.q), distPointSegment(e.q, x.p, x.q)), std::min(distPointSegment(x.p, e.p, e.q), distPointSegment(x.q, e.p, e.q))) < tol || norm(cross(unit(e.q-e.p), unit(x.q-x.p))) < 0.05) bad = true; const double d = distSegSeg(e.p, e.q, x.p, x.q); if (d > 1e-9*s.L && d < tol) bad = true; }
            if (solid) { if (std::abs(D.d.signedDist(e.p)) < tol || std::abs(D.d.signedDist(e.q)) < tol) bad = true; const Interval k = D.d.line(e.p, unit(e.q-e.p)); if (k[0] > k[1] ? D.d.signedDist(e.p + 0.5*(e.q-e.p)) < 0.1*s.L : D.d.signedDist(e.p + 0.5*(k[0]+k[1])*unit(e.q-e.p)) > -0.05*s.L) bad = true; }
            if (face) { const V3 u = unit(e.q-e.p); if (Q.distToRim(e.p) < tol || Q.distToRim(e.q) < tol) bad = true; for (int i = 0; i < 4; ++i) if (distPointLine(Q.corner(i), e.p, u) < 2*tol) bad = true; }
            if (!bad) s.ents.push_back(e);
        }
        if (s.ents.empty()) throw Skip{"no general position"}; s.describe(c.in); if (face) Q.describe(c.in); c.in << " planar=" << planar;
        Builder b; fillDomains(b, s); if (face) { if (r.b()) b.addConfiningSubDomain(fquad(Q), F::Id(2)); else b.addSubDomain(fpoly(Q), F::Id(2)); } fillEntities(b, s);
        const auto& net = b.build(); c.nontrivial(); if (net.entityDimension() != 1) c.fail("dimension", str("entityDimension() = ", net.entityDimension()));
        auto v = fragments(c, net.entityFragments(), net.entityFragmentsIndexMap(), TopAbs_EDGE); std::size_t used = 0;
        for (std::size_t i = 0; i < s.ents.size() && !c.failed; ++i)
        {
            const Ent& e = s.ents[i]; auto g = ofIndex(v, int(i)+1); used += g.size(); const double len = e.measure(); const V3 u = unit(e.q-e.p); double a = 0, z = len; if (solid) { const Interval k = D.d.line(e.p, u); a = std::max(a, k[0]); z = std::min(z, k[1]); }
            if (face) { const auto k = Q.clip(e.p, u); if (k.empty()) z = a; else { a = std::max(a, k[0][0]); z = std::min(z, k[0][1]); } } const double want = std::max(0.0, z - a); c.count(want == 0 ? "outside" : want < 0.999999*len ? "across" : "inside");
            std::vector<double> cut{a, z}; if (want > 0) for (auto& x : s.ents) if (&x != &e && distSegSeg(e.p, e.q, x.p, x.q) < 1e-9*s.L) { const V3 w = unit(x.q-x.p); const V3 nn = cross(u, w); const double t = dot(cross(x.p - e.p, w), nn)/dot(nn, nn); if (std::abs(t - a) < 1e-3*s.L || std::abs(t - z) < 1e-3*s.L) throw Skip{"crossing on the boundary"}; if (t > a && t < z) { cut.push_back(t); c.count("crossings"); } }
            std::sort(cut.begin(), cut.end()); for (std::size_t k = 0; k+1 < cut.size(); ++k) if (cut.size() > 2 && cut[k+1]-cut[k] < 1e-4*s.L) throw Skip{"close crossings"};
            if (want == 0) { if (!g.empty()) c.fail("not-confined", "a segment outside the domain has fragments"); continue; }
            std::vector<double> got; for (auto f : g) { double t0 = dot(rg(f->edges[0].c.Value(f->edges[0].c0)) - e.p, u), t1 = dot(rg(f->edges[0].c.Value(f->edges[0].c1)) - e.p, u); got.push_back(std::min(t0, t1)); got.push_back(std::max(t0, t1)); for (auto& x : f->edges[0].pts) if (e.distTo(x) > 1e-5*s.L) c.fail("not-contained", "a fragment leaves its segment"); }
            std::sort(got.begin(), got.end()); bool ok = got.size() == 2*(cut.size()-1); for (std::size_t k = 0; ok && k < got.size(); ++k) ok = std::abs(got[k] - cut[(k+1)/2]) < 1e-5*s.L; c.count("segments judged");
            if (!ok) { std::string t; for (double x : got) t += str(" ", x); t += " expected"; for (double x : cut) t += str(" ", x); c.fail("pieces", str("segment ", i+1, " is cut at", t)); }
        }
        if (!c.failed && used != v.size()) c.fail("index-range", "a fragment has an index that belongs to no entity");
    });
    require("plain:entities judged", 300); require("plain:crossings", 60); require("plain:single", 10); require("confined:across", 100); require("confined:inside", 30); require("confined:outside", 30); require("confined:crossings", 30); require("confined:nothing left", 2);
    require("sub-domains:several networks", 50); require("sub-domains:crossings", 30); require("lattice:cells", 3000); require("lattice:cells shared", 200); require("lattice:meeting points", 300); require("segments:segments judged", 200); require("segments:crossings", 60);
    return finish();
}
