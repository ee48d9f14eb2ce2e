// C24: the whole way from samplers to mesh input. A network is grown by sample-and-check, exported, built and written
// to files; every step and the files are judged against models of the entities that were accepted.
#define VERIF_DETERMINISTIC_DEVICE
#include "cmodel.hh"
#include "netgen.hh"
#include "geofile.hh"
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/status.hh>
#include <frackit/io/gmshwriter.hh>
using namespace vf;
namespace fs = std::filesystem;
namespace {
struct Scratch { std::string dir; Scratch() { std::string t = (fs::temp_directory_path()/"verif_c24_XXXXXX").string(); if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory"); dir = t; } ~Scratch() { std::error_code e; if (dir.find("verif_c24_") != std::string::npos) fs::remove_all(dir, e); } };
// models of sampled geometries, from their corners and axes
Planar flat(const std::vector<V3>& p)
{
    Planar m; m.isDisk = false; V3 n(0,0,0), o(0,0,0); const int k = int(p.size()); for (auto& x : p) o = o + x/double(k); for (int i = 0; i < k; ++i) n = n + cross(p[i]-o, p[(i+1)%k]-o);
    m.f.o = o; m.f.w = unit(n); m.f.u = unit(p[1]-p[0]); m.f.u = unit(m.f.u - dot(m.f.u, m.f.w)*m.f.w); m.f.v = cross(m.f.w, m.f.u); for (auto& x : p) { const V3 l = m.f.local(x); m.poly.push_back({l.x, l.y}); } return m;
}
Planar modelOf(const FDisk& d) { Planar m; m.f.o = rp(d.center()); m.f.u = rd(d.majorAxis()); m.f.v = rd(d.minorAxis()); m.f.w = cross(m.f.u, m.f.v); m.a = d.majorAxisLength(); m.b = d.minorAxisLength(); return m; }
Planar modelOf(const Quad3& q) { return flat({rp(q.corner(0)), rp(q.corner(1)), rp(q.corner(3)), rp(q.corner(2))}); }
Planar modelOf(const Poly3& q) { std::vector<V3> v; for (std::size_t i = 0; i < q.numCorners(); ++i) v.push_back(rp(q.corner(i))); return flat(v); }
// facts about a pair of convex planar shapes, from the models alone
Facts pairFacts(Rng& r, const Geo& A, const Geo& B)
{
    Facts f; f.tol = 3e-7*std::max(A.size(), B.size()); const double m = 1e-5*std::min(A.size(), B.size()); V3 p, d;
    if (planeAngle(A.m.f.w, B.m.f.w) < 1e-3 || !planes(A.m, B.m, p, d))
    { const Interval k = convexDistance(A.m, B.m, 1e-5*A.size()); if (k[0] < 10*m) f.failed = true; f.empty = true; f.d = k; f.distKnown = true; return f; }
    auto ca = A.m.clip(p, d), cb = B.m.clip(p, d); double lo = 1e300, hi = -1e300; if (ca.size() > 1 || cb.size() > 1) { f.failed = true; return f; } if (ca.size() && cb.size()) { lo = std::max(ca[0][0], cb[0][0]); hi = std::min(ca[0][1], cb[0][1]); }
    if (hi - lo > 10*m) { Piece s; s.t = 'S'; s.s = {p + lo*d, p + hi*d}; s.len = hi - lo; f.v.push_back(s); f.aLo = f.aHi = planeAngle(A.m.f.w, B.m.f.w); return f; }
    const Obj oa = objOf(A), ob = objOf(B); f.d = distanceBounds(oa, ob, 1e-4*(A.size() + B.size()), r); f.distKnown = true; f.empty = true; if (f.d[0] < 10*m) { f.failed = true; return f; }
    if (oa.k == KDisk || ob.k == KDisk) f.d[1] = std::max(f.d[1], std::max(occDistance(oa.shape(), ob.shape()), occDistance(ob.shape(), oa.shape())));    // see F1 of C15
    return f;
}
using Constraints = F::EntityNetworkConstraints<double>;
Constraints make(const Settings& s) { Constraints c; if (s.uD) c.setMinDistance(s.d); if (s.uA) c.setMinIntersectingAngle(s.a); if (s.uM) c.setMinIntersectionMagnitude(s.m); if (s.uB) c.setMinIntersectionDistance(s.b); return c; }
Settings randSettings(Rng& r, double L) { Settings s; if (r.b(0.8)) { s.uD = true; s.d = L*r.lu(0.005, 0.1); } if (r.b(0.6)) { s.uA = true; s.a = r.u(0.05, 1.0); } if (r.b(0.6)) { s.uM = true; s.m = L*r.lu(0.01, 0.15); } if (r.b(0.6)) { s.uB = true; s.b = L*r.lu(0.005, 0.06); } return s; }
struct Accepted { std::size_t id; Ent e; };
}
int main(int argc, char** argv)
{
    parse(argc, argv); Scratch t;
    section("workflow", 120, 4000, [&](Rng& r, Case& c) {
        // domains: the first one or the middle one of a stack holds the network
        const double L = netScale(r); const V3 o = netPlace(r, L); Scenario S; S.L = L; const auto domIds = randIds(r, 3); const int nd = r.b(0.4) ? 1 : r.i(2, 3), hold = r.i(nd), ax = r.i(3); V3 lo = o;
        for (int k = 0; k < nd; ++k)
        {
            Dom D; D.id = domIds[k]; D.how = r.i(2); D.confining = k == hold || r.b(0.7); D.d.kind = 0; V3 h(L*r.u(0.6, 1), L*r.u(0.6, 1), L*r.u(0.6, 1)); if (k) { const V3 p = S.doms[0].d.hi - S.doms[0].d.lo; if (ax != 0) h.x = p.x; if (ax != 1) h.y = p.y; if (ax != 2) h.z = p.z; }
            if (nd == 1 && r.b(0.4)) D.d = randSolid(r, o, 0.6*L, r.i(1, 2)); else { D.d.lo = lo; D.d.hi = lo + h; (ax == 0 ? lo.x : ax == 1 ? lo.y : lo.z) = ax == 0 ? D.d.hi.x : ax == 1 ? D.d.hi.y : D.d.hi.z; }
            S.doms.push_back(D);
        }
        const Dom& H = S.doms[hold]; for (auto& d : S.doms) c.in << d; c.in << " network in " << H.id << ";";
        // samplers: centres drawn in a box around (or in) the domain
        V3 b0, b1; if (H.d.kind == 0) { b0 = H.d.lo; b1 = H.d.hi; } else { const V3 m = H.d.kind == 1 ? H.d.c : H.d.cyl.f.o + 0.5*H.d.cyl.h*H.d.cyl.f.w; const double e = 0.5*H.d.diag(); b0 = m - V3(e,e,e); b1 = m + V3(e,e,e); }
        const FBox cb(b0.x, b0.y, b0.z, b1.x, b1.y, b1.z); using N = std::normal_distribution<double>; using U = std::uniform_real_distribution<double>;
        std::unique_ptr<F::MultiGeometrySampler<FDisk, Quad3, Poly3>> multi(new F::MultiGeometrySampler<FDisk, Quad3, Poly3>); F::MultiGeometryEntitySet<FDisk, Quad3, Poly3> sets; F::SamplingStatus status;
        const int ns = r.i(1, 4); const auto setIds = randIds(r, ns); std::map<std::size_t,int> type; std::map<std::size_t,std::size_t> target, count; double smin = 1e300;
        for (int i = 0; i < ns; ++i)
        {
            const int k = r.i(3); const F::Id id(setIds[i]); type[setIds[i]] = k; const double s = L*r.u(0.3, 1.2), a = r.u(0, 3), b = r.u(0, 1.5); smin = std::min(smin, s); target[setIds[i]] = r.i(1, 5); status.setTargetCount(id, target[setIds[i]]); const auto ps = F::makeUniformPointSampler(cb);
            if (k == 0) multi->addGeometrySampler(F::DiskSampler<>(ps, N(0.5*s, 0.1*s), N(0.4*s, 0.1*s), N(a, 0.2), N(b, 0.2), N(0, 0.5)), id); else if (k == 1) multi->addGeometrySampler(F::QuadrilateralSampler<3>(ps, N(a, 0.2), N(b, 0.2), U(0.5*s, s), U(0.5*s, s)), id); else multi->addGeometrySampler(F::PolygonSampler<3>(ps, N(a, 0.2), N(b, 0.2), U(0.5*s, s), U(0.5*s, s), std::uniform_int_distribution<int>(4, 7)), id);
            c.in << " set " << setIds[i] << " type " << k << " target " << target[setIds[i]];
        }
        // relations, possibly one-sided (quadrilaterals and polygons cannot be intersected with each other)
        F::EntityNetworkConstraintsMatrix<Constraints> matrix; std::map<std::pair<std::size_t,std::size_t>, Settings> rel; for (auto i : setIds) for (auto j : setIds) if (type[i] + type[j] != 3 && (i == j || r.b(0.8))) { const Settings s = randSettings(r, L); rel[{i, j}] = s; matrix.addConstraints(make(s), F::IdPair(i, j)); c.in << " (" << i << "," << j << ")" << s; }
        const bool onBoundary = H.d.kind == 0 && r.b(0.6); Settings bs = randSettings(r, L); if (!bs.any()) { bs.uD = true; bs.d = 0.01*L; } const Constraints bc = make(bs); std::vector<TopoDS_Face> bfaces; if (onBoundary) { c.in << " boundary" << bs; visit(H, [&](const auto& g) { bfaces = F::OCCUtilities::getFaces(F::OCCUtilities::getShape(g)); }); }
        TopoDS_Shape solid; visit(H, [&](const auto& g) { solid = F::OCCUtilities::getShape(g); }); const TopoDS_Solid domain = F::OCCUtilities::getSolids(solid).at(0); const double minArea = r.b(0.7) ? smin*smin*r.u(0.02, 0.3) : 0;
        std::vector<Accepted> acc; CoutCapture cap; int tries = 0; const bool generic = r.b(0.85);    // a criterion of the user: nothing close to special positions
        while (!status.finished() && tries++ < 70 && !c.failed)
        {
            F::Id id; const auto g = (*multi)(id); const std::size_t i = id.get(); if (!type.count(i)) { c.fail("id", str("a geometry of unknown set ", i)); return; }
            if (status.finished(id) != (count[i] >= target[i])) { c.fail("status", str("set ", i, " finished: ", status.finished(id), " with ", count[i], " of ", target[i])); return; }
            if (status.finished(id)) { status.increaseRejectedCounter(); continue; }
            Geo G; G.k = type[i] == 0 ? GDisk : type[i] == 1 ? GQuad : GPoly; if (auto d = std::dynamic_pointer_cast<FDisk>(g)) { if (type[i] != 0) c.fail("id", "a disk for another set"); G.m = modelOf(*d); } else if (auto q = std::dynamic_pointer_cast<Quad3>(g)) { if (type[i] != 1) c.fail("id", "a quadrilateral for another set"); G.m = modelOf(*q); } else if (auto p = std::dynamic_pointer_cast<Poly3>(g)) { if (type[i] != 2) c.fail("id", "a polygon for another set"); G.m = modelOf(*p); } if (c.failed) return;
            c.count("candidates"); const double area = clippedArea(G.m, H.d), got = F::computeContainedMagnitude(g, domain), at = 1e-3*(H.d.kind ? 1 : 0.02)*area + 1e-5*G.size()*G.size();
            bool grazing = false; if (std::abs(got - area) > at) { grazing = nearDegenerate(G.m, H.d); if (!grazing) { c.fail("contained-area", str("candidate has area ", got, " in the domain, expected ", area)); G.describe(c.in); return; } }
            if (got < minArea) { status.increaseRejectedCounter(); c.count("too small"); continue; }
            auto judge = [&](Tri want, bool verdict, const char* what) { if (want == Unsure) { c.count("too close to tell"); return; } c.count(want == Yes ? "admissible" : "violating"); if (verdict != (want == Yes)) { G.describe(c.in); c.fail(what, str("a candidate of set ", i, " was ", verdict ? "accepted" : "rejected", ", expected the opposite; ", acc.size(), " entities so far")); } };
            Tri want = Yes; bool any = false; for (auto& p : rel) if (p.first.first == i) for (auto& a : acc) if (a.id == p.first.second) { Geo B; B.k = type[a.id] == 0 ? GDisk : type[a.id] == 1 ? GQuad : GPoly; B.m = a.e.m; any = true; want = both(want, model(p.second, G, B, pairFacts(r, G, B))); }
            const bool ok = matrix.evaluate(sets, g, id); judge(want, ok, "constraints"); (void)any; if (c.failed) return; if (!ok) { status.increaseRejectedCounter(); continue; }
            if (onBoundary)
            {
                Tri w = Yes; for (int k = 0; k < 6; ++k) { Geo B; B.k = GFace; B.m = boxFace(H.d, k); w = both(w, model(bs, G, B, pairFacts(r, G, B))); }
                const bool in = bc.evaluate(bfaces, g); judge(w, in, "boundary-constraints"); c.count(in ? "boundary accepted" : "boundary rejected"); if (c.failed) return; if (!in) { status.increaseRejectedCounter(); continue; }
            }
            if (generic) { bool bad = false; for (auto& d : S.doms) bad = bad || nearDegenerate(G.m, d.d); for (auto& a : acc) bad = bad || nearDegenerate(G.m, a.e.m); if (bad) { status.increaseRejectedCounter(); c.count("refused by the user"); continue; } }
            sets.addEntity(g, id); status.increaseCounter(id); ++count[i]; Accepted A; A.id = i; A.e.m = G.m; A.e.sub = H.id; acc.push_back(A); if (r.b(0.2)) status.print();
        }
        std::size_t total = 0; bool done = true; for (auto i : setIds) { total += count[i]; done = done && count[i] >= target[i]; if (sets.numEntities(F::Id(i)) != count[i]) c.fail("set-size", str("set ", i, " holds ", sets.numEntities(F::Id(i)), " of ", count[i], " accepted entities")); if (status.getCount(F::Id(i)) != count[i]) c.fail("status", str("set ", i, ": status counts ", status.getCount(F::Id(i)), ", accepted were ", count[i])); }
        if (status.finished() != done) c.fail("status", "finished() does not tell whether all targets are reached"); if (sets.numEntities() != total) c.fail("set-size", str(sets.numEntities(), " of ", total, " accepted entities")); c.count(done ? "complete" : "given up"); if (acc.empty() || c.failed) return;
        c.nontrivial(); if (r.b()) multi.reset();
        // export, build, write
        F::ContainedEntityNetworkBuilder<double> b; fillDomains(b, S); if (r.b()) sets.exportEntitySets(b, F::Id(H.id)); else for (auto i : setIds) sets.exportEntitySets({F::Id(i)}, b, F::Id(H.id));
        const auto& net = b.build(); const std::string file = t.dir + "/net"; const double ha = 0.05*L, hb = 0.2*L; F::GmshWriter w(net); w.write(file, ha, hb); c.count("networks");
        for (auto& a : acc) S.ents.push_back(a.e); for (auto& a : acc) { c.in << " |"; a.e.describe(c.in); }
        for (std::size_t i = 0; i < acc.size(); ++i) { bool bad = false; for (auto& d : S.doms) bad = bad || nearDegenerate(acc[i].e.m, d.d); for (std::size_t j = 0; j < i; ++j) bad = bad || nearDegenerate(acc[i].e.m, acc[j].e.m); if (bad) { c.count("special position"); return; } }
        // what the files say
        Brep B(file + ".brep"); if (B.shape.IsNull()) { c.fail("no-file", "no readable .brep file"); return; } GeoFile g(file + ".geo"); for (auto& e : g.errors) c.fail("geo-syntax", e); c.count("files"); if (c.failed) return;
        std::map<std::size_t,double> volume; for (auto& p : g.phys[3]) for (int k : p.second) if (k < 1 || k > B.so.Extent()) c.fail("geo-number", str("volume ", k)); else volume[std::size_t(p.first)] += std::abs(shapeMeasure(B.so(k)));
        for (auto& d : S.doms) { const double v = volume[d.id]; if (!(std::abs(v - d.d.volume()) <= 2e-5*d.d.volume())) c.fail("volume", str("physical volume ", d.id, " has volume ", v, ", the sub-domain ", d.d.volume())); volume.erase(d.id); c.count("volumes"); } for (auto& v : volume) c.fail("volume", str("physical volume ", v.first, " belongs to no sub-domain"));
        std::vector<std::unique_ptr<Frag>> store; std::map<int, std::vector<Frag*>> group; for (auto& p : g.phys[2]) for (int k : p.second) if (k < 1 || k > B.f.Extent()) { c.fail("geo-number", str("surface ", k)); return; } else { store.emplace_back(new Frag(makeFrag(B.f(k)))); group[p.first].push_back(store.back().get()); }
        // every group is one of the accepted entities, every accepted entity one group
        std::vector<std::vector<Frag*>> of(acc.size()); std::vector<int> taken(acc.size(), 0);
        for (auto& p : group)
        {
            int best = -1, n = 0; for (std::size_t i = 0; i < acc.size(); ++i) { bool fits = true; for (auto f : p.second) for (auto& e : f->edges) for (auto& x : e.pts) fits = fits && acc[i].e.m.distTo(x) <= 2e-5*acc[i].e.size() + 2e-6*L; if (fits) { n++; best = int(i); } }
            if (n == 0) { c.fail("group-entity", str("physical surface ", p.first, " (", p.second.size(), " faces) does not lie in any accepted entity")); return; } if (n > 1) { c.count("ambiguous"); return; } if (taken[best]++) { c.fail("group-entity", "an accepted entity is split into two physical surfaces"); return; } of[best] = p.second;
        }
        for (std::size_t i = 0; i < acc.size() && !c.failed; ++i) { checkFill(c, r, S, acc[i].e, of[i], clippedArea(acc[i].e.m, H.d), str("entity ", i, " of set ", acc[i].id)); if (of[i].empty() && clippedArea(acc[i].e.m, H.d) > 1e-3*acc[i].e.measure()) c.fail("missing", str("accepted entity ", i, " is in no physical surface")); }
        for (std::size_t i = 0; i < acc.size() && !c.failed; ++i) for (std::size_t j = 0; j < i && !c.failed; ++j) checkCrossing(c, S, acc[i].e, acc[j].e, of[i], of[j]);
        // the listed curves are the intersections of the accepted entities
        double want = 0, have = 0; for (std::size_t i = 0; i < acc.size(); ++i) for (std::size_t j = 0; j < i; ++j) { V3 p, d; if (!planes(acc[i].e.m, acc[j].e.m, p, d)) continue; const auto k = H.d.line(p, d); for (auto& x : acc[i].e.m.clip(p, d)) for (auto& y : acc[j].e.m.clip(p, d)) want += std::max(0.0, std::min(k[1], std::min(x[1], y[1])) - std::max(k[0], std::max(x[0], y[0]))); }
        for (auto& p : g.phys[1]) for (int k : p.second) if (k < 1 || k > B.e.Extent()) c.fail("geo-number", str("curve ", k)); else have += std::abs(shapeMeasure(B.e(k))); if (!(std::abs(have - want) <= 1e-4*want + 1e-5*L)) c.fail("curves", str("listed intersection curves have length ", have, ", the accepted entities meet along ", want)); if (want > 0) c.count("networks with intersections");
        // mesh sizes
        std::vector<double> size(B.v.Extent() + 1, NAN); for (auto& z : g.sizes) for (int k : z.list) { const auto& m = z.dim == 3 ? B.so : z.dim == 2 ? B.f : z.dim == 1 ? B.e : B.v; if (k < 1 || k > m.Extent()) { c.fail("geo-number", "mesh size"); return; } for (TopExp_Explorer p(m(k), TopAbs_VERTEX); p.More(); p.Next()) size[B.v.FindIndex(p.Current())] = z.value; }
        std::set<int> inner; for (auto& p : g.phys[2]) for (int k : p.second) for (TopExp_Explorer x(B.f(k), TopAbs_VERTEX); x.More(); x.Next()) inner.insert(B.v.FindIndex(x.Current())); for (int k = 1; k <= B.v.Extent(); ++k) { const double q = inner.count(k) ? ha : hb; if (!(std::abs(size[k] - q) <= 1e-5*q)) { c.fail("mesh-size", str("vertex ", k, " has size ", size[k], ", expected ", q)); return; } } c.count("vertices", B.v.Extent());
    });
    require("workflow:networks", 60); require("workflow:files", 30); require("workflow:admissible", 200); require("workflow:violating", 100); require("workflow:crossings", 20); require("workflow:networks with intersections", 10); require("workflow:boundary accepted", 20); require("workflow:boundary rejected", 20);
    return finish();
}
