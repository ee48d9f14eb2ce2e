// C13: files written for networks, read back the way a mesher does.
#include "netgen.hh"
#include "geofile.hh"
#include <frackit/io/gmshwriter.hh>
#include <TopTools_IndexedDataMapOfShapeListOfShape.hxx>
using namespace vf;
namespace fs = std::filesystem;
namespace {
struct Scratch { std::string dir; Scratch() { std::string t = (fs::temp_directory_path()/"verif_c13_XXXXXX").string(); if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory"); dir = t; } ~Scratch() { std::error_code e; if (dir.find("verif_c13_") != std::string::npos) fs::remove_all(dir, e); } };
struct Unique { TopTools_IndexedMapOfShape m; std::vector<Sig> s; void add(const TopoDS_Shape& x) { if (m.Add(x) == int(s.size()) + 1) s.push_back(sig(x)); } void all(const TopoDS_Shape& x, TopAbs_ShapeEnum t) { for (TopExp_Explorer e(x, t); e.More(); e.Next()) add(e.Current()); } };
// bijection between the shapes of the network and those of the file (0: ambiguous, only if shapes coincide)
std::vector<int> match(Case& c, const Unique& net, const TopTools_IndexedMapOfShape& file, double tol, const char* what)
{
    std::vector<int> r(net.s.size() + 1, 0); if (int(net.s.size()) != file.Extent()) { c.fail("file-shapes", str("the file has ", file.Extent(), " ", what, ", the network ", net.s.size())); return r; }
    std::vector<Sig> fs; for (int i = 1; i <= file.Extent(); ++i) fs.push_back(sig(file(i)));
    for (std::size_t i = 0; i < net.s.size(); ++i) { int n = 0, k = 0, self = 0; for (std::size_t j = 0; j < fs.size(); ++j) { if (alike(net.s[i], fs[j], tol)) { n++; k = int(j) + 1; } if (alike(net.s[i], net.s[j], tol)) self++; }
        if (n == 0) { c.fail("file-shapes", str("one of the ", what, " (at ", net.s[i].cen, ") is missing in the file")); return r; } if (n == 1) r[i+1] = k; else { c.count("ambiguous"); if (n != self) c.fail("file-shapes", str(n, " of the ", what, " in the file are at ", net.s[i].cen, ", ", self, " in the network")); } }
    return r;
}
using Owner = std::pair<std::size_t,int>;
struct Faces { std::vector<TopoDS_Shape> list; std::vector<std::set<Owner>> owners; };
void judge(Case& c, const std::string& dir, const std::string& name, const std::string& written, double a, double b, bool plain, const std::map<std::size_t,std::vector<TopoDS_Shape>>& doms, const Unique& frs, const std::vector<std::set<Owner>>& owners, double L, V3 at, bool geoFile)
{
    (void)dir; (void)name; Brep file(written + ".brep"); if (file.shape.IsNull()) { c.fail("no-file", "no readable .brep file was written"); return; }
    const double tol = 1e-9*(L + norm(at)) + 1e-7*L; Unique so, fa, ed, ve; for (auto& d : doms) for (auto& s : d.second) { so.add(s); fa.all(s, TopAbs_FACE); } for (int i = 1; i <= frs.m.Extent(); ++i) fa.add(frs.m(i));
    for (int i = 1; i <= fa.m.Extent(); ++i) { ed.all(fa.m(i), TopAbs_EDGE); ve.all(fa.m(i), TopAbs_VERTEX); }
    const auto S = match(c, so, file.so, tol, "solids"), FF = match(c, fa, file.f, tol, "faces"), E = match(c, ed, file.e, tol, "edges"), V = match(c, ve, file.v, tol, "vertices"); if (c.failed) return; c.count("files"); (void)V;
    if (!geoFile) return;
    std::ifstream probe(written + ".geo"); if (!probe) { c.fail("no-file", "no .geo file was written"); return; }
    GeoFile g(written + ".geo"); for (auto& e : g.errors) c.fail("geo-syntax", e); if (g.merges != 1) c.fail("geo-merge", str(g.merges, " merge statements"));
    // a relative path is relative to the directory of the .geo file
    const fs::path m = g.merge, full = m.is_absolute() ? m : fs::path(written).parent_path()/m; std::error_code ec; if (!fs::equivalent(full, written + ".brep", ec) || ec) c.fail("geo-merge", str("the .geo file merges ", g.merge, ", written was ", written, ".brep")); if (c.failed) return;
    auto groupOf = [&](int dim, int n) { std::map<int,std::vector<int>> r; auto it = g.phys.find(dim); if (it != g.phys.end()) for (auto& p : it->second) for (int k : p.second) { if (k < 1 || k > n) c.fail("geo-number", str("physical group ", p.first, " of dimension ", dim, " contains ", k, ", there are ", n)); r[k].push_back(p.first); } return r; };
    const auto g3 = groupOf(3, file.so.Extent()), g2 = groupOf(2, file.f.Extent()), g1 = groupOf(1, file.e.Extent()), g0 = groupOf(0, file.v.Extent()); if (!g0.empty()) c.fail("geo-number", "points are in physical groups"); if (c.failed) return;
    auto one = [&](const std::map<int,std::vector<int>>& m, int k, const char* what, V3 p) -> int { auto it = m.find(k); if (it == m.end()) { c.fail("group-missing", str("a ", what, " at ", p, " is in no physical group")); return -1; } if (it->second.size() > 1) { c.fail("group-twice", str("a ", what, " at ", p, " is in physical groups ", it->second[0], " and ", it->second[1])); return -1; } return it->second[0]; };
    // sub-domains
    for (auto& d : doms) for (auto& s : d.second) { const int i = so.m.FindIndex(s); if (!S[i]) continue; const int t = one(g3, S[i], "domain fragment", so.s[i-1].cen); if (c.failed) return; if (t != int(d.first)) { c.fail("group-wrong", str("a fragment of sub-domain ", d.first, " is in physical volume ", t)); return; } c.count("volumes"); }
    for (auto& p : g3) for (int t : p.second) if (!doms.count(std::size_t(t))) c.fail("group-wrong", str("physical volume ", t, " belongs to no sub-domain"));
    // entities
    std::map<Owner,int> tagOf; std::map<int,Owner> ownerOf; std::map<int,std::set<Owner>> may; int listed = 0; bool amb = false;
    for (int i = 1; i <= frs.m.Extent(); ++i)
    {
        const int k = fa.m.FindIndex(frs.m(i)); if (!FF[k]) { amb = true; continue; } const int t = one(g2, FF[k], "entity fragment", fa.s[k-1].cen); if (c.failed) return; listed++; const auto& own = owners[i-1]; c.count("surfaces");
        if (may.count(t)) { std::set<Owner> x; for (auto& o : may[t]) if (own.count(o)) x.insert(o); may[t] = x; } else may[t] = own;
        if (may[t].empty()) { c.fail("group-mixed", str("physical surface ", t, " contains fragments of different entities")); return; }
        if (own.size() == 1) { const Owner o = *own.begin(); if (!tagOf.count(o)) tagOf[o] = t; if (tagOf[o] != t) { c.fail("group-split", str("fragments of entity ", o.second, " of sub-domain ", o.first, " are in physical surfaces ", t, " and ", tagOf[o])); return; } if (ownerOf.count(t) && ownerOf[t] != o) { c.fail("group-mixed", str("physical surface ", t, " contains fragments of different entities")); return; } ownerOf[t] = o; if (plain && t != o.second) { c.fail("group-wrong", str("fragments of entity ", o.second, " are in physical surface ", t)); return; } } else c.count("shared fragments");
    }
    if (!amb && int(g2.size()) != listed) c.fail("group-extra", str(g2.size(), " surfaces are in physical groups, there are ", listed, " entity fragments"));
    // intersection curves
    TopTools_IndexedDataMapOfShapeListOfShape anc; for (int i = 1; i <= frs.m.Extent(); ++i) TopExp::MapShapesAndUniqueAncestors(frs.m(i), TopAbs_EDGE, TopAbs_FACE, anc);
    for (int i = 1; i <= ed.m.Extent(); ++i)
    {
        if (!E[i]) continue; const int k = anc.FindIndex(ed.m(i)); int n = 0; bool distinct = false; std::vector<int> fr; if (k) for (const auto& f : anc.FindFromIndex(k)) { fr.push_back(frs.m.FindIndex(f)); n++; }
        for (int x : fr) for (int y : fr) { bool common = false; for (auto& o : owners[x-1]) common = common || owners[y-1].count(o); distinct = distinct || !common; }
        auto it = g1.find(E[i]); if (distinct) { one(g1, E[i], "intersection curve", ed.s[i-1].cen); c.count("curves"); if (c.failed) return; } else if (it != g1.end()) { if (n < 2) { c.fail("group-extra", str("an edge at ", ed.s[i-1].cen, " that belongs to ", n, " entity fragment(s) is listed as intersection")); return; } if (it->second.size() > 1) { c.fail("group-twice", str("an edge at ", ed.s[i-1].cen, " is in several physical groups")); return; } }
    }
    // mesh sizes: the last statement counts
    std::vector<double> size(file.v.Extent() + 1, NAN), want(file.v.Extent() + 1, NAN);
    auto points = [&](const TopoDS_Shape& s, double x, std::vector<double>& to) { for (TopExp_Explorer p(s, TopAbs_VERTEX); p.More(); p.Next()) to[file.v.FindIndex(p.Current())] = x; };
    for (auto& z : g.sizes) for (int k : z.list) { const auto& m = z.dim == 3 ? file.so : z.dim == 2 ? file.f : z.dim == 1 ? file.e : file.v; if (k < 1 || k > m.Extent()) { c.fail("geo-number", str("a mesh size refers to number ", k, " of dimension ", z.dim)); return; } points(m(k), z.value, size); }
    for (int i = 1; i <= file.so.Extent(); ++i) points(file.so(i), b, want); for (int i = 1; i <= frs.m.Extent(); ++i) { const int k = FF[fa.m.FindIndex(frs.m(i))]; if (k) points(file.f(k), a, want); }
    if (!amb) for (int i = 1; i <= file.v.Extent(); ++i) { const bool ok = std::isnan(want[i]) ? std::isnan(size[i]) : std::abs(size[i] - want[i]) <= 1e-5*std::abs(want[i]); c.count(want[i] == a ? "sizes at entities" : "sizes at boundary"); if (!ok) { c.fail("mesh-size", str("vertex ", i, " has mesh size ", size[i], ", expected ", want[i])); return; } }
}
// names to write to: in the scratch directory, in a folder of it, absolute or relative
std::string fileName(Rng& r, Case& c, const Scratch& t)
{
    static const char* n[] = {"net", "net", "my.network.v2", "with space", "N1"}; std::string name = n[r.i(5)]; if (r.b(0.4)) { fs::create_directory(t.dir + "/sub"); name = "sub/" + name; } const bool abs = r.b(0.5); c.count(abs ? "absolute paths" : "relative paths"); return abs ? t.dir + "/" + name : name;
}
template<class N> void writeAndJudge(Rng& r, Case& c, const Scratch& t, const N& net, const Scenario& s, bool plain, const std::map<std::size_t,std::vector<TopoDS_Shape>>& doms, const Unique& frs, const std::vector<std::set<Owner>>& owners)
{
    const V3 at = s.doms.empty() ? s.ents.empty() ? V3(0,0,0) : s.ents[0].m.f.o : s.doms[0].d.kind == 0 ? s.doms[0].d.lo : s.doms[0].d.kind == 1 ? s.doms[0].d.c : s.doms[0].d.cyl.f.o; const std::string name = fileName(r, c, t), where = name[0] == '/' ? name : t.dir + "/" + name; const int mode = r.i(4); const double a = r.b(0.2) ? r.lu(1e-7, 1e7) : s.L*r.lu(1e-3, 1), b = mode == 1 ? a : s.L*r.lu(1e-3, 10); c.in << " mode=" << mode << " sizes " << a << " " << b << " file " << name;
    if (mode == 0) { F::BRepWriter w(net); w.write(name); judge(c, t.dir, name, where, a, b, plain, doms, frs, owners, s.L, at, false); return; }
    F::GmshWriter w(net); if (r.b(0.15)) { w.write(name, 3.0*a, b); c.count("written twice"); } if (mode == 1) w.write(name, a); else w.write(name, a, b); judge(c, t.dir, name, where, a, b, plain, doms, frs, owners, s.L, at, true);
}
}
int main(int argc, char** argv)
{
    parse(argc, argv); Scratch t; const fs::path old = fs::current_path(); fs::current_path(t.dir); struct Back { fs::path p; ~Back() { std::error_code e; fs::current_path(p, e); } } back{old};
    section("plain", 420, 12000, [&](Rng& r, Case& c) {
        Scenario s = randScenario(r, r.b(0.5) ? 0 : r.i(1, 3), r.i(1, 6), 0.1); if (s.ents.empty()) throw Skip{"no general position"}; s.describe(c.in); CoutCapture cap; F::EntityNetworkBuilder<double> b; fillDomains(b, s); fillEntities(b, s); const auto& net = b.build(); c.nontrivial();
        Unique frs; std::vector<std::set<Owner>> own; for (const auto& f : net.entityFragments()) { const int k = frs.m.Extent(); frs.add(f); if (frs.m.Extent() > k) own.push_back({{0, net.entityFragmentsIndexMap().Find(f)}}); }
        c.count(frs.s.empty() ? "empty networks" : "networks"); writeAndJudge(r, c, t, net, s, true, {}, frs, own);
    });
    section("contained", 560, 14000, [&](Rng& r, Case& c) {
        // entities without a sub-domain are no part of the contained geometry
        Scenario s = randScenario(r, r.i(1, 3), r.i(1, 7), 0); if (s.ents.empty()) throw Skip{"no general position"}; s.describe(c.in); CoutCapture cap; F::ContainedEntityNetworkBuilder<double> b; fillDomains(b, s); fillEntities(b, s); const auto& net = b.build(); c.nontrivial();
        Unique frs; std::vector<std::set<Owner>> own; std::map<std::size_t,std::vector<TopoDS_Shape>> doms; std::set<std::size_t> used;
        for (auto id : net.subDomainIds()) { for (const auto& d : net.subDomainFragments(id)) doms[id.get()].push_back(d); for (const auto& f : net.subDomainEntityFragments(id)) { frs.add(f); const int k = frs.m.FindIndex(f); if (k > int(own.size())) own.push_back({}); own[k-1].insert({id.get(), net.subDomainEntityFragmentsIndexMap(id).Find(f)}); used.insert(id.get()); } }
        if (used.size() > 1) c.count("networks in several sub-domains"); if (frs.s.empty()) c.count("empty networks"); writeAndJudge(r, c, t, net, s, false, doms, frs, own);
    });
    // only two-dimensional entities can be written
    section("rejected", 20, 200, [&](Rng& r, Case& c) {
        c.nontrivial(); const Seg3 x(fp(randVec(r, 1)), fp(randVec(r, 1))), y(fp(randVec(r, 1)), fp(randVec(r, 1))); c.in << "segments"; CoutCapture cap;
        F::EntityNetworkBuilder<double> b; b.addEntity(x); b.addEntity(y); const auto& net = b.build(); if (!throws([&] { F::BRepWriter w(net); }) || !throws([&] { F::GmshWriter w(net); })) c.fail("not-rejected", "a one-dimensional network was accepted");
        F::ContainedEntityNetworkBuilder<double> k; k.addConfiningSubDomain(Quad3(P3(-1,-1,0), P3(1,-1,0), P3(-1,1,0), P3(1,1,0)), F::Id(1)); k.addSubDomainEntity(Seg3(P3(-2,r.u(-0.9,0.9),0), P3(2,0,0)), F::Id(1)); const auto& kn = k.build(); if (!throws([&] { F::BRepWriter w(kn); }) || !throws([&] { F::GmshWriter w(kn); })) c.fail("not-rejected", "a one-dimensional contained network was accepted"); c.count("judged");
    });
    require("plain:files", 200); require("plain:surfaces", 600); require("plain:curves", 200); require("plain:sizes at entities", 1000); require("contained:files", 250); require("contained:volumes", 400); require("contained:surfaces", 800); require("contained:curves", 200); require("contained:sizes at boundary", 1000); require("contained:sizes at entities", 1000);
    require("contained:networks in several sub-domains", 80); require("contained:relative paths", 100); require("rejected:judged", 10);
    return finish();
}
