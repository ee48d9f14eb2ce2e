// C12: builders as state machines: what they hold decides what they build.
#include "netgen.hh"
#include <frackit/geometry/triangle.hh>
using namespace vf;
namespace {
struct Item { int uid = 0; bool isDom = false; int dim = 2; std::size_t sub = 0; bool confining = false; Ent e; Dom d; TopoDS_Face planar; };   // planar: two-dimensional sub-domain
template<class Fn> void use(const Item& i, Fn&& f) { if (!i.isDom) visit(i.e, f); else if (i.dim == 2) f(i.planar); else visit(i.d, f); }
struct Settings { bool unionOn = true; bool epsSet = false; double eps = 0; };
struct Content { std::vector<Item> items; Settings s;
    bool hasEnts() const { for (auto& i : items) if (!i.isDom) return true; return false; } bool hasDoms() const { for (auto& i : items) if (i.isDom) return true; return false; }
    int entDim() const { for (auto& i : items) if (!i.isDom) return i.dim; return -1; } int domDim() const { for (auto& i : items) if (i.isDom) return i.dim; return -1; }
    bool hasId(std::size_t id) const { for (auto& i : items) if (i.isDom && i.sub == id) return true; return false; }
    // accepted by the documented rules?
    bool ok(const Item& i) const { if (i.isDom) { if (hasEnts() && i.dim <= entDim()) return false; if (hasDoms() && i.dim != domDim()) return false; return !hasId(i.sub); } if (hasEnts() && i.dim != entDim()) return false; return !(hasDoms() && i.dim >= domDim()); }
    double defaultEps() const { double e = 1e300; const bool doms = hasDoms(); for (auto& i : items) if (i.isDom == doms) use(i, [&](const auto& g) { e = std::min(e, double(F::defaultEpsilon(TopoDS_Shape(F::OCCUtilities::getShape(g))))); }); return items.empty() ? F::Precision<double>::confusion() : e; } };
template<class B> constexpr bool isPlain = std::is_same<B, F::EntityNetworkBuilder<double>>::value;
template<class B> void put(B& b, const Item& i, int how)
{
    if (i.isDom) { use(i, [&](const auto& g) { if (i.confining) b.addConfiningSubDomain(g, F::Id(i.sub)); else b.addSubDomain(g, F::Id(i.sub)); }); return; }
    visit(i.e, [&](const auto& g) {
        if constexpr (isPlain<B>) if (i.sub == 0 && how % 2) { if (how & 2) b.addEntities(std::vector<std::decay_t<decltype(g)>>{g}); else b.addEntity(g); return; }
        if (how & 2) b.addSubDomainEntities(std::vector<std::decay_t<decltype(g)>>{g}, F::Id(i.sub)); else b.addSubDomainEntity(g, F::Id(i.sub)); });
}
template<class B> void settings(B& b, const Settings& s) { if (!s.unionOn) b.setConfineToSubDomainUnion(false); if (s.epsSet) b.setEpsilon(s.eps); }
// what a network consists of
struct Desc { int entDim = -9, domDim = -9; std::map<std::size_t,std::vector<std::pair<Sig,int>>> ents; std::map<std::size_t,std::vector<Sig>> doms; };
Desc describe(const F::EntityNetwork& n, const Content&) { Desc d; d.entDim = n.entityDimension(); for (const auto& f : n.entityFragments()) d.ents[0].push_back({sig(f), n.entityFragmentsIndexMap().Find(f)}); return d; }
Desc describe(const F::ContainedEntityNetwork& n, const Content& c)
{
    Desc d; if (c.hasEnts()) d.entDim = n.entityDimension(); if (c.hasDoms()) d.domDim = n.domainDimension(); std::set<std::size_t> ids; for (auto id : n.subDomainIds()) { ids.insert(id.get()); d.doms[id.get()]; for (const auto& f : n.subDomainFragments(id)) d.doms[id.get()].push_back(sig(f)); }
    for (auto& i : c.items) if (!i.isDom) ids.insert(i.sub); for (auto id : ids) for (const auto& f : n.subDomainEntityFragments(F::Id(id))) d.ents[id].push_back({sig(f), n.subDomainEntityFragmentsIndexMap(F::Id(id)).Find(f)}); return d;
}
// indexMode 0: not compared; 1: the same; 2: the same up to renumbering; renum: index in b for index in a, per sub-domain
std::string compare(const Desc& a, const Desc& b, double tol, int indexMode, std::map<std::size_t,std::map<int,int>>* renum = nullptr)
{
    if (a.entDim != b.entDim || a.domDim != b.domDim) return str("dimensions ", a.entDim, ",", a.domDim, " and ", b.entDim, ",", b.domDim);
    if (a.doms.size() != b.doms.size()) return "different sub-domain ids"; auto count = [](const auto& m) { std::size_t n = 0; for (auto& p : m) n += p.second.size(); return n; }; if (count(a.ents) != count(b.ents)) return str(count(a.ents), " and ", count(b.ents), " entity fragments"); if (count(a.doms) != count(b.doms)) return str(count(a.doms), " and ", count(b.doms), " domain fragments");
    for (auto& p : a.doms) { auto it = b.doms.find(p.first); if (it == b.doms.end()) return "different sub-domain ids"; for (auto& x : p.second) { int n = 0; for (auto& y : it->second) n += alike(x, y, tol); if (n != 1) return str(n, " counterparts of the fragment of sub-domain ", p.first, " at ", x.cen); } }
    std::map<std::pair<std::size_t,int>,int> m; std::map<std::pair<std::size_t,int>,int> inv;
    for (auto& p : a.ents) for (auto& x : p.second) { auto it = b.ents.find(p.first); int n = 0; const std::pair<Sig,int>* y = nullptr; if (it != b.ents.end()) for (auto& q : it->second) if (alike(x.first, q.first, tol)) { n++; y = &q; } if (n != 1) return str(n, " counterparts of the entity fragment at ", x.first.cen, " of sub-domain ", p.first);
        int want = x.second; if (renum) { auto& r = (*renum)[p.first]; if (!r.count(want)) return str("entity index ", want, " out of range"); want = r[want]; }
        if (indexMode == 1 && want != y->second) return str("the entity fragment at ", x.first.cen, " has index ", y->second, ", expected ", want);
        if (indexMode == 2) { const auto k = std::make_pair(p.first, x.second), l = std::make_pair(p.first, y->second); if (!m.count(k)) m[k] = y->second; if (!inv.count(l)) inv[l] = x.second; if (m[k] != y->second || inv[l] != x.second) return str("the entity fragment at ", x.first.cen, " belongs to other entities"); } }
    return "";
}
struct Pool { std::vector<Item> items; double L = 1; bool generic = true; int entDim = 2; V3 o{0,0,0}; std::string text; };
Pool randPool(Rng& r, bool planar, bool plain)
{
    Pool p; std::ostringstream t;
    if (!planar)
    {
        Scenario s = randScenario(r, r.b(0.8) ? r.i(1, 3) : 0, r.i(2, 7), plain ? 0.15 : 0.05); p.L = s.L; s.describe(t); for (auto& d : s.doms) { Item i; i.isDom = true; i.dim = 3; i.sub = d.id; i.confining = d.confining; i.d = d; p.items.push_back(i); } for (auto& e : s.ents) { Item i; i.sub = e.sub; i.e = e; p.items.push_back(i); }
        // lattice scenarios contain coincident entities
        for (std::size_t i = 0; i < s.ents.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (planeAngle(s.ents[i].m.f.w, s.ents[j].m.f.w) < 1e-6) p.generic = false;
    }
    else
    {
        p.entDim = 1; p.L = netScale(r); const Frame fr = randFrame(r, netPlace(r, p.L), 0.3); const int nd = r.i(0, 3), n = r.i(2, 7); auto ids = randIds(r, nd + 1); double x = -0.5;
        for (int k = 0; k < nd; ++k) { Item i; i.isDom = true; i.dim = 2; i.sub = ids[k]; i.confining = r.b(0.6); const double w = r.u(0.4, 1); auto at = [&](double a, double b) { return fp(fr.at(p.L*a, p.L*b)); }; i.planar = F::OCCUtilities::getShape(Quad3(at(x,-0.6), at(x+w,-0.6), at(x,0.6), at(x+w,0.6))); t << " quad " << ids[k] << (i.confining ? " confining" : " open"); x += w; p.items.push_back(i); }
        for (int k = 0; k < n; ++k) { Item i; i.dim = 1; i.sub = nd == 0 || r.b(plain ? 0.15 : 0.05) ? ids[nd] : ids[r.i(nd)]; i.e.seg = true; i.e.sub = i.sub; i.e.how = r.i(2); const double hi = std::max(0.5, x); i.e.p = fr.at(p.L*r.u(-0.7, hi), p.L*r.u(-0.8, 0.8)); i.e.q = fr.at(p.L*r.u(-0.7, hi), p.L*r.u(-0.8, 0.8)); if (dist(i.e.p, i.e.q) < 0.2*p.L) { k--; continue; } i.e.describe(t); p.items.push_back(i); }
    }
    // plain builders put entities without sub-domain into number 0
    if (plain && r.b(0.4)) { std::set<std::size_t> ids; for (auto& i : p.items) ids.insert(i.sub); if (!ids.count(0) || ids.size() == 1) for (auto& i : p.items) if (i.sub == *ids.begin()) i.sub = i.e.sub = i.d.id = 0; }
    for (std::size_t i = 0; i < p.items.size(); ++i) p.items[i].uid = int(i); p.text = t.str(); return p;
}
std::vector<Item> inOrder(Rng& r, const std::vector<Item>& v, int mode)   // 0: as is, 1: domains first, 2: entities first (relative order kept), 3: shuffled
{
    std::vector<Item> w; if (mode == 0) return v; if (mode == 3) { w = v; for (std::size_t i = w.size(); i > 1; --i) std::swap(w[i-1], w[r.i(int(i))]); return w; }
    for (int pass = 0; pass < 2; ++pass) for (auto& i : v) if (i.isDom == ((mode == 1) == (pass == 0))) w.push_back(i); return w;
}
std::size_t numSubs(const std::vector<Item>& v) { std::set<std::size_t> s; for (auto& i : v) if (!i.isDom) s.insert(i.sub); return s.size(); }
// outcome of a build
template<class B> std::pair<bool,Desc> buildOf(B& b, const Content& c, std::string* why = nullptr) { try { const auto& n = b.build(); return {true, describe(n, c)}; } catch (const std::exception& e) { if (why) *why = e.what(); } catch (const Standard_Failure& e) { if (why) *why = e.GetMessageString(); } return {false, Desc()}; }
template<class B> std::pair<bool,Desc> fresh(Rng& r, const Content& c, int order, std::string* why = nullptr) { B b; const bool first = r.b(); if (first) settings(b, c.s); for (auto& i : inOrder(r, c.items, order)) put(b, i, r.i(4)); if (!first) settings(b, c.s); return buildOf(b, c, why); }

template<class B> void history(Rng& r, Case& c, bool planar)
{
    const bool plain = isPlain<B>; Pool p = randPool(r, planar, plain); if (p.items.empty()) throw Skip{"empty pool"}; c.in << p.text << " program:"; CoutCapture cap; B b; Content now; int steps = r.i(6, 18); bool built = false; Content then; std::vector<char> used(p.items.size(), 0); const double tol = 2e-6*p.L; int builds = 0;
    auto checkNetwork = [&]() { bool threw = false; Desc d; try { d = describe(b.network(), then); } catch (const std::runtime_error&) { threw = true; } if (threw == built) c.fail("network-state", built ? "network() threw after a successful build" : "network() returned something although nothing was built"); (void)d; c.count(threw ? "asked too early" : "asked"); };
    for (int st = 0; st < steps && !c.failed; ++st)
    {
        const double k = r.u(); if (st == 0 && r.b(0.3)) checkNetwork();
        if (k < 0.5)
        {   // add something that has not been added since the last clear()
            std::vector<int> free; for (std::size_t i = 0; i < used.size(); ++i) if (!used[i]) free.push_back(int(i)); if (free.empty()) continue; const int i = free[r.i(int(free.size()))]; c.in << " add" << i;
            if (!now.ok(p.items[i])) throw std::logic_error("pool"); try { put(b, p.items[i], r.i(4)); } catch (const std::exception& e) { c.fail("rejected", str("a valid insertion was rejected: ", e.what())); return; } used[i] = 1; now.items.push_back(p.items[i]); c.count("insertions");
        }
        else if (k < 0.68)
        {   // something invalid
            Item x; int kind = r.i(6); bool any = false; auto expect = [&](auto&& f, const char* what) { any = true; c.in << " bad:" << what; if (!throws(f)) c.fail("not-rejected", str(what, " was accepted")); c.count(str("rejected ", what)); };
            const Seg3 sg(fp(p.o), fp(p.o + V3(0,0,p.L))); const Quad3 qd(fp(p.o), fp(p.o + V3(p.L,0,0)), fp(p.o + V3(0,p.L,0)), fp(p.o + V3(p.L,p.L,0))); const FBox bx(0, 0, 0, p.L, p.L, p.L); const std::size_t id = 5000 + r.i(3);
            if (kind == 0 && now.hasEnts()) { if (now.entDim() == 2) expect([&] { b.addSubDomainEntity(sg, F::Id(id)); }, "entity of other dimension"); else expect([&] { b.addSubDomainEntity(qd, F::Id(id)); }, "entity of other dimension"); }
            else if (kind == 1 && now.hasDoms()) { if (now.domDim() == 3) expect([&] { b.addSubDomainEntity(bx, F::Id(id)); }, "entity of domain dimension"); else expect([&] { b.addSubDomainEntities(std::vector<Quad3>{qd, qd}, F::Id(id)); }, "entity of domain dimension"); }
            else if (kind == 2 && now.hasDoms()) { std::size_t taken = 0; for (auto& i : now.items) if (i.isDom) { taken = i.sub; if (r.b()) break; } const bool conf = r.b(); if (now.domDim() == 3) expect([&] { if (conf) b.addConfiningSubDomain(bx, F::Id(taken)); else b.addSubDomain(bx, F::Id(taken)); }, "taken id"); else expect([&] { if (conf) b.addConfiningSubDomain(qd, F::Id(taken)); else b.addSubDomain(qd, F::Id(taken)); }, "taken id"); }
            else if (kind == 3 && now.hasDoms()) { if (now.domDim() == 3) expect([&] { b.addSubDomain(qd, F::Id(id)); }, "domain of other dimension"); else expect([&] { b.addConfiningSubDomain(bx, F::Id(id)); }, "domain of other dimension"); }
            else if (kind == 4 && now.hasEnts()) { if (now.entDim() == 2) expect([&] { b.addConfiningSubDomain(qd, F::Id(id)); }, "domain of entity dimension"); else expect([&] { b.addSubDomain(sg, F::Id(id)); }, "domain of entity dimension"); }
            else if (kind == 5) { const Tri3 t(fp(p.o), fp(p.o + V3(1,0,0)), fp(p.o + V3(0,1,0))); const std::size_t to = r.b() ? id : now.items.empty() ? 0 : now.items[0].sub; expect([&] { b.addSubDomainEntity(t, F::Id(to)); }, "entity without shape"); }
            (void)any;
        }
        else if (k < 0.74) { const bool on = r.b(); b.setConfineToSubDomainUnion(on); now.s.unionOn = on; c.in << " union" << on; }
        else if (k < 0.78) { now.s.epsSet = true; if (r.b(0.5)) { now.s.eps = p.L*r.lu(1e-9, 1e-7); b.setEpsilon(now.s.eps); c.in << " eps=" << now.s.eps; } else { now.s.eps = now.defaultEps(); b.setDefaultEpsilon(); c.in << " defaultEps"; c.count("default epsilon"); } }
        else if (k < 0.83 && st > 2) { b.clear(); now.items.clear(); std::fill(used.begin(), used.end(), 0); built = false; c.in << " clear"; c.count("cleared"); if (b.isBuilt()) c.fail("network-state", "isBuilt() after clear()"); }
        else if (k < 0.88) { c.in << " network"; checkNetwork(); if (b.isBuilt() != built) c.fail("network-state", str("isBuilt() = ", b.isBuilt())); }
        else
        {
            c.in << " build"; std::string why, whyF; auto got = buildOf(b, now, &why); const int order = r.i(3); auto want = fresh<B>(r, now, order, &whyF); builds++; c.count("builds"); if (now.items.empty()) c.count("empty builds");
            if (got.first != want.first) { c.fail("outcome", str("build ", builds, got.first ? " succeeded" : " failed: ", why, ", with a fresh builder it ", want.first ? "succeeds" : "fails: ", whyF)); return; } built = got.first; then = now; if (!built) { c.count("failed builds"); continue; }
            const int mode = !plain || numSubs(now.items) == 1 ? 1 : p.generic ? 2 : 0; const std::string d = compare(want.second, got.second, tol, mode); if (!d.empty()) { c.fail("differs", str("build ", builds, " of ", now.items.size(), " items differs from a fresh builder: ", d)); return; } c.count("compared"); if (builds > 1) c.count("compared later builds"); c.nontrivial(str(builds, "/", now.items.size()));
            if (r.b(0.3)) { auto again = buildOf(b, now, &why); if (!again.first) { c.fail("outcome", "building again failed: " + why); return; } const std::string e = compare(got.second, again.second, tol, plain && mode != 1 ? mode : 1); if (!e.empty()) { c.fail("differs", "building twice gives another network: " + e); return; } c.count("built twice"); }
            then = now;
        }
    }
}
// The same steps with the boolean operations of the kernel alone: do their results depend on the order of the shapes?
// (rarely, OpenCASCADE misses a fragment for one order of its arguments only; nothing can be said about such a case)
std::vector<Sig> kernelOnly(const Content& c)
{
    std::map<std::size_t,TopTools_ListOfShape> ents; std::map<std::size_t,std::pair<TopoDS_Shape,bool>> doms; TopTools_ListOfShape allDoms, all; TopAbs_ShapeEnum type = TopAbs_FACE; const double eps = c.s.epsSet ? c.s.eps : c.defaultEps();
    for (auto& i : c.items) use(i, [&](const auto& g) { const TopoDS_Shape s = F::OCCUtilities::getShape(g); if (i.isDom) { doms[i.sub] = {s, i.confining}; allDoms.Append(s); } else { ents[i.sub].Append(s); type = s.ShapeType(); } });
    for (auto& p : ents)
    {
        auto it = doms.find(p.first); if (it == doms.end() || (!it->second.second && !c.s.unionOn)) { for (const auto& s : p.second) all.Append(s); continue; }
        TopTools_ListOfShape tools; if (it->second.second) tools.Append(it->second.first); else tools = allDoms; BRepAlgoAPI_Common op; op.SetArguments(p.second); op.SetTools(tools); op.SetRunParallel(false); op.SetFuzzyValue(eps); op.Build(); if (!op.IsDone()) return {}; for (TopExp_Explorer e(op.Shape(), type); e.More(); e.Next()) all.Append(e.Current());
    }
    for (const auto& d : allDoms) all.Append(d); BRepAlgoAPI_BuilderAlgo op; op.SetRunParallel(false); op.SetArguments(all); op.SetFuzzyValue(eps); op.Build(); if (!op.IsDone()) return {}; std::vector<Sig> out; TopTools_IndexedMapOfShape m; TopExp::MapShapes(op.Shape(), type, m); for (int k = 1; k <= m.Extent(); ++k) out.push_back(sig(m(k))); return out;
}
bool kernelDependsOnOrder(const Content& a, const Content& b, double tol)
{ try { auto x = kernelOnly(a), y = kernelOnly(b); if (x.size() != y.size()) return true; for (auto& s : x) { int n = 0; for (auto& t : y) n += alike(s, t, tol); if (n != 1) return true; } return false; } catch (const Standard_Failure&) { return true; } }
template<class B> void order(Rng& r, Case& c, bool planar)
{
    Pool p = randPool(r, planar, isPlain<B>); Content a; a.items = p.items; a.s.unionOn = r.b(0.75); c.in << p.text << (a.s.unionOn ? "" : " unconfined"); CoutCapture cap; std::string w1, w2; auto x = fresh<B>(r, a, 0, &w1); Content b = a; b.items = inOrder(r, a.items, 3); auto y = fresh<B>(r, b, 0, &w2);
    if (x.first != y.first) { c.fail("outcome", str("the network can be built in one order only: ", w1, w2)); return; } if (!x.first) { c.count("not built"); return; } c.nontrivial(); c.count("compared"); const double tol = 2e-6*p.L;
    // position of every entity within its sub-domain, before and after
    std::map<std::size_t,std::map<int,int>> re; std::map<std::size_t,int> pos; bool single = !isPlain<B> || numSubs(a.items) == 1;
    for (auto& i : a.items) if (!i.isDom) { const int k = ++pos[i.sub]; std::map<std::size_t,int> q; for (auto& j : b.items) if (!j.isDom) { const int l = ++q[j.sub]; if (j.uid == i.uid) re[isPlain<B> ? 0 : i.sub][k] = l; } }
    const std::string d = compare(x.second, y.second, tol, !p.generic ? 0 : single ? 1 : 2, p.generic && single ? &re : nullptr); if (!d.empty()) { if (kernelDependsOnOrder(a, b, tol)) throw Skip{"the kernel depends on the order"}; c.fail("differs", "the insertion order matters: " + d); }
}
// a plate and a second one that ends at distance gap from it; the first is cut exactly if the tolerance covers the gap
struct Gap { Quad3 a, b; };
Gap gapPair(V3 o, double L, double gap) { auto q = [&](double x0, double y0, double z0, double x1, double y1, double z1) { return Quad3(fp(o + L*V3(x0,y0,z0)), fp(o + L*V3(x1,y0,z0)), fp(o + L*V3(x0,y1,z1)), fp(o + L*V3(x1,y1,z1))); }; return {q(-1,-1,0, 1,1,0), Quad3(fp(o + V3(0,-1.2*L,gap)), fp(o + V3(0,1.2*L,gap)), fp(o + V3(0,-1.2*L,L)), fp(o + V3(0,1.2*L,L)))}; }
}
int main(int argc, char** argv)
{
    parse(argc, argv); using P = F::EntityNetworkBuilder<double>; using K = F::ContainedEntityNetworkBuilder<double>;
    section("history-plain", 320, 9000, [](Rng& r, Case& c) { history<P>(r, c, r.b(0.3)); });
    section("history-contained", 320, 9000, [](Rng& r, Case& c) { history<K>(r, c, r.b(0.3)); });
    section("order-plain", 220, 6000, [](Rng& r, Case& c) { order<P>(r, c, r.b(0.3)); });
    section("order-contained", 220, 6000, [](Rng& r, Case& c) { order<K>(r, c, r.b(0.3)); });
    // tolerances: given ones are used until changed, default ones follow the content
    section("epsilon", 320, 6000, [](Rng& r, Case& c) {
        const double L = netScale(r), huge = r.lu(3e4, 1e6), small = r.u(0.5, 3); CoutCapture cap; const int kind = r.i(4); const bool contained = r.b(); const V3 o(0,0,0); c.in << "L=" << L << " huge=" << huge << " small=" << small << " kind=" << kind << (contained ? " contained" : " plain"); c.nontrivial(str(kind, contained));
        auto run = [&](auto& b, auto fragments) {
            auto pair = [&](double l, double gap) { const Gap g = gapPair(o, l, gap); b.addSubDomainEntity(g.a, F::Id(3)); b.addSubDomainEntity(g.b, F::Id(3)); if (contained) b.addConfiningSubDomain(FBox(-3*l, -3*l, -3*l, 3*l, 3*l, 3*l), F::Id(3)); };
            auto expect = [&](int n, const char* what) { const int k = fragments(); c.count("judged"); if (k != n) c.fail("epsilon", str(what, ": the plate has ", k, " fragment(s), expected ", n)); };
            if (kind == 0)
            {   // user-defined: stays over builds, further insertions and clear()
                const double eps = L*r.lu(1e-5, 1e-3); const bool cut = r.b(); const double gap = cut ? eps/20 : 20*eps; b.setEpsilon(eps); c.in << " eps=" << eps << " gap=" << gap; pair(L, gap); b.build(); expect(cut ? 2 : 1, "with the given tolerance"); b.build(); expect(cut ? 2 : 1, "built again with the given tolerance"); b.clear(); pair(L, gap); b.build(); expect(cut ? 2 : 1, "with the given tolerance after clear()"); c.count(cut ? "cut" : "uncut");
                b.setEpsilon(cut ? gap/100 : 100*gap); if (cut ? gap > 1e-5 : 100*gap < 0.01*L) { b.build(); expect(cut ? 1 : 2, "with a changed tolerance"); }
            }
            else if (kind == 1)
            {   // the default follows the content: something huge was built before
                const double gap = r.lu(2e-4, 1e-3); c.in << " gap=" << gap; pair(huge, 0.1*huge); b.build(); expect(1, "huge content"); b.clear(); pair(small, gap); b.build(); expect(1, "small content after something huge was built"); c.count("shrunk");
            }
            else if (kind == 2)
            {   // the other way round: the tolerance computed for something tiny is not kept
                const double gap = r.lu(2e-4, 1e-3); c.in << " gap=" << gap; pair(small, 0.1*small); b.build(); expect(1, "small content"); b.clear(); pair(huge, gap); b.build(); expect(2, "huge content after something small was built"); c.count("cut"); c.count("grown");
            }
            else
            {   // the tolerance is computed on request and then kept
                const double gap = r.lu(2e-4, 1e-3); c.in << " gap=" << gap; pair(huge, 0.1*huge); b.setDefaultEpsilon(); if (r.b()) b.build(); b.clear(); pair(small, gap); b.setDefaultEpsilon(); b.build(); expect(1, "small content with its own default tolerance"); c.count("requested");
            }
            };
        if (contained) { K b; run(b, [&] { int n = 0; const auto& net = b.network(); for (const auto& f : net.subDomainEntityFragments(F::Id(3))) n += net.subDomainEntityFragmentsIndexMap(F::Id(3)).Find(f) == 1; return n; }); } else { P b; run(b, [&] { int n = 0; for (const auto& f : b.network().entityFragments()) n += b.network().entityFragmentsIndexMap().Find(f) == 1; return n; }); }
    });
    for (const char* s : {"history-plain", "history-contained"}) { const std::string t = s; require(t + ":compared", 120); require(t + ":compared later builds", 50); require(t + ":built twice", 40); require(t + ":cleared", 40); require(t + ":asked too early", 15); require(t + ":rejected taken id", 20); require(t + ":rejected entity of other dimension", 20); require(t + ":rejected domain of other dimension", 20); require(t + ":rejected entity without shape", 20); require(t + ":default epsilon", 10); }
    require("order-plain:compared", 150); require("order-contained:compared", 150); require("epsilon:judged", 200); require("epsilon:cut", 60); require("epsilon:shrunk", 30); require("epsilon:grown", 30); require("epsilon:requested", 30);
    return finish();
}
