// C09: constraints matrix and multi-geometry entity sets against a model of relations and sets,
// over random histories. Scripted constraints and a recording builder observe what is handed on.
#include "isect_special.hh"
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/common/idpair.hh>
using namespace vf;
namespace {
using Key = std::vector<double>;
Key key(const P3& p) { return {p.x(), p.y(), p.z()}; }
Key cat(Key a, const Key& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
Key dirKey(const D3& d) { return {d.x(), d.y(), d.z()}; }
Key key(const FDisk& d) { return cat(cat(cat({1, d.majorAxisLength(), d.minorAxisLength()}, key(d.center())), dirKey(d.majorAxis())), dirKey(d.minorAxis())); }
Key key(const Quad3& q) { Key k{2}; for (int i = 0; i < 4; ++i) k = cat(k, key(q.corner(i))); return k; }
Key key(const Poly3& q) { Key k{3}; for (std::size_t i = 0; i < q.numCorners(); ++i) k = cat(k, key(q.corner(i))); return k; }
Key key(const Tri3& q) { Key k{4}; for (int i = 0; i < 3; ++i) k = cat(k, key(q.corner(i))); return k; }
Key key(const Seg3& s) { return cat(cat({6}, key(s.source())), key(s.target())); }
using Sets = F::MultiGeometryEntitySet<FDisk, Quad3, Poly3, Tri3, P3, Seg3>;
enum { NTypes = 6 };
template<class Fn> void withRandom(Rng& r, int type, Fn&& fn)
{
    const V3 c = randVec(r, 100); const double s = r.lu(0.1, 10);
    switch (type)
    {
        case 0: fn(fdisk(randDisk(r, c, s))); break;
        case 1: fn(fquad(randPolygon(r, c, s, 4))); break;
        case 2: fn(fpoly(randPolygon(r, c, s, r.i(3, 7)))); break;
        case 3: fn(Tri3(fp(c), fp(c + s*randUnit(r)), fp(c + s*randUnit(r)))); break;
        case 4: fn(fp(c)); break;
        default: fn(Seg3(fp(c), fp(c + s*randUnit(r))));
    }
}
using Bag = std::vector<Key>;
Bag sorted(Bag b) { std::sort(b.begin(), b.end()); return b; }
struct Content { int type; Bag bag; };
using Model = std::map<std::size_t, Content>;

// constraints whose verdict is a fixed function of a tag and the two keys; they record what they are asked
struct Asked { int tag; Bag set; Key entity; };
struct Scripted
{
    int tag = 0; int percent = 0; std::vector<Asked>* log = nullptr; int* copies = nullptr;
    static bool verdict(int tag, int percent, const Key& a, const Key& e)
    {
        std::uint64_t h = mix(0x1234 + tag); for (double d : a) { std::uint64_t u; std::memcpy(&u, &d, 8); h = mix(h ^ u); } h = mix(h + 77); for (double d : e) { std::uint64_t u; std::memcpy(&u, &d, 8); h = mix(h ^ u); }
        return int(h % 100) >= percent;
    }
    template<class Geo, class E> bool evaluate(const std::vector<Geo>& set, const E& e) const
    {
        Asked a{tag, {}, key(e)}; bool ok = true;
        for (auto& g : set) { a.set.push_back(key(g)); ok = ok && verdict(tag, percent, a.set.back(), a.entity); }
        log->push_back(a); return ok;
    }
};
// a builder that records what it is given
struct Recorder
{
    struct Call { bool sub; std::size_t id; Bag bag; };
    std::vector<Call> calls; Bag plain; std::map<std::size_t, Bag> sub;
    template<class C> void addEntities(const C& v) { for (auto& g : v) plain.push_back(key(g)); }
    template<class C> void addSubDomainEntities(const C& v, F::Id id) { for (auto& g : v) sub[id.get()].push_back(key(g)); }
    template<class G> void addEntity(const G& g) { plain.push_back(key(g)); }
    template<class G> void addSubDomainEntity(const G& g, F::Id id) { sub[id.get()].push_back(key(g)); }
};
std::vector<std::size_t> randIds(Rng& r, int n)
{ std::vector<std::size_t> ids; while (int(ids.size()) < n) { std::size_t id = r.b(0.8) ? r.i(12) : std::size_t(r.next() >> r.i(64)); if (!std::count(ids.begin(), ids.end(), id)) ids.push_back(id); } return ids; }

template<class Geo> std::shared_ptr<F::Geometry> asPointer(const Geo& g) { return std::make_shared<Geo>(g); }

// adds to sets and model; true if anything was to be rejected
struct Adder
{
    Sets& sets; Model& m; Case& c; std::string& hist;
    template<class G> void add(const G& g, int type, std::size_t id, bool viaPointer)
    {
        auto it = m.find(id); const bool bad = it != m.end() && it->second.type != type; bool thrown = false;
        hist += str(" add", viaPointer ? "*" : "", "(type ", type, ",", id, ")");
        try { if (viaPointer) sets.addEntity(asPointer(g), F::Id(id)); else sets.addEntity(g, F::Id(id)); } catch (const std::runtime_error&) { thrown = true; }
        if (bad != thrown) c.fail(bad ? "mismatch-accepted" : "entity-rejected", str("geometry of type ", type, " for id ", id, bad ? " was accepted although the set holds another type" : " was rejected", ":", hist));
        if (bad) c.count("mismatched additions"); else { if (it == m.end()) m[id] = Content{type, {}}; m[id].bag.push_back(key(g)); c.count("additions"); }
    }
};
template<class S> void compareSets(Rng& r, Case& c, const S& sets, const Model& m, const std::vector<std::size_t>& ids, const std::string& hist)
{
    std::size_t total = 0; for (auto& p : m) total += p.second.bag.size();
    if (sets.numEntities() != total) c.fail("total", str("numEntities() = ", sets.numEntities(), ", ", total, " were added:", hist));
    for (auto id : ids)
    {
        auto it = m.find(id); const std::size_t n = it == m.end() ? 0 : it->second.bag.size();
        if (sets.numEntities(F::Id(id)) != n) c.fail("count", str("numEntities(", id, ") = ", sets.numEntities(F::Id(id)), ", expected ", n, ":", hist));
        int calls = 0; Bag got; const bool applied = sets.applyOnSet(F::Id(id), [&](const auto& v) { calls++; for (auto& g : v) got.push_back(key(g)); });
        if (calls > 1 || applied != (calls == 1)) c.fail("apply-calls", str("applyOnSet(", id, ") called the function ", calls, " times and returned ", applied, ":", hist));
        else if (n > 0 && !applied) c.fail("apply-missed", str("applyOnSet(", id, ") did not find the set:", hist));
        else if (sorted(got) != (n ? sorted(it->second.bag) : Bag())) c.fail("apply-content", str("applyOnSet(", id, ") handed over ", got.size(), " entities that are not the ", n, " added ones:", hist));
        c.count("sets compared");
    }
    (void)r;
}
template<class S> void compareExports(Rng& r, Case& c, const S& sets, const Model& m, const std::vector<std::size_t>& ids, const std::string& hist)
{
    Bag all; for (auto& p : m) all.insert(all.end(), p.second.bag.begin(), p.second.bag.end());
    { Recorder b; sets.exportEntitySets(b); if (sorted(b.plain) != sorted(all) || !b.sub.empty()) c.fail("export-all", str("export handed over ", b.plain.size(), " of ", all.size(), " entities, or different ones:", hist)); }
    const std::size_t dom = r.b() ? ids[0] : std::size_t(r.i(100));
    { Recorder b; sets.exportEntitySets(b, F::Id(dom)); if (!b.plain.empty() || b.sub.size() > 1 || sorted(b.sub[dom]) != sorted(all)) c.fail("export-subdomain", str("export to sub-domain ", dom, " handed over ", b.sub[dom].size(), " of ", all.size(), " entities:", hist)); }
    {   // lists of ids, known and unknown
        std::vector<std::size_t> sel; for (int i = 0, n = r.i(1, 3); i < n; ++i) sel.push_back(r.b(0.85) ? r.pick(ids) : std::size_t(1000 + r.i(5)));
        Recorder b; const F::Id d(dom);
        if (sel.size() == 1) sets.exportEntitySets({F::Id(sel[0])}, b, d); else if (sel.size() == 2) sets.exportEntitySets({F::Id(sel[0]), F::Id(sel[1])}, b, d); else sets.exportEntitySets({F::Id(sel[0]), F::Id(sel[1]), F::Id(sel[2])}, b, d);
        Bag want; for (auto id : std::set<std::size_t>(sel.begin(), sel.end())) { auto it = m.find(id); if (it != m.end()) want.insert(want.end(), it->second.bag.begin(), it->second.bag.end()); }
        std::string l; for (auto i : sel) l += str(" ", i);
        if (!b.plain.empty() || b.sub.size() > 1 || sorted(b.sub[dom]) != sorted(want)) c.fail("export-list", str("export of ids {", l, " } handed over ", b.sub[dom].size(), " entities, expected ", want.size(), ":", hist));
    }
    c.count("exports", 3);
}
}

int main(int argc, char** argv)
{
    parse(argc, argv);

    section("entity_sets", 1500, 60000, [](Rng& r, Case& c) {
        auto ids = randIds(r, r.i(1, 6)); Sets sets; Model m; std::string hist; Adder a{sets, m, c, hist};
        std::map<std::size_t,int> typeOf; for (auto id : ids) typeOf[id] = r.i(NTypes);
        const int n = r.i(1, 40);
        for (int k = 0; k < n && !c.failed; ++k)
        {
            const auto id = r.pick(ids); const int t = r.b(0.85) ? typeOf[id] : r.i(NTypes); const bool ptr = r.b(0.3);
            withRandom(r, t, [&](const auto& g) { a.add(g, t, id, ptr); if (r.b(0.1)) a.add(g, t, id, ptr); });
            if (r.b(0.15)) compareSets(r, c, sets, m, ids, hist);
        }
        c.in << "history:" << hist;
        Sets copy = sets; if (r.b(0.5)) { Model m2 = m; Adder b{copy, m2, c, hist}; const auto id = r.pick(ids); withRandom(r, typeOf[id], [&](const auto& g) { b.add(g, typeOf[id], id, false); }); compareSets(r, c, copy, m2, ids, hist); }
        compareSets(r, c, sets, m, ids, hist); compareExports(r, c, sets, m, ids, hist); c.nontrivial();
    });

    section("matrix_histories", 2500, 100000, [](Rng& r, Case& c) {
        auto ids = randIds(r, r.i(1, 6)); Sets sets; Model m; std::string hist; Adder a{sets, m, c, hist};
        std::map<std::size_t,int> typeOf; for (auto id : ids) typeOf[id] = r.i(NTypes);
        std::vector<Asked> log; F::EntityNetworkConstraintsMatrix<Scripted> matrix;
        std::map<std::pair<std::size_t,std::size_t>, std::pair<int,int>> rel; int tag = 0;
        auto pair = [&] { return std::make_pair(r.pick(ids), r.pick(ids)); };
        auto evaluate = [&](int n) {
            for (int k = 0; k < n && !c.failed; ++k)
            {
                const auto id = r.pick(ids); const int t = r.i(NTypes);
                withRandom(r, t, [&](const auto& g) {
                    const Key e = key(g); bool any = false, want = true; int violated = 0;
                    for (auto& p : rel) if (p.first.first == id)
                    { any = true; auto it = m.find(p.first.second); bool ok = true; if (it != m.end()) for (auto& s : it->second.bag) ok = ok && Scripted::verdict(p.second.first, p.second.second, s, e); if (!ok) violated++; want = want && ok; }
                    log.clear(); bool got = false, thrown = false;
                    try { got = matrix.evaluate(sets, g, F::Id(id)); } catch (const std::runtime_error&) { thrown = true; }
                    hist += str(" eval(", id, ")");
                    if (!any) { c.count("without relations"); if (!thrown && !got) c.fail("phantom-relation", str("candidate of id ", id, " without relations was refused:", hist)); }
                    else if (thrown) c.fail("throws", str("evaluate() for id ", id, " throws:", hist));
                    else if (got != want) c.fail(want ? "refused" : "accepted", str("candidate of id ", id, want ? " satisfies everything but was refused" : str(" violates ", violated, " relations but was accepted"), ":", hist));
                    for (auto& q : log)
                    {
                        bool known = q.entity == e;
                        bool found = false; for (auto& p : rel) if (p.first.first == id && p.second.first == q.tag) { auto it = m.find(p.first.second); found = found || (it != m.end() ? sorted(it->second.bag) == sorted(q.set) : q.set.empty()); }
                        if (!known || !found) c.fail("wrong-question", str("constraints ", q.tag, " were asked about ", q.set.size(), " entities that belong to no relation of id ", id, ":", hist));
                    }
                    c.count("evaluations"); if (any && violated) c.count(violated == 1 ? "violating one relation" : "violating several"); if (any && !violated) c.count("admissible");
                });
            }
        };
        const int n = r.i(3, 30);
        for (int k = 0; k < n && !c.failed; ++k) switch (r.i(5))
        {
            case 0: case 1: { const auto id = r.pick(ids); const int t = typeOf[id]; withRandom(r, t, [&](const auto& g) { a.add(g, t, id, r.b(0.2)); }); break; }
            case 2:
            {   // one relation
                Scripted s{++tag, r.b(0.3) ? 0 : r.i(40), &log}; const auto p = pair(); const bool bad = rel.count(p); bool thrown = false; hist += str(" relate#", tag, "(", p.first, "->", p.second, ")");
                try { if (r.b()) matrix.addConstraints(s, F::IdPair(p.first, p.second)); else matrix.addConstraints(s, F::IdPair(F::Id(p.first), F::Id(p.second))); } catch (const std::runtime_error&) { thrown = true; }
                if (bad != thrown) c.fail(bad ? "duplicate-accepted" : "relation-rejected", "relation" + hist);
                if (!bad) rel[p] = {s.tag, s.percent}; else c.count("duplicates");
                s.percent = 100; break;     // the matrix keeps its own copy
            }
            case 3:
            {   // a list of relations; a duplicate in it rejects the whole registration
                Scripted s{++tag, r.b(0.3) ? 0 : r.i(40), &log}; std::vector<std::pair<std::size_t,std::size_t>> l; for (int i = 0, nl = r.i(1, 4); i < nl; ++i) l.push_back(pair());
                if (l.size() > 1 && r.b(0.5)) l[1] = {l[0].second, l[0].first};
                bool bad = false; std::set<std::pair<std::size_t,std::size_t>> seen; hist += str(" relate#", tag, "{");
                for (auto& p : l) { if (rel.count(p) || !seen.insert(p).second) bad = true; hist += str(" ", p.first, "->", p.second); } hist += " }";
                bool thrown = false; auto P = [&](int i) { return F::IdPair(l[i].first, l[i].second); };
                try { switch (l.size()) { case 1: matrix.addConstraints(s, {P(0)}); break; case 2: matrix.addConstraints(s, {P(0), P(1)}); break; case 3: matrix.addConstraints(s, {P(0), P(1), P(2)}); break; default: matrix.addConstraints(s, {P(0), P(1), P(2), P(3)}); } } catch (const std::runtime_error&) { thrown = true; }
                if (bad != thrown) c.fail(bad ? "duplicate-accepted" : "relation-rejected", "list of relations" + hist);
                if (!bad) for (auto& p : l) rel[p] = {s.tag, s.percent}; else c.count("rejected lists"); break;
            }
            case 4: evaluate(r.i(1, 4)); break;
        }
        evaluate(4); if (r.b(0.3)) { auto copy = matrix; matrix = copy; evaluate(2); }
        c.in << "history:" << hist; c.nontrivial();
        compareSets(r, c, sets, m, ids, hist);
    });

    // the constraints of the library, a matrix and sets of several geometries
    section("matrix_with_constraints", 250, 6000, [](Rng& r, Case& c) {
        using Constraints = F::EntityNetworkConstraints<double>;
        F::MultiGeometryEntitySet<FDisk, Quad3, TopoDS_Face> sets; F::EntityNetworkConstraintsMatrix<Constraints> matrix;
        std::vector<std::size_t> ids = randIds(r, 3); std::vector<std::pair<std::size_t,std::size_t>> pairs; std::map<std::pair<std::size_t,std::size_t>, Constraints> rel;
        const double L = 10; auto admissible = [](auto& k, auto&& a, auto&& b, bool& skip) { try { return k.evaluate(a, b); } catch (const std::runtime_error& e) { if (std::string(e.what()).find("not implemented") == std::string::npos) throw; skip = true; return true; } };
        auto random = [&](int t, auto&& fn) { const V3 p{r.u(0, L), r.u(0, L), r.u(0, L)}; const double s = L*r.u(0.05, 0.4); if (t == 0) fn(fdisk(randDisk(r, p, s))); else if (t == 1) fn(fquad(randPolygon(r, p, s, 4))); else fn(F::OCCUtilities::getShape(fpoly(randPolygon(r, p, s, r.i(3, 6))))); };
        std::vector<FDisk> disks; std::vector<Quad3> quads; std::vector<TopoDS_Face> polys;
        for (int k = 0, n = r.i(2, 9); k < n; ++k) { const int t = r.i(3); random(t, [&](const auto& g) { sets.addEntity(g, F::Id(ids[t])); using G = std::decay_t<decltype(g)>; if constexpr (std::is_same<G, FDisk>::value) disks.push_back(g); else if constexpr (std::is_same<G, Quad3>::value) quads.push_back(g); else polys.push_back(g); }); }
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (r.b(0.6))
        {
            Constraints k; if (r.b(0.7)) k.setMinDistance(L*r.u(0.0, 0.15)); if (r.b(0.5)) k.setMinIntersectionMagnitude(L*r.u(0, 0.1)); if (r.b(0.4)) k.setMinIntersectingAngle(r.u(0, 1.2)); if (r.b(0.3)) k.setMinIntersectionDistance(L*r.u(0, 0.02));
            matrix.addConstraints(k, F::IdPair(ids[i], ids[j])); rel[{ids[i], ids[j]}] = k; c.in << " relate(" << i << "," << j << ")";
        }
        for (int k = 0; k < 4; ++k)
        {
            const int t = r.i(3); random(t, [&](const auto& g) {
                bool any = false, want = true, skip = false;
                for (auto& p : rel) if (p.first.first == ids[t])
                { any = true; auto each = [&](const auto& v) { for (auto& e : v) want = admissible(p.second, e, g, skip) && want; }; if (p.first.second == ids[0]) each(disks); else if (p.first.second == ids[1]) each(quads); else each(polys); }
                if (!any) return; if (skip) { c.count("not implemented"); return; }
                const bool got = matrix.evaluate(sets, g, F::Id(ids[t])); c.count("judged"); c.count(want ? "admissible" : "refused"); c.nontrivial();
                if (got != want) c.fail("verdict", str("matrix says ", got, ", the constraints evaluated one by one say ", want)); });
        }
    });

    require("entity_sets:additions", 8000); require("entity_sets:mismatched additions", 500); require("entity_sets:sets compared", 3000); require("entity_sets:exports", 2000);
    require("matrix_histories:violating one relation", 300); require("matrix_histories:violating several", 100); require("matrix_histories:admissible", 700); require("matrix_histories:duplicates", 100); require("matrix_histories:rejected lists", 200); require("matrix_histories:without relations", 300);
    require("matrix_with_constraints:admissible", 70); require("matrix_with_constraints:refused", 50);
    return finish();
}
