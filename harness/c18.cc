// C18: composite samplers
#define VERIF_DETERMINISTIC_DEVICE
#include "fk.hh"
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
using namespace vf;
namespace {
// samplers that tag what they draw: centre = (tag, number of the draw, type)
struct Tally { std::map<int, long> drawn; int lastTag = -1; long total = 0; bool fail = false; };
struct DiskS : F::GeometrySampler<FDisk>
{ int tag; Tally* t; DiskS(int a, Tally* b) : tag(a), t(b) {} FDisk operator()() override { if (t->fail) throw std::logic_error("sampler failed"); t->lastTag = tag; ++t->total; return FDisk(P3(double(tag), double(t->drawn[tag]++), 0.0), D3(W3(1.,0.,0.)), D3(W3(0.,1.,0.)), 2.0, 1.0); } };
struct QuadS : F::GeometrySampler<Quad3>
{ int tag; Tally* t; QuadS(int a, Tally* b) : tag(a), t(b) {} Quad3 operator()() override { if (t->fail) throw std::logic_error("sampler failed"); t->lastTag = tag; ++t->total; const double x = tag, y = double(t->drawn[tag]++); return Quad3(P3(x-1,y-1,1.), P3(x+1,y-1,1.), P3(x-1,y+1,1.), P3(x+1,y+1,1.)); } };
struct PolyS : F::GeometrySampler<Poly3>
{ int tag; Tally* t; PolyS(int a, Tally* b) : tag(a), t(b) {} Poly3 operator()() override { if (t->fail) throw std::logic_error("sampler failed"); t->lastTag = tag; ++t->total; const double x = tag, y = double(t->drawn[tag]++); return Poly3(std::vector<P3>{P3(x-1,y-1,2.), P3(x+1,y-1,2.), P3(x+1,y+1,2.), P3(x-1,y+1,2.)}); } };
// what a returned geometry says about itself: type, tag, number of the draw
struct Seen { int type = -1; long tag = -1, draw = -1; };
Seen look(const std::shared_ptr<F::Geometry>& g)
{
    Seen s; V3 c; if (!g) return s;
    if (auto d = std::dynamic_pointer_cast<FDisk>(g)) { s.type = 0; c = rp(d->center()); } else if (auto q = std::dynamic_pointer_cast<Quad3>(g)) { s.type = 1; c = rp(q->center()); } else if (auto p = std::dynamic_pointer_cast<Poly3>(g)) { s.type = 2; c = rp(p->center()); }
    s.tag = std::lround(c.x); s.draw = std::lround(c.y); return s;
}
// strategies of a user
struct Shuffled : F::SamplingStrategy { Rng r{7}; std::vector<long>* log; F::Id getNextId() override { if (idList_.empty()) throw std::runtime_error("none"); const auto id = idList_[r.i(int(idList_.size()))]; log->push_back(long(id.get())); return id; } };
struct Fixed : F::SamplingStrategy { F::Id id{0}; F::Id getNextId() override { return id; } };
using Multi = F::MultiGeometrySampler<FDisk, Quad3, Poly3>;
struct Reg { int type; int tag; };
void addTo(Multi& m, int type, int tag, Tally* t, long id) { if (type == 0) m.addGeometrySampler(DiskS(tag, t), F::Id(id)); else if (type == 1) m.addGeometrySampler(QuadS(tag, t), F::Id(id)); else m.addGeometrySampler(PolyS(tag, t), F::Id(id)); }
}
int main(int argc, char** argv)
{
    parse(argc, argv);
    // histories of registrations, rejected registrations, draws and failing draws
    section("sequential", 3000, 200000, [](Rng& r, Case& c) {
        Multi m; if (r.b(0.3)) m = Multi(F::SequentialSamplingStrategy()); Tally t; std::map<long, Reg> reg; std::vector<long> since; std::map<long, long> perId; long returned = 0; int nextTag = 0;
        const int steps = r.i(5, 120), maxId = r.i(1, 12); const bool late = r.b(); std::set<std::array<long,3>> seen;
        auto draw = [&] {
            F::Id id; const auto g = m(id); const long i = long(id.get()); const Seen s = look(g); ++returned; c.count("draws"); since.push_back(i); perId[i]++;
            if (!reg.count(i)) { c.fail("unknown-id", str("id ", i, " was never registered")); return; }
            if (s.type != reg[i].type || s.tag != reg[i].tag) c.fail("wrong-sampler", str("id ", i, " belongs to sampler ", reg[i].tag, " of type ", reg[i].type, ", the geometry comes from sampler ", s.tag, " of type ", s.type));
            if (s.tag != t.lastTag || !seen.insert({long(s.type), s.tag, s.draw}).second || s.draw != t.drawn[int(s.tag)] - 1) c.fail("repeated", str("draw ", s.draw, " of sampler ", s.tag, " returned again or out of order"));
            if (t.total != returned) c.fail("lost", str(t.total, " geometries drawn, ", returned, " returned"));
            // taking turns: since the last registration every n calls in a row serve each id once, in the same order
            const size_t n = reg.size(), k = since.size(); const size_t from = k > n ? k - n : 0; std::set<long> window(since.begin() + from, since.end()); c.count("judged");
            if (window.size() != k - from) c.fail("turns", str("an id was served twice within ", n, " calls")); if (k > n && since[k-1] != since[k-1-n]) c.fail("turns", "the order of the samplers changed");
        };
        for (int i = 0; i < steps; ++i)
        {
            const int what = reg.empty() ? r.i(2)*8 : r.i(10);
            if (what < 2 && (late || returned == 0))
            {
                const long id = r.i(maxId) - (r.b(0.1) ? 1000000 : 0); const int type = r.i(3); c.in << "a" << type << ":" << id << " ";
                if (reg.count(id)) { c.count("duplicates"); if (!throws([&]{ addTo(m, type, 1000 + nextTag, &t, id); })) { c.fail("duplicate", str("id ", id, " was accepted twice")); return; } }
                else { addTo(m, type, nextTag, &t, id); reg[id] = {type, nextTag++}; since.clear(); }
            }
            else if (reg.empty()) { c.in << "e "; F::Id id; c.count("empty"); if (!throws([&]{ (void)m(id); })) c.fail("empty", "a geometry was drawn without any sampler"); }
            else { c.in << "d "; draw(); }
        }
        if (reg.size() > 1) c.nontrivial(); if (reg.empty()) return; const long n = long(reg.size()); since.clear(); perId.clear(); for (long i = 0; i < 3*n; ++i) draw(); for (auto& p : reg) if (perId[p.first] != 3) c.fail("equally", str("id ", p.first, " was used ", perId[p.first], " times in ", 3*n, " calls of ", n, " samplers"));
    });
    // strategies of a user: the id that is returned is the one the strategy chose
    section("strategies", 1500, 100000, [](Rng& r, Case& c) {
        std::vector<long> log; Shuffled st; st.log = &log; Tally t; Multi m(st); std::map<long, Reg> reg; const int n = r.i(1, 10); for (int i = 0; i < n; ++i) { const long id = 3*i + r.i(3); const int type = r.i(3); addTo(m, type, i, &t, id); reg[id] = {type, i}; c.in << id << ":" << type << " "; } c.nontrivial();
        for (int i = 0; i < 40; ++i) { F::Id id; const Seen s = look(m(id)); const long k = long(id.get()); c.count("judged"); if (log.empty() || k != log.back()) { c.fail("id", str("the strategy chose ", log.empty() ? -1 : log.back(), ", ", k, " was returned")); return; } if (s.type != reg[k].type || s.tag != reg[k].tag) c.fail("wrong-sampler", str("id ", k, " returned a geometry of sampler ", s.tag)); if (long(log.size()) != i+1) c.fail("choices", "the strategy was not asked exactly once per call"); }
        // an id nothing is registered for
        Fixed f; f.id = F::Id(99999); Multi m2(f); addTo(m2, r.i(3), 1, &t, 5); F::Id id; const long before = t.total; c.count("judged"); if (!throws([&]{ (void)m2(id); })) c.fail("unregistered", "a geometry was returned for an id without sampler"); if (t.total != before) c.fail("unregistered", "a geometry was drawn for an id without sampler");
        // several ids in one set of samplers of the same type: a failing sampler's exception reaches the caller
        t.fail = true; c.count("judged"); if (!throws([&]{ F::Id k; (void)m(k); })) c.fail("swallowed", "the exception of a sampler was swallowed"); t.fail = false;
    });
    // the library's own samplers
    section("library-samplers", 300, 10000, [](Rng& r, Case& c) {
        const FBox b1(0,0,0,1,1,1), b2(10,0,0,11,1,1), b3(20,0,0,21,1,1); using N = std::normal_distribution<double>; using U = std::uniform_real_distribution<double>; Multi m; c.in << c.idx; c.nontrivial();
        F::DiskSampler<> d(F::makeUniformPointSampler(b1), N(0.5, 0.05), N(0.3, 0.05), N(0, 1), N(0, 1), N(0, 1)); F::QuadrilateralSampler<3> q(F::makeUniformPointSampler(b2), N(0, 1), N(0, 1), U(0.1, 0.3), U(0.1, 0.3)); F::PolygonSampler<3> p(F::makeUniformPointSampler(b3), N(0, 1), N(0, 1), U(0.1, 0.3), U(0.1, 0.3), std::uniform_int_distribution<int>(4, 7));
        std::vector<int> order{0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(order[i], order[r.i(i+1)]); for (int k : order) { if (k == 0) m.addGeometrySampler(d, F::Id(1)); if (k == 1) m.addGeometrySampler(q, F::Id(2)); if (k == 2) m.addGeometrySampler(p, F::Id(3)); }
        std::set<std::array<double,3>> centers; std::array<long,3> n{}; for (int i = 0; i < 60; ++i) { F::Id id; const auto g = m(id); const Seen s = look(g); c.count("judged"); if (s.type + 1 != int(id.get())) c.fail("wrong-type", str("id ", id.get(), " returned type ", s.type)); else { ++n[s.type]; V3 x; if (s.type == 0) x = rp(std::dynamic_pointer_cast<FDisk>(g)->center()); else if (s.type == 1) x = rp(std::dynamic_pointer_cast<Quad3>(g)->center()); else x = rp(std::dynamic_pointer_cast<Poly3>(g)->center()); if (x.x < 10*s.type - 1 || x.x > 10*s.type + 2) c.fail("wrong-place", str("geometry at ", x)); if (!centers.insert({x.x, x.y, x.z}).second) c.fail("repeated", "the same geometry was returned twice"); } }
        if (n[0] != 20 || n[1] != 20 || n[2] != 20) c.fail("equally", str(n[0], " ", n[1], " ", n[2], " draws"));
    });
    require("sequential:judged", 50000); require("sequential:duplicates", 500); require("sequential:empty", 300); require("strategies:judged", 20000); require("library-samplers:judged", 5000);
    return finish();
}
