// C21: value semantics, lifetimes and hostile but legal arguments under sanitizers and library assertions.
#define VERIF_DETERMINISTIC_DEVICE
#include "isect_special.hh"
#include "objs.hh"
#include "netgen.hh"
#include <any>
#include <fstream>
#include <filesystem>
#include <optional>
#include <BRepAlgoAPI_Cut.hxx>
#include <frackit/common/idpair.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/geometryutilities/applyongeometry.hh>
#include <frackit/geometryutilities/assign.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/intersection/intersectionangle.hh>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/status.hh>
using namespace vf;
namespace fs = std::filesystem;
namespace {
namespace U = F::OCCUtilities;
using FP = std::vector<double>; using P2 = F::Point<double,2>; using P1 = F::Point<double,1>; using W2 = F::Vector<double,2>; using D2 = F::Direction<double,2>;
// ------------------------------------------------------------ fingerprints: all that an object tells about itself
void put(FP& f, double x) { f.push_back(x); }
void put(FP& f, const P3& p) { for (double x : {p.x(), p.y(), p.z()}) f.push_back(x); }
void put(FP& f, const W3& p) { for (double x : {p.x(), p.y(), p.z()}) f.push_back(x); }
void put(FP& f, const D3& p) { for (double x : {p.x(), p.y(), p.z()}) f.push_back(x); }
void put(FP& f, const F::Point<double,2>& p) { f.push_back(p.x()); f.push_back(p.y()); }
void put(FP& f, const F::Point<double,1>& p) { f.push_back(p.x()); }
void put(FP& f, const F::Vector<double,2>& p) { f.push_back(p.x()); f.push_back(p.y()); }
void put(FP& f, const F::Vector<double,1>& p) { f.push_back(p.x()); }
void put(FP& f, const F::Direction<double,2>& p) { f.push_back(p.x()); f.push_back(p.y()); }
void put(FP& f, const F::Id& i) { f.push_back(double(i.get())); }
void put(FP& f, const F::IdPair& i) { put(f, i.first()); put(f, i.second()); }
void put(FP& f, const std::string& s) { for (char c : s) f.push_back(c); f.push_back(s.size()); }
void put(FP& f, const Plane3& p) { put(f, p.supportingPoint()); put(f, p.normal()); put(f, p.base1()); put(f, p.base2()); put(f, p.name()); put(f, p.contains(p.supportingPoint())); }
void put(FP& f, const Line3& p) { put(f, p.supportingPoint()); put(f, p.direction()); put(f, p.name()); put(f, p.projection(P3(1,2,3))); }
void put(FP& f, const Seg3& s) { put(f, s.source()); put(f, s.target()); put(f, s.length()); put(f, s.name()); put(f, s.getPoint(0.3)); put(f, s.direction()); put(f, s.contains(s.source())); put(f, s.getReversed().source()); put(f, s.supportingLine().supportingPoint()); }
template<class E> void putEll(FP& f, const E& e) { put(f, e.center()); put(f, e.majorAxis()); put(f, e.minorAxis()); put(f, e.normal()); put(f, e.majorAxisLength()); put(f, e.minorAxisLength()); put(f, e.name()); put(f, e.supportingPlane()); put(f, e.contains(e.center())); }
void put(FP& f, const Circle3& e) { putEll(f, e); put(f, e.getPoint(0.3)); put(f, e.radius()); }
void put(FP& f, const Ellipse3& e) { putEll(f, e); put(f, e.getPoint(0.3)); put(f, e.getParam(e.getPoint(0.4))); }
void put(FP& f, const Arc3& e) { putEll(f, e); put(f, e.getPoint(0.3)); put(f, e.source()); put(f, e.target()); put(f, e.isFullEllipse()); put(f, e.sourceAngleOnEllipse()); put(f, e.targetAngleOnEllipse()); put(f, e.supportingEllipse().center()); put(f, e.contains(e.getPoint(0.5))); }
void put(FP& f, const FDisk& e) { putEll(f, e); put(f, e.getPoint(0.3, 0.4)); put(f, e.area()); put(f, e.boundingEllipse()); }
void put(FP& f, const Tri3& t) { put(f, t.name()); put(f, t.area()); put(f, t.center()); put(f, t.normal()); put(f, t.supportingPlane()); for (unsigned i = 0; i < t.numCorners(); ++i) { put(f, t.corner(i)); put(f, t.edge(i)); } put(f, t.contains(t.center())); }
void put(FP& f, const Quad3& t) { put(f, t.name()); put(f, t.area()); put(f, t.center()); put(f, t.supportingPlane()); put(f, t.isConvex()); for (unsigned i = 0; i < t.numCorners(); ++i) { put(f, t.corner(i)); put(f, t.edge(i)); } put(f, t.contains(t.corner(1))); }
void put(FP& f, const Poly3& t) { put(f, t.name()); put(f, t.center()); put(f, t.supportingPlane()); put(f, t.isConvex()); put(f, t.numCorners()); put(f, t.numEdges()); for (unsigned i = 0; i < t.numCorners(); ++i) { put(f, t.corner(i)); put(f, t.edge(i)); } if (t.isConvex()) { put(f, t.area()); put(f, t.contains(t.center())); } }
void put(FP& f, const FBox& b) { for (double x : {b.xMin(), b.yMin(), b.zMin(), b.xMax(), b.yMax(), b.zMax(), b.volume()}) f.push_back(x); put(f, b.name()); put(f, b.center()); for (unsigned i = 0; i < b.numCorners(); ++i) put(f, b.corner(i)); for (unsigned i = 0; i < b.numEdges(); ++i) put(f, b.edge(i)); for (unsigned i = 0; i < b.numFaces(); ++i) put(f, b.face(i)); put(f, b.contains(b.center())); }
void put(FP& f, const FSphere& s) { put(f, s.center()); put(f, s.radius()); put(f, s.volume()); put(f, s.name()); put(f, s.contains(s.center())); }
void put(FP& f, const FCylSurf& s) { put(f, s.name()); put(f, s.base1()); put(f, s.base2()); put(f, s.base3()); put(f, s.direction()); put(f, s.height()); put(f, s.radius()); put(f, s.area()); put(f, s.upperBoundingCircle()); put(f, s.lowerBoundingCircle()); put(f, s.centerSegment()); put(f, s.contains(s.lowerBoundingCircle().getPoint(0.1))); put(f, s.cylinder().radius()); put(f, s.getTangentPlane(s.lowerBoundingCircle().getPoint(0.2))); }
void put(FP& f, const FCyl& s) { put(f, s.name()); put(f, s.base1()); put(f, s.base2()); put(f, s.base3()); put(f, s.direction()); put(f, s.height()); put(f, s.radius()); put(f, s.volume()); put(f, s.topFace()); put(f, s.bottomFace()); put(f, s.lateralFace()); put(f, s.centerSegment()); put(f, s.contains(s.centerSegment().getPoint(0.5))); }
void put(FP& f, const FHollow& s) { put(f, s.name()); put(f, s.base1()); put(f, s.base2()); put(f, s.base3()); put(f, s.axis()); put(f, s.height()); put(f, s.innerRadius()); put(f, s.outerRadius()); put(f, s.volume()); put(f, s.bottomInnerCircle()); put(f, s.topInnerCircle()); put(f, s.bottomOuterCircle()); put(f, s.topOuterCircle()); put(f, s.innerLateralFace()); put(f, s.outerLateralFace()); put(f, s.centerSegment()); put(f, s.fullCylinder()); put(f, s.contains(s.centerSegment().getPoint(0.5))); }
template<class T> FP print(const T& t) { FP f; put(f, t); return f; }
bool same(const FP& a, const FP& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size()*sizeof(double))) ; }
bool equal(const FP& a, const FP& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
template<class T> T handOver(T t) { return t; }
// another geometry type, for assignments that must be refused
struct Odd : F::Geometry { std::string name() const override { return "Odd"; } };
template<class T, class Make> void values(Rng& r, Case& c, Make&& make)
{
    struct Slot { std::unique_ptr<T> p; FP want; }; std::vector<Slot> pool; c.nontrivial();
    auto fresh = [&] { Slot s; s.p = std::make_unique<T>(make(r)); s.want = print(*s.p); return s; };
    for (int i = 0; i < 3; ++i) pool.push_back(fresh());
    auto check = [&](const Slot& s, const char* after) { c.count("compared"); if (!equal(print(*s.p), s.want)) c.fail("value", str("an object changed or differs from its original after ", after)); };
    const int steps = r.i(8, 25); std::string last = "construction";
    for (int n = 0; n < steps && !c.failed; ++n)
    {
        const std::size_t a = r.i(int(pool.size())), b = r.i(int(pool.size())); const int op = r.i(14); c.in << op << ":" << a << "," << b << " ";
        const char* name = "";
        switch (op)
        {
            case 0: name = "construction"; pool.push_back(fresh()); break;
            case 1: { name = "copying"; Slot s; s.p = std::make_unique<T>(*pool[a].p); s.want = pool[a].want; check(s, name); if (r.b()) pool.erase(pool.begin() + a); pool.push_back(std::move(s)); break; }
            case 2: name = "assignment"; *pool[b].p = *pool[a].p; pool[b].want = pool[a].want; check(pool[b], name); if (r.b() && a != b) { pool[a] = fresh(); check(pool[b], "destruction of the original"); } break;
            case 3: { name = "self-assignment"; T& x = *pool[a].p; T& y = x; x = y; check(pool[a], name); break; }
            case 4: { name = "moving"; Slot s; s.p = std::make_unique<T>(std::move(*pool[a].p)); s.want = pool[a].want; if (r.b()) { *pool[a].p = *s.p; check(pool[a], "assignment to a moved-from object"); } else pool.erase(pool.begin() + a); check(s, name); pool.push_back(std::move(s)); break; }
            case 5: if (a != b) { name = "move assignment"; *pool[b].p = std::move(*pool[a].p); pool[b].want = pool[a].want; pool[a] = fresh(); check(pool[b], name); } break;
            case 6: if (a != b) { name = "swap"; using std::swap; swap(*pool[a].p, *pool[b].p); swap(pool[a].want, pool[b].want); check(pool[a], name); check(pool[b], name); } break;
            case 7: if constexpr (std::is_default_constructible<T>::value) { name = "assignment to a default-constructed object"; alignas(T) unsigned char raw[sizeof(T)]; std::memset(raw, r.i(256), sizeof raw); T* t = new (raw) T; *t = *pool[a].p; Slot s; s.p = std::make_unique<T>(*t); s.want = pool[a].want; t->~T(); std::memset(raw, 0xab, sizeof raw); check(s, name); c.count("from default"); pool[b] = std::move(s); } break;
            case 8: { name = "growing a vector"; std::vector<T> v; std::vector<FP> w; for (int k = r.i(2, 9); k > 0; --k) { const auto& s = pool[r.i(int(pool.size()))]; v.push_back(*s.p); w.push_back(s.want); } if (r.b()) { v.erase(v.begin()); w.erase(w.begin()); } v.insert(v.begin(), v.back()); w.insert(w.begin(), FP(w.back())); for (std::size_t k = 0; k < v.size(); ++k) { c.count("compared"); if (!equal(print(v[k]), w[k])) c.fail("value", "an element of a vector differs from its original"); } break; }
            case 9: { name = "passing by value"; Slot s; s.p = std::make_unique<T>(handOver(handOver(*pool[a].p))); s.want = pool[a].want; check(s, name); pool[b] = std::move(s); break; }
            case 10: { name = "use in std::optional, std::variant and std::any"; std::optional<T> o(*pool[a].p); std::variant<int, T> v; v = *o; std::any y = std::get<1>(v); o.reset(); v = 3; Slot s; s.p = std::make_unique<T>(std::any_cast<T&>(y)); s.want = pool[a].want; y.reset(); check(s, name); pool[b] = std::move(s); break; }
            case 11: if constexpr (std::is_base_of<F::Geometry, T>::value)
            {
                name = "assign() from the base class"; std::shared_ptr<F::Geometry> g = std::make_shared<T>(*pool[a].p); if (g->name() != pool[a].p->name()) c.fail("value", "the name differs through the base class");
                const FP want = pool[a].want; const int how = r.i(3); bool ok; if (how == 0) ok = F::assign(g, *pool[b].p); else if (how == 1) ok = F::assign(std::unique_ptr<F::Geometry>(new T(*pool[a].p)), *pool[b].p); else ok = F::assign(g.get(), *pool[b].p);
                g.reset(); pool[b].want = want; if (!ok) c.fail("assign", "assign() refused a geometry of the same type"); check(pool[b], name); c.count("assigned");
                Odd odd; if (F::assign(&odd, *pool[b].p)) c.fail("assign", "assign() accepted another geometry type"); check(pool[b], "refused assign()");
            } break;
            case 12: if constexpr (std::is_same<T, FDisk>::value || std::is_same<T, Quad3>::value || std::is_same<T, Poly3>::value)
            { name = "applyOnGeometry()"; FP got; auto f = [&](const auto& g) { got = print(g); return got.size(); }; std::shared_ptr<F::Geometry> g = std::make_shared<T>(*pool[a].p); const auto n2 = F::applyOnGeometry(f, g.get()); if (n2 != got.size() || !equal(got, pool[a].want)) c.fail("applyOnGeometry", "the function was applied to something else"); c.count("applied"); } break;
            case 13: name = "destruction of another object"; if (pool.size() > 2) { pool.erase(pool.begin() + a); } break;
        }
        check(pool[r.i(int(pool.size()))], name); if (pool.size() > 8) pool.erase(pool.begin(), pool.begin() + 4);
    }
    for (const auto& s : pool) check(s, "the whole program");
}
struct Scratch { std::string dir; Scratch() { std::string t = (fs::temp_directory_path()/"verif_c21_XXXXXX").string(); if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory"); dir = t; } ~Scratch() { std::error_code e; if (dir.find("verif_c21_") != std::string::npos) fs::remove_all(dir, e); } };
std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
// runs f; library exceptions are fine
template<class Fn> bool attempt(Case& c, Fn&& f) { try { f(); c.count("returned"); return true; } catch (const std::exception&) { c.count("threw"); } catch (const Standard_Failure&) { c.count("threw"); } return false; }
double scale21(Rng& r) { return r.b(0.3) ? r.lu(1e-3, 1e4) : r.u(0.5, 20); }
std::vector<Sig> sigs(const F::EntityNetwork& n) { std::vector<Sig> v; for (const auto& f : n.entityFragments()) v.push_back(sig(f)); return v; }
std::vector<Sig> sigs(const F::ContainedEntityNetwork& n) { std::vector<Sig> v; for (auto id : n.subDomainIds()) { for (const auto& f : n.subDomainFragments(id)) v.push_back(sig(f)); for (const auto& f : n.subDomainEntityFragments(id)) v.push_back(sig(f)); } return v; }
bool alikeAll(const std::vector<Sig>& a, const std::vector<Sig>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (a[i].type != b[i].type || a[i].parts != b[i].parts || a[i].measure != b[i].measure || dist(a[i].cen, b[i].cen) != 0) return false; return true; }
}
int main(int argc, char** argv)
{
    parse(argc, argv); Scratch scratch;
    // ---- value semantics of all classes
    auto place = [](Rng& r, double s) { return r.b(0.3) ? V3(0,0,0) : randVec(r, 20*s); };
    auto obj = [&](int k) { return [=](Rng& r) { const double s = scale21(r); return randObj(r, k, place(r, s), s); }; };
#define VALUES(name, T, ...) section("values-" name, 60, 2500, [&](Rng& r, Case& c) { values<T>(r, c, [&](Rng& q) -> T { const double s = scale21(q); (void)s; __VA_ARGS__ }); })
    VALUES("point", P3, return fp(randVec(q, s)); ); VALUES("vector", W3, return fv(randVec(q, s)); ); VALUES("direction", D3, return fd(randUnit(q)); );
    VALUES("point2", P2, return P2(q.u(-s, s), q.u(-s, s)); ); VALUES("point1", P1, return P1(q.u(-s, s)); );
    VALUES("vector2", W2, return W2(q.u(-s, s), q.u(-s, s)); ); VALUES("direction2", D2, return D2(W2(q.u(0.1, 1), q.u(-1, 1))); );
    VALUES("line", Line3, return Line3(fp(randVec(q, s)), fd(randUnit(q))); ); VALUES("plane", Plane3, return Plane3(fp(randVec(q, s)), fd(randUnit(q))); );
    VALUES("segment", Seg3, const Obj o = obj(KSegment)(q); return Seg3(fp(o.p), fp(o.q)); ); VALUES("circle", Circle3, const Obj o = obj(KCircle)(q); return Circle3(fp(o.m.f.o), fd(o.m.f.w), o.m.a); );
    VALUES("ellipse", Ellipse3, const Obj o = obj(KEllipse)(q); return Ellipse3(fp(o.m.f.o), fd(o.m.f.u), fd(o.m.f.v), o.m.a, o.m.b); ); VALUES("arc", Arc3, return obj(KArc)(q).arc(); );
    VALUES("disk", FDisk, return fdisk(obj(KDisk)(q).m); ); VALUES("quad", Quad3, return fquad(obj(KQuad)(q).m); ); VALUES("polygon", Poly3, return fpoly(obj(q.b() ? KPolygon : KStar)(q).m); );
    VALUES("triangle", Tri3, const Planar m = obj(KQuad)(q).m; return Tri3(fp(m.corner(0)), fp(m.corner(1)), fp(m.corner(2))); );
    VALUES("box", FBox, const Solid d = obj(KBox)(q).d; return FBox(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z); ); VALUES("sphere", FSphere, const Solid d = obj(KSphere)(q).d; return FSphere(fp(d.c), d.r); );
    VALUES("cylinder", FCyl, return fcyl(obj(KCylinder)(q).d.cyl); ); VALUES("lateral", FCylSurf, const Cyl y = obj(KLateral)(q).d.cyl; return q.b() ? fcyl(y).lateralFace() : FCylSurf(Circle3(fp(y.f.o), fd(y.f.w), y.r), y.h); );
    VALUES("id", F::Id, return F::Id(q.i(1000)); ); VALUES("idpair", F::IdPair, return q.b() ? F::IdPair(F::Id(q.i(9)), F::Id(q.i(9))) : F::IdPair(q.i(9), q.i(9)); );
    // hollow cylinders build their parts on demand: any order of queries gives the same parts, references stay valid
    section("values-hollow", 150, 5000, [&](Rng& r, Case& c) {
        const double s = scale21(r); const V3 o = place(r, s), w = randUnit(r); const double r1 = s*r.u(0.05, 0.9), r2 = s*r.u(0.9, 2), h = s*r.u(0.1, 3); c.nontrivial(); c.in << o << w << r1 << " " << r2 << " " << h; auto a = std::make_unique<FHollow>(fp(o), fd(w), r1, r2, h); const FP want = print(*a);
        for (int k = 0; k < 3; ++k)
        {
            auto b = std::make_unique<FHollow>(fp(o), fd(w), r1, r2, h); const Circle3 *p = nullptr, *q = nullptr; const FCylSurf *x = nullptr, *y = nullptr; for (int i = 0; i < 8; ++i) switch (r.i(4)) { case 0: p = &b->bottomOuterCircle(); break; case 1: q = &b->topOuterCircle(); break; case 2: x = &b->innerLateralFace(); break; case 3: y = &b->outerLateralFace(); break; }
            if ((p && !equal(print(*p), print(a->bottomOuterCircle()))) || (q && !equal(print(*q), print(a->topOuterCircle()))) || (x && !equal(print(*x), print(a->innerLateralFace()))) || (y && !equal(print(*y), print(a->outerLateralFace())))) c.fail("hollow", "a part depends on the order of queries");
            if (!equal(print(*b), want)) c.fail("hollow", "the object depends on the order of queries"); FHollow moved(std::move(*b)); b.reset(); if (!equal(print(moved), want)) c.fail("hollow", "a moved object differs"); *a = std::move(moved); if (!equal(print(*a), want)) c.fail("hollow", "a move-assigned object differs"); c.count("compared");
        }
        if (!throws([&] { FHollow bad(fp(o), fd(w), r2, r1, h); })) c.fail("hollow", "an outer radius below the inner one was accepted");
    });
    // ---- everything that can be asked about any sub-shape of any shape
    section("subshapes", 130, 4000, [&](Rng& r, Case& c) {
        const double s = scale21(r); const V3 o = place(r, s); const int k = r.i(NKinds); Obj a = randObj(r, k, o, s), b = randObj(r, KBox + r.i(3), o + randVec(r, 0.7*s), s*r.u(0.4, 1)); a.describe(c.in); TopoDS_Shape sh = a.shape(); const bool cut = k >= KBox && r.b(0.4); if (cut) { b.describe(c.in); sh = r.b() ? U::cut(sh, b.shape(), 1e-7*s) : U::fragment(std::vector<TopoDS_Shape>{sh, b.shape()}, 1e-7*s); } c.nontrivial();
        const P3 x = fp(o + randVec(r, 2*s)); std::vector<TopoDS_Shape> all; for (auto t : {TopAbs_SOLID, TopAbs_SHELL, TopAbs_FACE, TopAbs_WIRE, TopAbs_EDGE, TopAbs_VERTEX}) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(sh, t, m); for (int i = 1; i <= m.Extent() && i <= 7; ++i) all.push_back(m(i)); }
        const TopoDS_Shape other = b.shape(), straight = U::getShape(FBox(o.x - s, o.y - s, o.z - s, o.x + 0.3*s, o.y + 0.6*s, o.z + s)); /* (OpenCascade takes minutes for the distance of nearly concentric curves) */ const double far = 200*s + norm(o);
        auto ask = [&](const auto& g, bool degenerate) {
            int dim = -1; attempt(c, [&] { dim = F::getDimension(g); });
            auto num = [&](const char* what, auto&& f, double lo, double hi) { double v = 0; if (attempt(c, [&] { v = f(); }) && !(v >= lo && v <= hi)) c.fail("number", str(what, " of a sub-shape of dimension ", dim, " is ", v)); };
            num("the magnitude", [&] { return F::computeMagnitude(g); }, 0, 1e3*(s + s*s + s*s*s) + far); num("the default tolerance", [&] { return double(F::defaultEpsilon(g)); }, 0, 1e-5*far);
            if (!degenerate) { num("the distance", [&] { return F::computeDistance(g, x); }, 0, 10*far); num("the distance", [&] { return F::computeDistance(straight, g); }, 0, 10*far); }
            attempt(c, [&] { const auto bb = F::getBoundingBox(g); if (!(bb.xMin() <= bb.xMax() && bb.yMin() <= bb.yMax() && bb.zMin() <= bb.zMax() && std::abs(bb.xMax()) < far && std::abs(bb.zMin()) < far)) c.fail("number", str("the bounding box is ", bb.xMin(), " .. ", bb.xMax())); });
            attempt(c, [&] { const auto t = U::translate(g, fv(V3(s, 0, 0))); if (t.IsNull()) c.fail("null", "the translated shape is null"); });
            attempt(c, [&] { (void)F::geometryName(g); (void)U::getVertices(g); (void)U::getEdges(g); (void)U::getWires(g); (void)U::getFaces(g); (void)U::getShells(g); (void)U::getSolids(g); });
            c.count(str("asked:", dim));
        };
        for (const auto& g : all) { switch (g.ShapeType()) { case TopAbs_SOLID: ask(TopoDS::Solid(g), false); break; case TopAbs_SHELL: ask(TopoDS::Shell(g), false); break; case TopAbs_FACE: ask(TopoDS::Face(g), false); break; case TopAbs_WIRE: ask(TopoDS::Wire(g), false); break; case TopAbs_EDGE: ask(TopoDS::Edge(g), BRep_Tool::Degenerated(TopoDS::Edge(g))); if (BRep_Tool::Degenerated(TopoDS::Edge(g))) c.count("degenerate edges"); break; default: attempt(c, [&] { const P3 q = U::point(TopoDS::Vertex(g)); if (!std::isfinite(q.x())) c.fail("number", "a vertex is not finite"); }); } }
        // faces: contained magnitudes in a domain
        for (const auto& g : all) if (g.ShapeType() == TopAbs_FACE && r.b(0.3)) { double v = -1; if (attempt(c, [&] { v = F::computeContainedMagnitude(TopoDS::Face(g), TopoDS::Solid(U::getSolids(other).at(0))); }) && !(v >= 0 && v <= 1e3*s*s)) c.fail("number", str("the contained magnitude is ", v)); }
    });
    // ---- pairs in awkward positions: the calls return or throw, what they return is finite
    for (const auto& k : pairKinds()) section(std::string("awkward-") + gkName(k.a) + "-" + gkName(k.b) + (k.cf ? "(cyl)" : ""), 30, 900, [&](Rng& r, Case& c) {
        const double s = scale21(r); Geo A, B; randPair(r, k, s, A, B); const int how = r.i(6); c.nontrivial(); c.in << how << " ";
        if (how < 2) { const V3 d = randUnit(r)*(s*(how ? 0.0 : r.lu(1e-12, 1e-5))); Geo q = A.k == B.k && A.cylFace == B.cylFace ? A : B; moveBy(q, d); B = q; }          // the same one, or nearly
        else if (how == 2) { const double f = r.b() ? r.lu(1e-3, 1) : r.lu(1, 1e3); Geo q = randGeo(r, B.k, A.k >= GDisk ? pointOn(r, A) : A.p, std::max(1e-3, f*s), B.cylFace); B = q; } // very different sizes
        else if (how == 3 && A.flat() && B.flat()) { setNormal(r, B, unit(A.m.f.w + r.lu(1e-12, 1e-4)*randUnit(r))); }                              // nearly parallel
        else if (how == 4) { moveBy(B, (A.k >= GDisk || A.k == GSeg ? pointOn(r, A) : A.p) - (B.k >= GDisk || B.k == GSeg ? pointOn(r, B) : B.p)); }
        const double eps = r.b(0.3) ? s*r.lu(1e-10, 1e-3) : 0; A.describe(c.in); B.describe(c.in); c.in << " eps=" << eps;
        attempt(c, [&] { const auto v = doIs(A, B, eps); if (v.empty()) c.fail("result", "no piece and no empty marker"); c.count("pieces", long(v.size())); for (const auto& p : v) for (const V3& x : p.s) if (!std::isfinite(x.x + x.y + x.z)) c.fail("result", "a piece is not finite"); });
        attempt(c, [&] { onPair(A, B, [&](const auto& a, const auto& b) {
            using X = std::decay_t<decltype(a)>; using Y = std::decay_t<decltype(b)>; constexpr bool ax = std::is_same<X, Seg3>::value || std::is_same<X, Line3>::value || std::is_same<X, Plane3>::value, by = std::is_same<Y, Seg3>::value || std::is_same<Y, Line3>::value || std::is_same<Y, Plane3>::value;
            if constexpr (!ax && !by)
            {
                F::EntityNetworkConstraints<double> q; if (how >= 2) q.setMinDistance(0.1*s); if (r.b()) q.setMinIntersectingAngle(0.3); if (r.b()) q.setMinIntersectionMagnitude(0.05*s); if (r.b()) q.setMinIntersectionDistance(0.02*s); if (r.b()) q.allowEquiDimensionalIntersections(true); attempt(c, [&] { c.count(q.evaluate(a, b) ? "allowed" : "forbidden"); });
                if (how >= 2) attempt(c, [&] { const double d = F::computeDistance(U::getShape(a), U::getShape(b)); if (!(d >= 0 && d < 1e9)) c.fail("result", str("distance ", d)); });
                attempt(c, [&] { const auto is = F::intersect(a, b); F::IntersectionAngle<double> ang; const double x = ang(a, b, is); if (!(x >= 0 && x <= 1.5707963267948966 + 1e-9)) c.fail("result", str("angle ", x)); });
            }
        }); });
    });
    // ---- results outlive what they were made from
    section("outlive-networks", 90, 2600, [&](Rng& r, Case& c) {
        CoutCapture quiet; const int nd = r.i(3); Scenario s = randScenario(r, nd, r.i(1, 4), 0.2); s.describe(c.in); c.nontrivial();
        auto run = [&](auto tag, bool contained) {
            using B = typename decltype(tag)::type; auto b = std::make_unique<B>(); fillDomains(*b, s); fillEntities(*b, s); std::vector<Sig> before; using N = std::decay_t<decltype(b->build())>; std::unique_ptr<N> n, m; b->build(); before = sigs(b->network()); n = std::make_unique<N>(b->network());
            const N* ref = &b->network(); if (!alikeAll(sigs(*ref), before)) c.fail("lifetime", "network() differs from build()"); const int kill = r.i(4);
            if (kill == 0) b.reset(); else if (kill == 1) b->clear(); else if (kill == 2) { b->build(); b.reset(); } else { attempt(c, [&] { b->addSubDomainEntity(Seg3(P3(0,0,0), P3(1,0,0)), F::Id(0)); }); b->clear(); b.reset(); }
            if (!alikeAll(sigs(*n), before)) c.fail("lifetime", "a copy of the network changed with its builder"); m = std::make_unique<N>(*n); const std::string f = scratch.dir + "/" + (contained ? "c" : "p"); { F::GmshWriter w(*n); w.write(f + "1", 0.3, 0.2); }
            auto w = std::make_unique<F::GmshWriter>(*m); m.reset(); n.reset(); b.reset(); w->write(f + "2", 0.3, 0.2); w.reset(); // (the numbering may depend on addresses)
            auto content = [&](const std::string& q) { std::string g = slurp(q + ".geo"); const TopoDS_Shape sh = U::readShape(q + ".brep"); std::vector<double> v{double(std::count(g.begin(), g.end(), '\n')), double(std::count(g.begin(), g.end(), ','))}; for (auto t : {TopAbs_VERTEX, TopAbs_EDGE, TopAbs_FACE, TopAbs_SOLID}) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(sh, t, m); v.push_back(m.Extent()); double A = 0; for (int i = 1; i <= m.Extent(); ++i) if (t != TopAbs_VERTEX) A += std::abs(shapeMeasure(m(i), nullptr)); v.push_back(float(A)*(1 + 1e-6)); } return v; };
            const auto a = content(f + "1"), z = content(f + "2"); bool ok = a[0] > 0; for (std::size_t i = 0; i < a.size(); ++i) ok = ok && std::abs(a[i] - z[i]) <= 1e-5*std::abs(a[i]); if (!ok) c.fail("lifetime", "the files differ when the network is gone before they are written"); c.count(contained ? "contained" : "plain");
        };
        if (nd == 0 || r.b(0.3)) run(std::common_type<F::EntityNetworkBuilder<double>>{}, false); else run(std::common_type<F::ContainedEntityNetworkBuilder<double>>{}, true);
    });
    section("outlive-samplers", 200, 6000, [&](Rng& r, Case& c) {
        const double s = scale21(r); c.nontrivial(); using Multi = F::MultiGeometrySampler<FDisk, Quad3, Poly3>; auto multi = std::make_unique<Multi>(); const V3 o = place(r, s); c.in << s << o; std::normal_distribution<double> len(s, 0.1*s), ang(0.3, 0.1); std::uniform_real_distribution<double> ul(0.5*s, s);
        using Base = F::PointSampler<P3>; std::vector<std::shared_ptr<Base>> pts; const int dom = r.i(3);
        auto withPoints = [&](auto&& f) {
            if (dom == 0) { auto d = std::make_unique<FBox>(o.x, o.y, o.z, o.x + s, o.y + 2*s, o.z + s); auto p = F::makeUniformPointSampler(*d); d.reset(); f(p); }
            else if (dom == 1) { auto d = std::make_unique<FCyl>(Circle3(fp(o), fd(randUnit(r)), s), 2*s); auto p = F::makeUniformPointSampler(*d); d.reset(); f(p); }
            else { auto d = std::make_unique<FHollow>(fp(o), fd(randUnit(r)), 0.5*s, s, 2*s); auto p = F::makeUniformPointSampler(*d); d.reset(); f(p); } };
        withPoints([&](auto& p) { auto q = p; p = q; auto t = std::move(q); for (int i = 0; i < 3; ++i) { const V3 x = rp(t()); if (!(dist(x, o) < 10*s)) c.fail("lifetime", str("a point sampler whose geometry is gone returned ", x)); } pts.push_back(std::make_shared<std::decay_t<decltype(t)>>(t)); });
        withPoints([&](auto& p) { auto d = std::make_unique<F::DiskSampler<>>(p, len, len, ang, ang, ang); multi->addGeometrySampler(*d, F::Id(1)); d.reset(); });
        withPoints([&](auto& p) { auto d = std::make_unique<F::QuadrilateralSampler<3>>(p, ang, ang, ul, ul); multi->addGeometrySampler(*d, F::Id(2)); auto e = *d; d.reset(); (void)e(); });
        withPoints([&](auto& p) { auto d = std::make_unique<F::PolygonSampler<3>>(p, ang, ang, ul, ul, std::uniform_int_distribution<int>(4, 8)); multi->addGeometrySampler(*d, F::Id(3)); d.reset(); });
        auto copy = r.b() ? std::make_unique<Multi>(*multi) : std::make_unique<Multi>(std::move(*multi)); multi.reset(); for (int i = 0; i < 6; ++i) { F::Id id; auto g = (*copy)(id); const FP a = g->name() == "Disk" ? print(dynamic_cast<FDisk&>(*g)) : g->name() == "Polygon_3d" ? print(dynamic_cast<Poly3&>(*g)) : print(dynamic_cast<Quad3&>(*g)); for (double x : a) if (!std::isfinite(x)) c.fail("lifetime", "a sampled geometry is not finite"); c.count("sampled"); }
        for (auto& p : pts) { const V3 x = rp((*p)()); if (!(dist(x, o) < 10*s)) c.fail("lifetime", "a point sampler returned a wrong point"); }
    });
    section("outlive-constraints", 90, 2500, [&](Rng& r, Case& c) {
        const double s = scale21(r); const V3 o = place(r, s); c.in << s << o; c.nontrivial(); using Set = F::MultiGeometryEntitySet<FDisk, Quad3, Poly3>; auto set = std::make_unique<Set>(); using Con = F::EntityNetworkConstraints<double>; using Mat = F::EntityNetworkConstraintsMatrix<Con>; auto mat = std::make_unique<Mat>();
        std::vector<Planar> kept; for (int i = 0; i < 4; ++i) { Planar m = i % 2 ? randPolygon(r, o + randVec(r, s), s, 4) : randDisk(r, o + randVec(r, s), s); kept.push_back(m); std::shared_ptr<F::Geometry> g; if (i % 2) g = std::make_shared<Quad3>(fquad(m)); else g = std::make_shared<FDisk>(fdisk(m)); if (r.b()) set->addEntity(g, F::Id(1 + i % 2)); else if (i % 2) set->addEntity(fquad(m), F::Id(2)); else set->addEntity(fdisk(m), F::Id(1)); }
        auto make = [&] { auto q = std::make_unique<Con>(); q->setMinIntersectingAngle(0.4); q->setMinIntersectionMagnitude(0.05*s); q->setMinIntersectionDistance(0.05*s); q->allowEquiDimensionalIntersections(false); return q; };
        Con keep = *make(); { auto q = make(); mat->addConstraints(*q, F::IdPair(1, 2)); auto q2 = std::make_unique<Con>(*q); q.reset(); mat->addConstraints(*q2, {F::IdPair(1, 1), F::IdPair(2, 1)}); }
        auto set2 = std::make_unique<Set>(r.b() ? *set : std::move(*set)); set.reset(); auto mat2 = std::make_unique<Mat>(*mat); mat.reset();
        for (int i = 0; i < 2; ++i)
        {
            const FDisk d = fdisk(randDisk(r, o + randVec(r, s), s)); bool got = false, ok = attempt(c, [&] { got = mat2->evaluate(*set2, d, F::Id(1)); }); bool want = true, okw = attempt(c, [&] { for (std::size_t j = 0; j < kept.size(); ++j) want = want && (j % 2 ? keep.evaluate(fquad(kept[j]), d) : keep.evaluate(fdisk(kept[j]), d)); });
            if (ok && okw && got != want) c.fail("lifetime", "the verdict of copied matrices and sets differs from that for the entities"); c.count("evaluated"); if (r.b(0.3)) { Con x; x = keep; keep = x; Con y(std::move(x)); keep = y; }
        }
    });
    // arguments at the edge of what is documented: rejected with an exception or answered
    section("edges", 120, 2000, [&](Rng& r, Case& c) {
        const double s = scale21(r); const V3 o = place(r, s); c.in << s << o; c.nontrivial(); Obj a = randObj(r, KPolygon, o, s);
        attempt(c, [&] { Poly3 p(std::vector<P3>{fp(o)}); c.fail("polygon", "a polygon with one corner was accepted"); }); attempt(c, [&] { Poly3 p(std::vector<P3>{}); c.fail("polygon", "an empty polygon was accepted"); });
        attempt(c, [&] { F::EntityNetworkBuilder<double> b; CoutCapture q; (void)b.network(); }); attempt(c, [&] { F::ContainedEntityNetworkBuilder<double> b; CoutCapture q; (void)b.network(); }); attempt(c, [&] { F::EntityNetworkBuilder<double> b; CoutCapture q; b.clear(); b.clear(); (void)b.build(); }); attempt(c, [&] { F::ContainedEntityNetworkBuilder<double> b; CoutCapture q; (void)b.build(); });
        attempt(c, [&] { F::SamplingStatus st; st.reset(); st.increaseCounter(F::Id(r.i(5))); st.increaseRejectedCounter(); CoutCapture q; st.print(); st.print(true); if (!st.finished(F::Id(7)) && st.finished()) c.count("odd"); });
        attempt(c, [&] { F::MultiGeometrySampler<FDisk> m; F::Id id; (void)m(id); }); attempt(c, [&] { F::MultiGeometryEntitySet<FDisk, Quad3> set; F::EntityNetworkBuilder<double> b; set.exportEntitySets(b); set.exportEntitySets({F::Id(4)}, b, F::Id(1)); if (set.numEntities() || set.numEntities(F::Id(3))) c.fail("set", "an empty set has entities"); });
        attempt(c, [&] { F::EntityNetworkConstraintsMatrix<F::EntityNetworkConstraints<double>> m; F::MultiGeometryEntitySet<FDisk, Quad3> set; (void)m.evaluate(set, fdisk(randDisk(r, o, s)), F::Id(1)); }); attempt(c, [&] { F::EntityNetworkConstraints<double> q; if (!q.evaluate(std::vector<FDisk>{}, fdisk(randDisk(r, o, s)))) c.fail("set", "a constraint is violated against no entity"); });
        attempt(c, [&] { Arc3 full(Ellipse3(fp(o), fd(a.m.f.u), fd(a.m.f.v), s, 0.5*s), fp(o + s*a.m.f.u), fp(o + s*a.m.f.u)); if (!full.isFullEllipse() || !(dist(rp(full.getPoint(1.0)), o + s*a.m.f.u) < 1e-6*s + 1e-12*norm(o))) c.fail("arc", "a full turn does not end where it starts"); });
        attempt(c, [&] { const V3 d = randUnit(r); Plane3 p(fp(o), fp(o + s*d), fp(o + s*anyPerp(d, 1))); for (double x : print(p)) if (!std::isfinite(x)) c.fail("plane", "not finite"); }); attempt(c, [&] { FBox b(o.x + s, o.y, o.z, o.x, o.y + s, o.z + s); (void)b.volume(); }); attempt(c, [&] { FBox b(fp(o), fp(o + V3(s, s, s))); (void)b.face(5); });
        attempt(c, [&] { (void)F::computeDistance(fp(o), std::vector<Seg3>{}); }); attempt(c, [&] { std::vector<P3> v{fp(o)}; (void)F::computeDistance(fp(o), v); });
        c.count("asked");
    });
    require("subshapes:returned", 2000); require("subshapes:degenerate edges", 8); require("outlive-networks:plain", 15); require("outlive-networks:contained", 20); require("outlive-samplers:sampled", 600); require("outlive-constraints:evaluated", 60); require("edges:asked", 60);
    for (const char* n : {"point", "vector", "direction", "line", "plane", "segment", "circle", "ellipse", "arc", "disk", "quad", "polygon", "triangle", "box", "sphere", "cylinder", "lateral", "id", "idpair", "hollow"}) require(str("values-", n, ":compared"), 150);
    return finish();
}
