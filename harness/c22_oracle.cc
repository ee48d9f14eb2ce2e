// C22: answers of the C++ library to requests read from standard input, one per line.
#include "fk.hh"
#include "net.hh"
#include "netgen.hh"
#include "geofile.hh"
#include <frackit/common/math.hh>
#include <frackit/common/id.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/io/gmshwriter.hh>
#include <frackit/sampling/boxpointsampler.hh>
#include <frackit/sampling/cylinderpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/status.hh>
#include <deque>
using namespace vf;
namespace {
// ---- output: numbers, $strings; ! if something was thrown
struct Out { std::ostringstream o; void n(double x) { char b[40]; std::snprintf(b, sizeof b, " %.17g", x); o << b; } void s(const std::string& x) { o << " $"; for (char c : x) o << (c == ' ' || c == '\n' ? '_' : c); } void bad() { o << " !"; } };
Out out;
template<class Fn> void part(Fn&& f) { Out keep; std::swap(keep, out); bool ok = true; try { f(); } catch (const std::exception&) { ok = false; } catch (const Standard_Failure&) { ok = false; } std::swap(keep, out); if (ok) out.o << keep.o.str(); else out.bad(); }
void num(double x) { out.n(x); }
template<class A> void xyz(const A& p) { num(p.x()); if constexpr (A::worldDimension() > 1) num(p.y()); if constexpr (A::worldDimension() > 2) num(p.z()); }
// ---- descriptions
template<class T, int d> void desc(const F::Point<T,d>& p) { out.s(p.name()); xyz(p); }
template<class T, int d> void desc(const F::Vector<T,d>& p) { out.s(p.name()); xyz(p); }
template<class T, int d> void desc(const F::Direction<T,d>& p) { out.s(p.name()); xyz(p); }
void desc(const Line3& l) { out.s(l.name()); xyz(l.supportingPoint()); xyz(l.direction()); }
void desc(const Seg3& s) { out.s(s.name()); xyz(s.source()); xyz(s.target()); xyz(s.direction()); num(s.length()); desc(s.supportingLine()); xyz(s.center()); xyz(s.getReversed().source()); xyz(s.getReversed().target()); }
void desc(const Plane3& p) { out.s(p.name()); xyz(p.supportingPoint()); xyz(p.normal()); xyz(p.base1()); xyz(p.base2()); }
template<class E> void elliptical(const E& e) { xyz(e.center()); xyz(e.majorAxis()); xyz(e.minorAxis()); xyz(e.normal()); num(e.majorAxisLength()); num(e.minorAxisLength()); desc(e.supportingPlane()); }
void desc(const Ellipse3& e) { out.s(e.name()); elliptical(e); }
void desc(const Circle3& e) { out.s(e.name()); elliptical(e); num(e.radius()); xyz(e.base1()); xyz(e.base2()); }
void desc(const Arc3& a) { out.s(a.name()); elliptical(a); xyz(a.source()); xyz(a.target()); desc(Ellipse3(a.supportingEllipse())); num(a.isFullEllipse()); num(a.sourceAngleOnEllipse()); num(a.targetAngleOnEllipse()); }
template<class G> void corners(const G& g) { num(g.numCorners()); for (int i = 0; i < int(g.numCorners()); ++i) xyz(g.corner(i)); num(g.numEdges()); for (int i = 0; i < int(g.numEdges()); ++i) { xyz(g.edge(i).source()); xyz(g.edge(i).target()); } }
void desc(const Tri3& t) { out.s(t.name()); num(t.area()); xyz(t.center()); xyz(t.normal()); desc(t.supportingPlane()); corners(t); }
void desc(const Quad3& q) { out.s(q.name()); part([&] { num(q.area()); }); xyz(q.center()); desc(q.supportingPlane()); num(q.isConvex()); corners(q); }
void desc(const Poly3& q) { out.s(q.name()); part([&] { num(q.area()); }); part([&] { xyz(q.center()); }); desc(q.supportingPlane()); num(q.isConvex()); corners(q); }
void desc(const FDisk& d) { out.s(d.name()); elliptical(d); num(d.area()); desc(d.boundingEllipse()); }
void desc(const FBox& b) { out.s(b.name()); num(b.volume()); num(b.xMin()); num(b.yMin()); num(b.zMin()); num(b.xMax()); num(b.yMax()); num(b.zMax()); xyz(b.center()); num(b.numCorners()); for (int i = 0; i < int(b.numCorners()); ++i) xyz(b.corner(i)); num(b.numEdges()); for (int i = 0; i < int(b.numEdges()); ++i) { xyz(b.edge(i).source()); xyz(b.edge(i).target()); } num(b.numFaces()); for (int i = 0; i < int(b.numFaces()); ++i) desc(b.face(i)); }
void desc(const FSphere& s) { out.s(s.name()); xyz(s.center()); num(s.radius()); num(s.volume()); }
template<class C> void bases(const C& c) { xyz(c.base1()); xyz(c.base2()); xyz(c.base3()); desc(c.centerSegment()); num(c.height()); }
void desc(const FCyl& c) { out.s(c.name()); bases(c); xyz(c.direction()); num(c.radius()); num(c.volume()); desc(c.topFace()); desc(c.bottomFace()); num(c.lateralFace().area()); desc(c.lateralFace().lowerBoundingCircle()); }
void desc(const FCylSurf& c) { out.s(c.name()); bases(c); xyz(c.direction()); num(c.radius()); num(c.area()); desc(c.upperBoundingCircle()); desc(c.lowerBoundingCircle()); num(c.cylinder().volume()); desc(c.cylinder().bottomFace()); }
void desc(const FHollow& c) { out.s(c.name()); bases(c); xyz(c.axis()); num(c.innerRadius()); num(c.outerRadius()); num(c.volume()); desc(c.bottomInnerCircle()); desc(c.topInnerCircle()); desc(c.bottomOuterCircle()); desc(c.topOuterCircle()); num(c.innerLateralFace().area()); num(c.outerLateralFace().area()); num(c.fullCylinder().volume()); desc(c.fullCylinder().bottomFace()); }
template<int d> void desc(const F::EmptyIntersection<d,double>& e) { out.s(e.name()); }
// shapes: how many of each kind, how large, where
void bbox(const FBox& b) { num(b.xMin()); num(b.yMin()); num(b.zMin()); num(b.xMax()); num(b.yMax()); num(b.zMax()); }
void shape(const TopoDS_Shape& s)
{
    using namespace F::OCCUtilities; double l = 0, a = 0, v = 0; const auto e = getEdges(s); const auto f = getFaces(s); const auto so = getSolids(s);
    num(getVertices(s).size()); num(e.size()); num(getWires(s).size()); num(f.size()); num(getShells(s).size()); num(so.size()); for (auto& x : e) l += F::computeMagnitude(x); for (auto& x : f) a += F::computeMagnitude(x); for (auto& x : so) v += F::computeMagnitude(x); num(l); num(a); num(v); part([&] { bbox(F::OCCUtilities::getBoundingBox(s)); });
}
template<class S, std::enable_if_t<std::is_base_of_v<TopoDS_Shape, S>, int> = 0> void desc(const S& s) { out.s("shape"); shape(s); }
template<class... T> void desc(const std::variant<T...>& v) { std::visit([](const auto& g) { desc(g); }, v); }
template<class T> void desc(const std::vector<T>& v) { out.s("list"); num(v.size()); for (auto& x : v) { out.s("item"); desc(x); } }
// ---- input
std::deque<std::string> in;
std::string word() { if (in.empty()) throw std::logic_error("request too short"); auto s = in.front(); in.pop_front(); return s; }
double val() { return std::stod(word()); }
int integer() { return int(val()); }
P3 pt() { const double x = val(), y = val(), z = val(); return P3(x, y, z); }
D3 dir() { const double x = val(), y = val(), z = val(); return D3(W3(x, y, z)); }
using Any = std::variant<P3, Seg3, Line3, Plane3, Circle3, Ellipse3, Arc3, Tri3, Quad3, Poly3, FDisk, FCylSurf, FCyl, FBox, FSphere, TopoDS_Edge, TopoDS_Face, TopoDS_Solid, TopoDS_Shape>;
template<class G> using ShapeOf = decltype(F::OCCUtilities::getShape(std::declval<const G&>()));
template<class G, class = void> struct HasShape : std::false_type {};
template<class G> struct HasShape<G, std::void_t<ShapeOf<G>>> : std::true_type {};
template<class G> TopoDS_Shape toShape(const G& g) { if constexpr (std::is_base_of_v<TopoDS_Shape, G>) return g; else if constexpr (HasShape<G>::value && !std::is_same_v<G, Line3> && !std::is_same_v<G, Plane3> && !std::is_same_v<G, Tri3>) return F::OCCUtilities::getShape(g); else throw std::logic_error("no shape"); }
Any geo()
{
    const std::string k = word();
    if (k == "point") return pt(); if (k == "seg") { auto a = pt(), b = pt(); return Seg3(a, b); } if (k == "line") { auto a = pt(); auto d = dir(); return Line3(a, d); } if (k == "plane") { auto a = pt(); auto d = dir(); return Plane3(a, d); }
    if (k == "circle") { auto a = pt(); auto d = dir(); const double r = val(); return Circle3(a, d, r); } auto ell = [&] { auto c = pt(); auto a = dir(), b = dir(); const double x = val(), y = val(); return Ellipse3(c, a, b, x, y); };
    if (k == "ellipse") return ell(); if (k == "disk") return FDisk(ell()); if (k == "arc") { auto e = ell(); const double s = val(), t = val(); return Arc3(e, e.getPointFromAngle(s), e.getPointFromAngle(t)); }
    if (k == "tri") { auto a = pt(), b = pt(), c = pt(); return Tri3(a, b, c); } if (k == "quad") { auto a = pt(), b = pt(), c = pt(), d = pt(); return Quad3(a, b, c, d); } if (k == "poly") { const int n = integer(); std::vector<P3> v; for (int i = 0; i < n; ++i) v.push_back(pt()); return Poly3(v); }
    auto circ = [&] { auto a = pt(); auto d = dir(); const double r = val(); return Circle3(a, d, r); }; if (k == "cyl") { auto c = circ(); const double h = val(); return FCyl(c, h); } if (k == "cylsurf") { auto c = circ(); const double h = val(); return FCylSurf(c, h); }
    if (k == "box") { auto a = pt(), b = pt(); return FBox(a.x(), a.y(), a.z(), b.x(), b.y(), b.z()); } if (k == "sphere") { auto a = pt(); const double r = val(); return FSphere(a, r); }
    if (k == "edge" || k == "face" || k == "solid" || k == "shape") { const auto g = geo(); const TopoDS_Shape s = std::visit([](const auto& x) { return toShape(x); }, g); if (k == "shape") return s; if (k == "edge") return F::OCCUtilities::getEdges(s).at(0); if (k == "face") return F::OCCUtilities::getFaces(s).at(0); return F::OCCUtilities::getSolids(s).at(0); }
    throw std::logic_error("unknown geometry " + k);
}
TopoDS_Shape asShape() { const auto g = geo(); return std::visit([](const auto& x) { return toShape(x); }, g); }
template<class T, class... Ts> constexpr bool isOneOf = (std::is_same_v<T, Ts> || ...);
template<class G> constexpr bool isShape = std::is_base_of_v<TopoDS_Shape, G>;
template<class Fn> void pairOf(const Any& a, const Any& b, Fn&& f) { std::visit([&](const auto& x, const auto& y) { f(x, y); }, a, b); }
// ---- requests
void describe()
{
    const auto g = geo(); const int np = integer(); std::vector<P3> p; for (int i = 0; i < np; ++i) p.push_back(pt()); const double eps = val(), t = val(), t2 = val();
    std::visit([&](const auto& x) { using G = std::decay_t<decltype(x)>; desc(x);
        constexpr bool c1 = isOneOf<G, Circle3, FCylSurf, FCyl, FBox, FSphere, Line3>, c2 = isOneOf<G, Seg3, Ellipse3, Arc3, Tri3, Quad3, Poly3, FDisk>, plane = isOneOf<G, Plane3>;
        if constexpr (c1 || c2 || plane) for (auto& q : p) { part([&] { num(x.contains(q)); }); part([&] { num(x.contains(q, eps)); }); if constexpr (c2) { part([&] { num(x.contains(q, false)); }); part([&] { num(x.contains(q, eps, false)); }); } }
        if constexpr (isOneOf<G, Line3, Plane3>) for (auto& q : p) xyz(x.projection(q));
        if constexpr (isOneOf<G, Plane3>) if (np > 1) { part([&] { desc(x.projection(Seg3(p[0], p[1]))); }); part([&] { desc(x.projection(Line3(p[0], D3(W3(p[0], p[1]))))); }); }
        if constexpr (isOneOf<G, Seg3, Circle3, Ellipse3, Arc3>) { part([&] { xyz(x.getPoint(t)); }); part([&] { xyz(x.getPoint(t2)); }); } if constexpr (isOneOf<G, FDisk>) part([&] { xyz(x.getPoint(t, t2)); });
        if constexpr (isOneOf<G, Circle3, Ellipse3>) part([&] { xyz(x.getPointFromAngle(7*t)); });
        if constexpr (isOneOf<G, Ellipse3>) for (auto& q : p) { part([&] { num(x.getParam(q)); }); part([&] { num(x.getAngle(q)); }); part([&] { num(x.getParam(q, false)); }); part([&] { num(x.getAngle(q, false)); }); }
        if constexpr (isOneOf<G, FCylSurf>) for (auto& q : p) part([&] { desc(x.getTangentPlane(q)); });
        if constexpr (isOneOf<G, Seg3, Circle3, Ellipse3, Arc3, FDisk, Tri3, Quad3, Poly3, FCylSurf, FCyl, FBox, FSphere, TopoDS_Edge, TopoDS_Face, TopoDS_Solid>) part([&] { num(F::computeMagnitude(x)); });
        if constexpr (isOneOf<G, FBox, FCyl, FCylSurf, FDisk, FSphere, Circle3, Ellipse3, Arc3, Poly3, Quad3, Seg3, TopoDS_Shape, TopoDS_Edge, TopoDS_Face, TopoDS_Solid>) part([&] { bbox(F::getBoundingBox(x)); });
        if constexpr (isOneOf<G, Seg3, Circle3, Ellipse3, FDisk, Quad3, FCylSurf, FBox, TopoDS_Shape>) part([&] { num(F::defaultEpsilon(x)); });
        if constexpr (isOneOf<G, P3, Seg3, Circle3, Ellipse3, Arc3, Quad3, Poly3, FDisk, FBox, FCyl, FCylSurf, FSphere>) part([&] { desc(F::OCCUtilities::getShape(x)); });
        if constexpr (!std::is_same_v<G, TopoDS_Shape>) { num(F::DimensionalityTraits<G>::geometryDimension()); num(F::DimensionalityTraits<G>::worldDimension()); }
    }, g);
}
void hollow() { auto c = pt(); auto d = dir(); const double ri = val(), ro = val(), h = val(); FHollow g(c, d, ri, ro, h); const int np = integer(); desc(g); for (int i = 0; i < np; ++i) { auto p = pt(); num(g.contains(p)); num(g.contains(p, 1e-3*ro)); } num(F::computeMagnitude(g)); const FHollow z(ri, ro, h); desc(z); }
template<class G> constexpr bool distanceKind = isOneOf<G, P3, Seg3, FDisk, Quad3, Poly3, FBox, FCylSurf, TopoDS_Face, TopoDS_Shape>;
void distance()
{
    const auto a = geo(); const int n = integer(); std::vector<Any> b; for (int i = 0; i < n; ++i) b.push_back(geo());
    auto one = [&](const Any& x, const Any& y) { double d = NAN; pairOf(x, y, [&](const auto& g, const auto& h) { using G = std::decay_t<decltype(g)>; using H = std::decay_t<decltype(h)>; if constexpr (distanceKind<G> && distanceKind<H>) d = F::computeDistance(g, h); else throw std::logic_error("kind"); }); return d; };
    if (n == 1) { num(one(a, b[0])); return; } double m = 1e300; for (auto& x : b) m = std::min(m, one(a, x)); num(m);
}
void boundary()
{
    const auto a = geo(), b = geo(); pairOf(a, b, [&](const auto& g, const auto& h) { using G = std::decay_t<decltype(g)>; using H = std::decay_t<decltype(h)>;
        if constexpr (std::is_same_v<H, FBox>) { if constexpr (std::is_same_v<G, P3>) num(F::computeDistanceToBoundary(g, h)); else throw std::logic_error("kind"); }
        else if constexpr (isOneOf<H, FDisk, Quad3, Poly3, FCylSurf, TopoDS_Face, TopoDS_Solid> && isOneOf<G, P3, Seg3, Arc3, FDisk, Quad3, TopoDS_Face, TopoDS_Edge>) { if constexpr (isOneOf<G, P3, TopoDS_Edge> || (isOneOf<G, Seg3> && !isOneOf<H, Quad3, Poly3>)) num(F::computeDistanceToBoundary(g, h)); else num(F::computeDistanceToBoundary(TopoDS_Shape(F::OCCUtilities::getShape(g)), h)); }
        else throw std::logic_error("kind"); });
}
template<class G> constexpr int flat = isOneOf<G, FDisk> ? 1 : isOneOf<G, Quad3> ? 2 : isOneOf<G, Poly3> ? 3 : isOneOf<G, TopoDS_Face> ? 4 : isOneOf<G, FCylSurf> ? 5 : isOneOf<G, Seg3> ? 6 : 0;
template<class G, class H> constexpr bool meets = (flat<G> == 6 && flat<H> == 6) || (flat<G> > 0 && flat<H> > 0 && flat<G> < 6 && flat<H> < 6 && !(flat<G> == 5 && flat<H> == 5) && !(flat<G> == 2 && flat<H> == 3) && !(flat<G> == 3 && flat<H> == 2));
void intersections() { const double eps = val(); const auto a = geo(), b = geo(); pairOf(a, b, [&](const auto& g, const auto& h) { using G = std::decay_t<decltype(g)>; using H = std::decay_t<decltype(h)>; if constexpr (meets<G, H>) { if (eps > 0) desc(F::intersect(g, h, eps)); else desc(F::intersect(g, h)); } else throw std::logic_error("kind"); }); }
void contained() { const auto a = geo(), b = geo(); pairOf(a, b, [&](const auto& g, const auto& h) { using G = std::decay_t<decltype(g)>; using H = std::decay_t<decltype(h)>; if constexpr (isOneOf<G, Seg3, FDisk, Quad3, TopoDS_Face> && isOneOf<H, FBox, FCyl, TopoDS_Solid>) num(F::computeContainedMagnitude(g, h)); else throw std::logic_error("kind"); }); }
using Con = F::EntityNetworkConstraints<double>;
Con constraints()
{
    Con c; const int n = integer(); for (int i = 0; i < n; ++i) { const int k = integer(); const double v = val();
        if (k == 0) c.setMinDistance(v); if (k == 1) c.setMinIntersectingAngle(v); if (k == 2) c.setMinIntersectionMagnitude(v); if (k == 3) c.setMinIntersectionDistance(v); if (k == 4) c.setIntersectionEpsilon(v); if (k == 5) c.setDefaultIntersectionEpsilon(); if (k == 6) c.allowEquiDimensionalIntersections(v > 0);
        if (k == 7) c.neglectMinDistance(); if (k == 8) c.neglectMinIntersectionAngle(); if (k == 9) c.neglectMinIntersectionMagnitude(); if (k == 10) c.neglectMinIntersectionDistance(); }
    return c;
}
template<class G, class H> constexpr bool judged = flat<G> >= 1 && flat<G> <= 4 && flat<H> >= 1 && flat<H> <= 4 && !(flat<G> == 2 && flat<H> == 3) && !(flat<G> == 3 && flat<H> == 2);
bool verdict(const Con& c, const Any& a, const Any& b) { bool r = false; pairOf(a, b, [&](const auto& g, const auto& h) { using G = std::decay_t<decltype(g)>; using H = std::decay_t<decltype(h)>; if constexpr (judged<G, H>) r = c.evaluate(g, h); else throw std::logic_error("kind"); }); return r; }
std::vector<Any> geos() { const int n = integer(); std::vector<Any> v; for (int i = 0; i < n; ++i) v.push_back(geo()); return v; }
void constraint() { const Con c = constraints(); const auto a = geos(), b = geos(); bool all = true; for (auto& x : a) for (auto& y : b) if (all && !verdict(c, x, y)) all = false; num(all); }
// the constraints matrix on one type of entity
template<class G> void matrixOf(const std::vector<Con>& cons)
{
    using M = F::MultiGeometryEntitySet<G>; F::EntityNetworkConstraintsMatrix<Con> m; std::map<std::size_t,bool> row; M sets; const int steps = integer();
    for (int s = 0; s < steps; ++s)
    {
        const std::string k = word();
        if (k == "reg") { const int c = integer(), n = integer(); std::vector<F::IdPair> v; for (int i = 0; i < n; ++i) { const std::size_t a = integer(), b = integer(); v.push_back(F::IdPair(F::Id(a), F::Id(b))); }
            bool ok = true; try { if (n == 1) m.addConstraints(cons.at(c), v[0]); else if (n == 2) m.addConstraints(cons.at(c), {v[0], v[1]}); else m.addConstraints(cons.at(c), {v[0], v[1], v[2]}); } catch (const std::runtime_error&) { ok = false; } if (ok) for (auto& p : v) row[p.first().get()] = true; num(ok); }
        else if (k == "add") { const std::size_t id = integer(); sets.addEntity(std::get<G>(geo()), F::Id(id)); }
        else { const std::size_t id = integer(); const auto g = std::get<G>(geo()); if (!row.count(id)) num(1); else part([&] { num(m.evaluate(sets, g, F::Id(id))); }); }
    }
}
void matrix() { const int n = integer(); std::vector<Con> c; for (int i = 0; i < n; ++i) c.push_back(constraints()); const std::string k = word(); if (k == "disk") matrixOf<FDisk>(c); else if (k == "quad") matrixOf<Quad3>(c); else matrixOf<Poly3>(c); }
// networks: built and written here; files of either side are described by "file"
template<class B> void fill(B& b, bool plain)
{
    const int un = integer(); const double eps = val(); if (!un) b.setConfineToSubDomainUnion(false); if (eps > 0) b.setEpsilon(eps); if (eps < 0) b.setDefaultEpsilon();
    const int nd = integer(); for (int i = 0; i < nd; ++i) { const std::size_t id = integer(); const int conf = integer(); const auto g = geo(); std::visit([&](const auto& x) { using G = std::decay_t<decltype(x)>; if constexpr (isOneOf<G, FBox, FCyl, TopoDS_Solid>) { if (conf) b.addConfiningSubDomain(x, F::Id(id)); else b.addSubDomain(x, F::Id(id)); } }, g); }
    const int ne = integer(); for (int i = 0; i < ne; ++i) { const std::size_t id = integer(); const int how = integer(); const auto g = geo(); (void)plain; std::visit([&](const auto& x) { using G = std::decay_t<decltype(x)>; if constexpr (isOneOf<G, FDisk, Quad3, Poly3, TopoDS_Face>) { if constexpr (std::is_same_v<B, F::EntityNetworkBuilder<double>>) if (how == 1) { b.addEntity(x); return; } b.addSubDomainEntity(x, F::Id(id)); } }, g); }
}
void network()
{
    const std::string name = word(); const bool plain = integer(); const double a = val(), c = val();
    auto go = [&](auto&& b) { fill(b, plain); const auto& n = b.build(); F::GmshWriter w(n); if (c > 0) w.write(name, a, c); else w.write(name, a); num(1); };
    if (plain) go(F::EntityNetworkBuilder<double>()); else go(F::ContainedEntityNetworkBuilder<double>());
}
void file()
{
    const std::string name = word(); Brep b(name + ".brep"); if (b.shape.IsNull()) { out.bad(); return; } GeoFile g(name + ".geo"); num(b.so.Extent()); num(b.f.Extent()); num(b.e.Extent()); num(b.v.Extent()); num(g.errors.size()); num(g.merges);
    auto map = [&](int d) -> const TopTools_IndexedMapOfShape& { return d == 3 ? b.so : d == 2 ? b.f : d == 1 ? b.e : b.v; };
    auto m = [&](int d, int k) { struct { double m; V3 c; } r{0, V3(0,0,0)}; const auto& x = map(d); if (k < 1 || k > x.Extent()) throw std::runtime_error("number"); const Sig s = sig(x(k)); r.m = s.measure; r.c = s.cen; return r; };
    auto record = [&](const char* kind, int d, int tag, const std::vector<int>& l) { double sum = 0; V3 c(0,0,0); for (int k : l) { const auto r = m(d, k); sum += r.m; c = c + r.m*r.c; } if (sum > 0) c = c/sum; out.s(kind); num(d); num(tag); num(l.size()); num(sum); num(c.x); num(c.y); num(c.z); };
    for (auto& p : g.phys) for (auto& q : p.second) { if (p.first != 1) record("group", p.first, q.first, q.second); else for (int k : q.second) record("group", 1, 0, {k}); } // edge groups may be numbered in another order
    std::vector<double> size(b.v.Extent() + 1, -1); for (auto& z : g.sizes) for (int k : z.list) { const auto& x = map(z.dim); if (k < 1 || k > x.Extent()) throw std::runtime_error("number"); for (TopExp_Explorer p(x(k), TopAbs_VERTEX); p.More(); p.Next()) size[b.v.FindIndex(p.Current())] = z.value; }
    for (int i = 1; i <= b.v.Extent(); ++i) { const gp_Pnt p = BRep_Tool::Pnt(TopoDS::Vertex(b.v(i))); out.s("vertex"); num(size[i]); num(0); num(1); num(0); num(p.X()); num(p.Y()); num(p.Z()); }
    for (int i = 1; i <= b.f.Extent(); ++i) record("face", 2, 0, {i});
}
void booleans()
{
    const std::string k = word(); const double eps = val(); std::vector<TopoDS_Shape> s; const int n = integer(); for (int i = 0; i < n; ++i) s.push_back(asShape());
    if (k == "cut") shape(F::OCCUtilities::cut(s[0], s[1], eps)); else if (k == "intersect") shape(F::OCCUtilities::intersect(s[0], s[1], eps)); else if (k == "fragment") shape(F::OCCUtilities::fragment(s, eps)); else shape(F::OCCUtilities::fuse(s, eps));
}
void translate() { const double x = val(), y = val(), z = val(); const auto g = geo(); std::visit([&](const auto& s) { using G = std::decay_t<decltype(s)>; if constexpr (isShape<G>) shape(F::OCCUtilities::translate(s, W3(x, y, z))); else throw std::logic_error("kind"); }, g); }
// ---- vectors, points
template<int d> F::Vector<double,d> vec() { if constexpr (d == 1) { const double x = val(); return F::Vector<double,1>(x); } else if constexpr (d == 2) { const double x = val(), y = val(); return F::Vector<double,2>(x, y); } else { const double x = val(), y = val(), z = val(); return W3(x, y, z); } }
template<int d> F::Point<double,d> point() { if constexpr (d == 1) { const double x = val(); return F::Point<double,1>(x); } else if constexpr (d == 2) { const double x = val(), y = val(); return F::Point<double,2>(x, y); } else return pt(); }
template<int d> void algebra()
{
    const auto a = vec<d>(), b = vec<d>(); const auto p = point<d>(), q = point<d>(); const double s = val(), eps = val(); desc(a); num(a.squaredLength()); num(a.length()); num(a.isParallel(b)); num(a.isParallel(b, eps)); num(a*b); xyz(a + b); xyz(a - b); { auto c = a; c *= s; xyz(c); c /= s; xyz(c); } desc(F::Direction<double,d>(a)); { auto e = F::Direction<double,d>(a); e.invert(); xyz(e); xyz(e*s); } xyz(F::Vector<double,d>(p, q)); xyz(F::Vector<double,d>(F::Direction<double,d>(b)));
    desc(p); xyz(p + a); xyz(p - a); { auto c = p; c += a; xyz(c); c -= b; xyz(c); c *= s; xyz(c); c /= s; xyz(c); } num(p.isEqual(q)); num(p.isEqual(q, eps)); num(p.isEqual(p + a, eps)); num(F::computeDistance(p, q)); if constexpr (d == 3) { auto c = a; F::rotate(c, F::Direction<double,3>(b), s); xyz(c); num(F::computeMagnitude(a)); } num(F::toDegrees(s)); num(F::toRadians(s));
}
// ---- samplers with given values of the random variables
struct Given { double v = 0; template<class G> double operator()(G&) { return v; } Given(double x = 0) : v(x) {} Given(double, double) {} };
struct Queue { std::shared_ptr<std::vector<double>> v; std::shared_ptr<std::size_t> at; Queue() : v(std::make_shared<std::vector<double>>()), at(std::make_shared<std::size_t>(0)) {} template<class G> double operator()(G&) { if (v->empty()) throw std::logic_error("no values"); const double x = (*v)[*at % v->size()]; ++*at; return x; } };
Queue queue() { Queue q; const int n = integer(); for (int i = 0; i < n; ++i) q.v->push_back(val()); return q; }
struct PointTraits { using DistributionBase1 = Queue; using DistributionBase2 = Queue; using DistributionBase3 = Queue; };
struct DiskTraits { using MajorAxisLengthDistribution = Queue; using MinorAxisLengthDistribution = Queue; using XAngleDistribution = Queue; using YAngleDistribution = Queue; using ZAngleDistribution = Queue; };
struct FixedPoint : public F::PointSampler<P3> { P3 p; FixedPoint(P3 q) : p(q) {} P3 operator()() override { return p; } };
void sampler()
{
    const std::string k = word(); const int n = integer();
    if (k == "box") { auto x = queue(), y = queue(), z = queue(); F::BoxPointSampler<double, PointTraits> s(x, y, z); for (int i = 0; i < n; ++i) xyz(s()); }
    else if (k == "cyl") { const auto g = std::get<FCyl>(geo()); auto x = queue(), y = queue(), z = queue(); F::CylinderPointSampler<double, PointTraits> s(g, x, y, z); for (int i = 0; i < n; ++i) xyz(s()); }
    else { const P3 c = pt(); auto a = queue(), b = queue(), x = queue(), y = queue(), z = queue(); F::DiskSampler<double, DiskTraits> s(FixedPoint(c), a, b, x, y, z); for (int i = 0; i < n; ++i) desc(s()); }
}
void status()
{
    F::SamplingStatus st; const int n = integer(); CoutCapture cap;
    for (int i = 0; i < n; ++i) { const int k = integer(); const F::Id id{static_cast<std::size_t>(integer())}; const int v = integer(); part([&] { if (k == 0) st.setTargetCount(id, v); else if (k == 1) st.increaseCounter(id); else if (k == 2) st.increaseRejectedCounter(); else if (k == 3) st.resetCounter(id); else if (k == 4) st.resetCounters(); else if (k == 5) st.reset(); else if (k == 6) num(st.finished()); else if (k == 7) num(st.finished(id)); else if (k == 8) num(st.getCount()); else num(st.getCount(id)); }); }
}
}
int main()
{
    std::string line; const std::map<std::string, std::function<void()>> ops = {{"describe", describe}, {"hollow", hollow}, {"distance", distance}, {"boundary", boundary}, {"intersect", intersections}, {"contained", contained}, {"constraint", constraint}, {"matrix", matrix}, {"network", network}, {"file", file}, {"booleans", booleans}, {"translate", translate}, {"algebra1", algebra<1>}, {"algebra2", algebra<2>}, {"algebra3", algebra<3>}, {"sampler", sampler}, {"status", status}};
    while (std::getline(std::cin, line))
    {
        in.clear(); std::istringstream s(line); for (std::string w; s >> w;) in.push_back(w); out = Out(); const std::string op = word(); auto it = ops.find(op); std::string answer;
        try { if (it == ops.end()) throw std::logic_error("unknown request " + op); it->second(); answer = out.o.str(); } catch (const std::logic_error& e) { answer = dynamic_cast<const std::out_of_range*>(&e) ? " !" : std::string(" ?") + e.what(); } catch (const std::exception&) { answer = " !"; } catch (const Standard_Failure&) { answer = " !"; }
        std::cout << "=" << answer << "\n" << std::flush;
    }
}
