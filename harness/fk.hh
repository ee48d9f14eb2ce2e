// Conversions between the reference models and frackit objects.
#ifndef VERIF_FK_HH
#define VERIF_FK_HH
#include "ref.hh"

#include <memory>
#include <variant>

#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>

namespace vf {

namespace F = Frackit;
using P3 = F::Point<double,3>;
using W3 = F::Vector<double,3>;
using D3 = F::Direction<double,3>;
using Seg3 = F::Segment<double,3>;
using Line3 = F::Line<double,3>;
using Plane3 = F::Plane<double,3>;
using Circle3 = F::Circle<double,3>;
using Ellipse3 = F::Ellipse<double,3>;
using Arc3 = F::EllipseArc<double,3>;
using FDisk = F::Disk<double>;
using Tri3 = F::Triangle<double,3>;
using Quad3 = F::Quadrilateral<double,3>;
using Poly3 = F::Polygon<double,3>;
using FBox = F::Box<double>;
using FSphere = F::Sphere<double>;
using FCyl = F::Cylinder<double>;
using FCylSurf = F::CylinderSurface<double>;
using FHollow = F::HollowCylinder<double>;

inline P3 fp(V3 p) { return P3(p.x, p.y, p.z); }
inline W3 fv(V3 p) { return W3(p.x, p.y, p.z); }
inline D3 fd(V3 p) { return D3(fv(p)); }
inline V3 rp(const P3& p) { return {p.x(), p.y(), p.z()}; }
inline V3 rv(const W3& p) { return {p.x(), p.y(), p.z()}; }
inline V3 rd(const D3& p) { return {p.x(), p.y(), p.z()}; }

inline FDisk fdisk(const Planar& p) { return FDisk(fp(p.f.o), fd(p.f.u), fd(p.f.v), p.a, p.b); }
inline Poly3 fpoly(const Planar& p)
{ std::vector<P3> c; for (size_t i = 0; i < p.poly.size(); ++i) c.push_back(fp(p.corner(int(i)))); return Poly3(c); }
// frackit orders quadrilateral corners row-wise
inline Quad3 fquad(const Planar& p)
{ return Quad3(fp(p.corner(0)), fp(p.corner(1)), fp(p.corner(3)), fp(p.corner(2))); }
inline FCyl fcyl(const Cyl& c) { return FCyl(F::Circle<double,3>(fp(c.f.o), fd(c.f.w), c.r), c.h); }

} // namespace vf
#endif
