# Writes properties.jsonl (one property per line). Edit here, run, commit both.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Point samplers fill exactly the domain they were made for",
 "Every point drawn from a point sampler made for a box, cylinder or hollow cylinder lies in that domain, for any position, orientation and size of it. With the uniform sampler every part of the domain is reached with a frequency proportional to its volume. The same holds for the samplers of the Python package.",
 ["inputs", "histories"], "all boxes/cylinders/hollow cylinders (any axis, offset, size incl. radius below and above 1) and all sequences of draws",
 "the tests draw from two or three fixed unit-size domains and only check containment of the draws",
 ["frackit/sampling/makepointsampler.hh", "frackit/sampling/makeuniformpointsampler.hh", "frackit/sampling/cylinderpointsampler.hh", "frackit/sampling/boxpointsampler.hh", "python/frackit/sampling/__init__.py"],
 [("squared-radius sampling and mapping into the local cylinder basis", "frackit/sampling/cylinderpointsampler.hh"), ("distribution bounds taken from the domain", "frackit/sampling/makepointsampler.hh")],
 ["points returned by operator() of the samplers"])

prop("C02", "Sampled fractures have the sampled parameters and are well formed",
 "A disk, quadrilateral or polygon returned by a sampler has exactly the parameters that were drawn for it: the centre comes from the point sampler, sizes from the length distributions, orientation from the angles (successive rotations about x, y, z for disks; strike and dip for quadrilaterals and polygons), corner count from its distribution. It is always a valid geometry: orthogonal axes and 0 < minor <= major for disks, planar, convex, non-degenerate corners in cyclic order for polygons and quadrilaterals. Inadmissible draws (non-positive or too short lengths, fewer than three corners) are redrawn and never produce a geometry; the polygon sampler reports a distribution without admissible values by an exception after a bounded number of attempts.",
 ["inputs", "histories"], "all parameter distributions (including ones with inadmissible draws) and all draw sequences",
 "tests sample a few entities from one distribution and check next to nothing about them",
 ["frackit/sampling/disksampler.hh", "frackit/sampling/polygonsampler.hh", "frackit/sampling/quadrilateralsampler.hh", "frackit/common/math.hh"],
 [("rotation of the standard basis", "frackit/sampling/disksampler.hh"), ("convex polygon construction from sorted edge vectors", "frackit/sampling/polygonsampler.hh")],
 ["geometries returned by operator() of the samplers"])

prop("C03", "Containment queries agree with the geometric definition",
 "For every geometry class, contains(p) is true for each point of the geometry and false for each point that is farther from it than the tolerance by a clear margin, with either the default or a given tolerance (absolute, but relative to the axis lengths for ellipses and disks as documented), wherever the geometry is placed and however large it is. Skipping the on-plane/on-line test changes nothing for points that are on the plane/line. Queries that are not supported (non-convex polygons) are rejected with an exception.",
 ["inputs"], "all geometries (position, orientation, size, aspect ratio, convex corner counts) and all points (interior, boundary, exterior, off-plane)",
 "tests query a handful of hand-placed points of axis-aligned unit geometries",
 ["frackit/geometry/disk.hh", "frackit/geometry/triangle.hh", "frackit/geometry/quadrilateral.hh", "frackit/geometry/polygon.hh", "frackit/geometry/cylinder.hh", "frackit/geometry/cylindersurface.hh", "frackit/geometry/hollowcylinder.hh", "frackit/geometry/box.hh", "frackit/geometry/sphere.hh", "frackit/geometry/segment.hh", "frackit/geometry/line.hh", "frackit/geometry/plane.hh", "frackit/geometry/circle.hh", "frackit/geometry/ellipse.hh", "frackit/geometry/ellipsearc.hh"],
 [("contains()", "each geometry class")], ["return values of contains()"])

prop("C04", "Reported intersections lie in both geometries",
 "Every point, segment, arc, ellipse, edge or face returned by an intersection query lies in both operands within the tolerance. The pieces of one result do not overlap each other, and a result is either a single empty marker or contains no empty marker at all.",
 ["inputs"], "all pairs of geometries of every supported combination (segments, lines, planes, disks, quadrilaterals, polygons, cylinder surfaces, face shapes) in general and special position",
 "tests use fixed axis-aligned pairs per combination and look at type and a few coordinates",
 ["frackit/intersection/intersect.hh", "frackit/intersection/algorithms/algo_planargeom_planargeom.hh", "frackit/intersection/algorithms/algo_planargeom_line.hh", "frackit/intersection/algorithms/algo_segment_segment.hh", "frackit/intersection/algorithms/algo_plane_plane.hh", "frackit/intersection/algorithms/algo_plane_line.hh", "frackit/intersection/algorithms/algo_cylsurface_planargeom.hh", "frackit/intersection/algorithms/algo_face_face_3d.hh"],
 [("clipping of the plane-plane line with both faces", "algo_planargeom_planargeom.hh"), ("ellipse/face clipping", "algo_cylsurface_planargeom.hh"), ("boolean operations on faces", "algo_face_face_3d.hh")],
 ["value returned by intersect()"])

prop("C05", "No intersection is missed, truncated or misclassified",
 "If two geometries meet, the intersection query does not answer empty, and the pieces it returns together cover the whole set of common points with the right kind of object (point, segment, arc, full ellipse, face). If they are clearly apart, the answer is empty. Touching configurations (a corner or a straight edge of one geometry on the other) are reported as the common point or segment; where curved rims merely graze the other geometry, the answer may be the contact or empty.",
 ["inputs"], "as C04, incl. touching and collinear positions constructed exactly",
 "tests fix about ten positions per combination; completeness over positions, sizes and orientations is untested",
 ["frackit/intersection/intersect.hh", "frackit/intersection/bboxintersection.hh", "frackit/intersection/algorithms/algo_planargeom_planargeom.hh", "frackit/intersection/algorithms/algo_planargeom_line.hh", "frackit/intersection/algorithms/algo_segment_segment.hh", "frackit/intersection/algorithms/algo_cylsurface_planargeom.hh", "frackit/intersection/algorithms/algo_face_face_3d.hh"],
 [("bounding box pre-check", "bboxintersection.hh"), ("clipping", "algorithms/")], ["value returned by intersect()"])

prop("C06", "Intersections do not depend on argument order, placement or unit",
 "Swapping the two arguments, moving both geometries by the same rigid motion, or scaling both by the same factor gives the same intersection (swapped, moved, scaled accordingly): same number and kind of pieces at corresponding places. The same holds for other representations of the same geometry: a quadrilateral given as polygon, a polygon with its corners rotated or reversed, a disk with flipped axes.",
 ["inputs"], "all supported pairs, all permutations of arguments, rigid motions with offsets of a few sizes, scale factors 1e-3..1e3",
 "tests scale a few fixed setups along the axes and never relate two calls to each other",
 ["frackit/intersection/intersect.hh", "frackit/precision/defaultepsilon.hh", "frackit/intersection/algorithms/algo_planargeom_planargeom.hh"],
 [("symmetric overloads", "intersect.hh"), ("size-dependent default tolerances", "precision/defaultepsilon.hh")], ["values returned by two related intersect() calls"])

prop("C07", "Intersection angles are the acute angles between the geometries",
 "The angle reported for two intersecting geometries is the angle in [0, pi/2] between their (tangent) planes at the intersection, the smallest one over several pieces, over evenly spaced points (both ends included) where it varies along a curve, and zero for two-dimensional intersections. It does not depend on argument order, on orientation of normals, or on how the intersection is represented.",
 ["inputs"], "all pairs of planar geometries, cylinder surfaces and (curved) face shapes, and all their intersections, including exactly parallel, orthogonal and tangent positions",
 "tests check a few angles of axis-aligned setups",
 ["frackit/intersection/intersectionangle.hh"],
 [("angle between (tangent) planes", "intersectionangle.hh")], ["IntersectionAngle::operator()"])

prop("C08", "A candidate is accepted exactly if all active constraints hold",
 "The verdict for two entities is true if and only if every active constraint holds for the actual geometry (with no active constraint everything is accepted): distance of non-intersecting entities, angle, size and boundary distance of intersections, and admissible dimension of the intersection. It is independent of argument order; a set of entities is accepted exactly if each member is; constraints that were never set or that are neglected again have no influence whatever the order of the calls; entities given through base-class pointers get the same verdict.",
 ["inputs", "histories"], "all pairs/sets of disks, quadrilaterals, polygons, cylinder surfaces and faces, all subsets of constraints and values, all sequences of setter/neglect calls",
 "tests evaluate about a dozen fixed pairs with one set of constraint values",
 ["frackit/entitynetwork/constraints.hh", "frackit/entitynetwork/constraints_impl/admissibledimension.hh", "frackit/entitynetwork/constraints_impl/admissiblemagnitude.hh", "frackit/entitynetwork/constraints_impl/distancetoboundary.hh", "frackit/geometryutilities/applyongeometry.hh"],
 [("evaluate_()", "constraints.hh")], ["EntityNetworkConstraints::evaluate()"])

prop("C09", "Constraint matrix and entity sets relate the right sets",
 "A candidate of a set is accepted by the constraints matrix exactly if it satisfies, for every registered relation of its own id to another id, the constraints registered for that relation against all entities stored under the other id; relations that are not registered have no influence. A relation can be registered once; a second registration is rejected and leaves the matrix unchanged. A multi-geometry entity set returns, counts and exports exactly the entities that were added under an id, each one once.",
 ["inputs", "histories"], "all sequences of registrations and insertions, all ids and mixes of geometry types",
 "no test covers the matrix or the entity set beyond one example network",
 ["frackit/entitynetwork/constraintsmatrix.hh", "frackit/entitynetwork/multigeometryentityset.hh", "frackit/common/idpair.hh"],
 [("relation lookup by ordered id pair", "constraintsmatrix.hh"), ("per-type storage", "multigeometryentityset.hh")],
 ["EntityNetworkConstraintsMatrix::evaluate()", "MultiGeometryEntitySet export/num functions"])

prop("C10", "Fragmentation preserves the entities",
 "The fragments of a built network cover exactly the union of the inserted entities (cut to the confining domain where there is one): total area per entity is conserved, fragments do not overlap in their interior, and no two entities cross inside a fragment. Every fragment is mapped to the index of an entity that contains it, and distinct entities never share an index.",
 ["inputs"], "all sets of entities (disks, quadrilaterals, polygons, crossing, touching, partially outside, duplicated) with and without (several) confining sub-domains",
 "tests only build two networks and check neither area nor mapping",
 ["frackit/entitynetwork/networkbuilder.hh", "frackit/entitynetwork/entitynetwork.hh"],
 [("boolean fragmentation with history tracking", "networkbuilder.hh")], ["EntityNetwork::entityFragments()", "entityFragmentsIndexMap()"])

prop("C11", "Contained networks respect sub-domains and partition them",
 "In a contained network the fragments of a sub-domain fill exactly that sub-domain. Entities of a confining sub-domain stay within it, entities of a non-confining one stay within the union of all sub-domains unless confinement is switched off, in which case they keep their full area; each sub-domain reports its own fragments with the indices of its own entities. The mesh geometry is conforming: an entity fragment inside a domain is a face of the adjacent domain fragments.",
 ["inputs", "configurations"], "all combinations of one to several sub-domains, confining or not, and entities inside, across and outside of them",
 "one test builds one contained network without checking the result",
 ["frackit/entitynetwork/networkbuilder.hh", "frackit/entitynetwork/containedentitynetwork.hh"],
 [("confinement before fragmentation", "networkbuilder.hh")], ["ContainedEntityNetwork accessors"])

prop("C12", "A builder's result depends only on what it currently holds",
 "Building twice gives the same network; entities and sub-domains may be added between builds and a builder that was used before, or cleared, gives the same result as a fresh builder with the same content and settings. The order in which entities and sub-domains are inserted does not matter beyond the numbering. Invalid insertions (wrong dimension, sub-domain id taken) are rejected with an exception and leave the builder as it was; asking for a network before it was built is an error.",
 ["histories"], "all sequences of add/set/build/clear calls",
 "tests use every builder once",
 ["frackit/entitynetwork/networkbuilder.hh"],
 [("clearBuild_/initializeBuild_", "networkbuilder.hh"), ("default epsilon", "networkbuilder.hh")], ["builder API and networks it returns"])

prop("C13", "Written geometry and mesh files describe the network completely",
 "The .brep file written for a network, read back, contains exactly the fragments of the network (and of its sub-domains). The .geo file assigns every domain fragment, entity fragment and intersection curve to exactly one physical group; fragments are in the same group exactly if they stem from the same entity (or sub-domain), intersection curves of entities are all listed, physical volumes carry the sub-domain id (and physical surfaces of plain networks the entity index), the .geo file loads the .brep file written with it wherever the files are, and the requested mesh sizes apply to the points of the entities and of the rest of the domain boundaries. Networks of other dimensions are rejected.",
 ["inputs", "configurations"], "all networks (plain and contained, single or several sub-domains) and all writer settings",
 "the io test only checks that writing does not fail",
 ["frackit/io/brepwriter.hh", "frackit/io/gmshwriter.hh"],
 [("shape maps to consecutive indices", "brepwriter.hh"), ("physical groups", "gmshwriter.hh")], ["files written to a scratch directory"])

prop("C14", "Lengths, areas and volumes are correct",
 "The length, area or volume reported for a geometry equals its true measure, in the class itself, through the generic magnitude functions and for its boundary representation. The contained magnitude of a geometry in a domain equals the measure of the part inside the domain. Measures of (transformed) copies scale with the size and do not depend on position.",
 ["inputs"], "all geometries and domains",
 "tests compare one half disk in a unit box",
 ["frackit/magnitude/length.hh", "frackit/magnitude/area.hh", "frackit/magnitude/volume.hh", "frackit/magnitude/magnitude.hh", "frackit/magnitude/containedmagnitude.hh"],
 [("closed formulas / OpenCascade properties", "magnitude/")], ["return values"])

prop("C15", "Distances are true minimum distances",
 "The distance between two geometries is the minimum Euclidean distance over all pairs of their points: zero exactly when they meet, symmetric, and never larger than the distance between any two sample points of them. For a list of geometries it is the minimum over the members.",
 ["inputs"], "all pairs of points, segments, lines, planes, disks, quadrilaterals, polygons, arcs, cylinder surfaces, bodies and shapes",
 "tests check a few axis-aligned positions",
 ["frackit/distance/distance.hh"],
 [("closed formulas and BRepExtrema", "distance.hh")], ["computeDistance()"])

prop("C16", "Distance to a boundary and on-boundary tests are right",
 "The distance of a geometry to the boundary of another one is the minimum distance to its rim (ellipse, edges, bounding circles, outer wire). A point is reported to be on a geometry, or on its boundary, exactly if its distance to it is below the tolerance that was given.",
 ["inputs"], "all points/segments/arcs/shapes against disks, quadrilaterals, polygons, cylinder surfaces and faces; all tolerances",
 "tests check a few positions per type with the default tolerance",
 ["frackit/distance/distancetoboundary.hh", "frackit/distance/pointonboundary.hh", "frackit/distance/pointongeometry.hh"],
 [("distance to boundary edges", "distancetoboundary.hh")], ["computeDistanceToBoundary()", "pointOnGeometry()", "pointOnGeometryBoundary()"])

prop("C17", "Sampling status counts exactly what was reported to it",
 "After any sequence of calls the counter of an id equals the number of increments since its last reset, the total is the sum over ids, and sampling is finished exactly when every target is reached. Queries and printing never change the state, never fail for ids or counters in any state, and the printed numbers are the actual counts and ratios.",
 ["histories"], "all sequences of setTargetCount/increase/reset/query/print calls, ids with and without target, zero targets",
 "one test runs one typical sequence",
 ["frackit/sampling/status.hh"],
 [("per-id counters", "status.hh")], ["SamplingStatus API, text written to stdout"])

prop("C18", "Composite samplers follow their strategy without loss or repetition",
 "A multi-geometry sampler returns, at every call, a geometry drawn from one of its samplers together with the id under which exactly that sampler was registered; with the sequential strategy the samplers take turns in a fixed order. Every sampler of the set is used equally often, each drawn geometry is returned once, and ids can only be used once.",
 ["histories"], "all numbers and mixes of samplers, ids and draw sequences",
 "not covered by the tests (only by an example)",
 ["frackit/sampling/multigeometrysampler.hh", "frackit/sampling/sequentialsamplingstrategy.hh", "frackit/sampling/samplingstrategy.hh"],
 [("sequential strategy", "sequentialsamplingstrategy.hh")], ["MultiGeometrySampler::operator()"])

prop("C19", "Vector, direction, line and plane algebra is consistent",
 "Vector arithmetic, lengths, cross/box products, rotations, parallelity, directions, projections onto lines and planes and constructed bases obey their mathematical definitions for all inputs up to rounding: directions have unit length, bases are orthonormal and right-handed, rotations preserve lengths and angles and compose, projections are idempotent and orthogonal, parallel and antiparallel vectors are recognised.",
 ["inputs"], "all vectors/points/lines/planes in 1, 2 and 3 dimensions",
 "tests evaluate single expressions on unit vectors",
 ["frackit/geometry/vector.hh", "frackit/geometry/direction.hh", "frackit/geometry/point.hh", "frackit/geometry/line.hh", "frackit/geometry/plane.hh", "frackit/common/math.hh"],
 [("operators and free functions", "vector.hh, math.hh")], ["return values"])

prop("C20", "Shape conversion, bounding boxes and boolean helpers are faithful",
 "The boundary representation of a geometry has the same points, measure and dimension as the geometry, and converting its vertices/edges back gives the same coordinates. A bounding box contains the geometry and is tight. Intersect, cut, fuse and fragment of shapes conserve measure, translated copies are congruent, and a shape written to a file and read back is the same.",
 ["inputs"], "all geometries and pairs of shapes",
 "only used implicitly by tests",
 ["frackit/occ/breputilities.hh", "frackit/occ/geomutilities.hh", "frackit/occ/gputilities.hh", "frackit/geometryutilities/getboundingbox.hh"],
 [("getShape overloads and OpenCascade wrappers", "occ/breputilities.hh")], ["shapes returned"])

prop("C21", "No call with legal arguments corrupts memory or runs forever",
 "Whatever sequence of API calls with legal arguments a program makes, no out-of-bounds access, use after free, undefined arithmetic or violated internal assertion occurs, and every call returns or throws a C++ exception. Copies, assignments and default-constructed-then-assigned objects behave like the original.",
 ["inputs", "histories"], "random programs over the whole public API",
 "tests run without sanitizers and with assertions disabled, on fixed inputs",
 ["frackit/"],
 [("value semantics of the geometry classes", "frackit/geometry"), ("assertions", "throughout")], ["sanitizer reports, assertions, termination"])

prop("C22", "The Python package gives the same answers as the C++ library",
 "Every function and class of the Python package gives the same result as its C++ counterpart for the same arguments: geometries and their measures, containment, distances, intersections, constraints (for single geometries, lists on either side and both sides), the constraints matrix, network construction and file output, and samplers driven by given random variables.",
 ["inputs", "histories"], "all arguments for which a C++ counterpart exists",
 "there are no Python tests",
 ["python/frackit/geometry/__init__.py", "python/frackit/entitynetwork/__init__.py", "python/frackit/sampling/__init__.py", "python/frackit/occutilities/__init__.py", "frackit/python/"],
 [("pybind11 registration", "frackit/python"), ("Python re-implementations", "python/frackit")], ["values returned in Python"])

prop("C23", "Parametrised curves and surfaces trace their geometry",
 "The points obtained from the parameters or angles of a segment, circle, ellipse, ellipse arc or disk lie on it, run monotonically from source to target, and the angle/parameter computed for such a point is the one it was made from. An arc contains exactly the points between its source and target in the direction of its supporting ellipse, for any position of source and target, including a full turn.",
 ["inputs"], "all curves, parameters and source/target positions",
 "tests evaluate four or five parameters of one arc",
 ["frackit/geometry/ellipse.hh", "frackit/geometry/ellipsearc.hh", "frackit/geometry/circle.hh", "frackit/geometry/segment.hh", "frackit/geometry/disk.hh", "frackit/occ/geomutilities.hh"],
 [("getPoint/getAngle/getParam", "ellipse.hh, ellipsearc.hh")], ["return values"])

prop("C24", "A network grown by sampling and checking is what ends up in the mesh input",
 "When entities are drawn, checked and collected until all targets are met, every pair of accepted entities satisfies the constraints registered for their sets (and for the domain boundary), no candidate that satisfies them is refused, and the counters and sets contain exactly the accepted entities. After export and build, the files written contain exactly these entities, confined to the sub-domain and cut along all their intersections, each in a physical group of its own, next to sub-domains of unchanged volume.",
 ["inputs", "histories", "configurations"], "all mixes of samplers, set ids, targets, relations, sub-domains and draw sequences",
 "tests exercise the parts separately, on fixed geometries; the examples are run without looking at what they produce",
 ["frackit/sampling/", "frackit/entitynetwork/", "frackit/magnitude/containedmagnitude.hh", "frackit/io/gmshwriter.hh"],
 [("interplay of samplers, status, constraints matrix, entity sets, builder and writer", "appl/example3/example3.cc")], ["verdicts, counts, files"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
