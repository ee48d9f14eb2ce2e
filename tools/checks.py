# What each check builds and runs; see run_check.py
def cpp(src, **kw): return {"main": dict(src=src, **kw)}

CHECKS = {
 "C01": dict(programs=dict(main=dict(src="c01.cc"), python=dict(python="c01.py")), pymodules=["common","geometry","sampling","precision","occutilities"],
   rule="a case is one domain (box, cylinder, hollow cylinder: any placement, orientation, six decades of size, aspect ratios up to 20) and 30-60000 points drawn from a sampler made for it; distinct by domain"),
 "C02": dict(programs=dict(main=dict(src="c02.cc")),
   rule="a case is one sampler (disk, polygon, quadrilateral, quadrilateral from edge lengths) with scripted distributions (any angle, nine decades of size, runs of inadmissible values) and 4-6 geometries drawn from it, each compared to the values its distributions returned; distinct by scripted distributions"),
 "C03": dict(programs=cpp("c03.cc"),
   rule="a case is one random geometry (class, position, orientation, size over six decades, aspect ratio) with ~20-100 containment queries at interior, rim, exterior and off-support points; non-trivial if at least one query was judged; distinct by geometry"),
 "C17": dict(programs=cpp("c17.cc"),
   rule="a case is one history of 3-80 calls on a SamplingStatus object (few ids, all operations, huge and zero targets); after every call three random queries are compared to a map-based model; distinct by history"),
 "C18": dict(programs=cpp("c18.cc"),
   rule="a case is one history of registrations (new and taken ids, three geometry types) and draws on a MultiGeometrySampler whose samplers tag what they draw, with the sequential or a user strategy; non-trivial with two or more samplers; distinct by history"),
 "C19": dict(programs=cpp("c19.cc"),
   rule="a case is one tuple of vectors/axes/points (eight decades, sparse, nearly degenerate, (anti)parallel) on which 10-40 algebraic results are compared to an independent computation; distinct by input"),
 "C23": dict(programs=cpp("c23.cc"),
   rule="a case is one curve or solid (position, orientation, size, arcs with any source and target incl. wrap-around and full turns) on which parametrisation, angles and sub-entities are compared to closed forms; distinct by input"),
 "C14": dict(programs=cpp("c14.cc"),
   rule="a case is one set of curves, planar shapes or solids (six decades of size, any placement, arcs incl. full turns, concave polygons, moved/scaled/reversed shapes) or one pair of a geometry and a convex domain; every reported length, area or volume is compared to a closed form or an independent clip; distinct by input"),
 "C15": dict(programs=cpp("c15.cc"),
   rule="a case is one pair of geometries of 13 kinds (or a geometry and a list of others), as classes or boundary representations, six decades of size; the reported distance is compared to certified lower and upper bounds of an independent model and to the swapped call; distinct by input"),
 "C16": dict(programs=cpp("c16.cc"),
   rule="a case is one geometry and one boundary (disk, quadrilateral, polygon, cylinder surface, face, box, solid; six decades of size), whose distance is compared to certified bounds, or 6 points on/near/off it with random and default tolerances; distinct by input"),
 "C04": dict(programs=cpp("c04.cc"),
   rule="a case is one pair of geometries of a supported combination (segments, lines, planes, disks, quadrilaterals, polygons, cylinder surfaces, planar and cylindrical faces; any orientation and size, chosen angles incl. nearly parallel/orthogonal, special touching positions) and one intersect() call whose every piece is sampled and measured against both operands; non-trivial if pieces were returned; distinct by input"),
 "C05": dict(programs=cpp("c05.cc"),
   rule="a case is one pair of geometries of a supported combination, in general position or one of about 50 exactly constructed special positions (touching, collinear, tangent, common edges, coplanar faces), and one intersect() call whose pieces are compared to an independent parametrisation of the common points (coverage, total length or area, number and kind of pieces); distinct by input"),
 "C06": dict(programs=cpp("c06.cc"),
   rule='a case is one pair of geometries of a supported combination (general position with margins, or an exactly constructed special position) and five intersect() calls on it: original, swapped, other representation of the same point sets, moved rigidly, scaled by 1e-3..1e3; all answers are compared after mapping; distinct by pair'),
 "C07": dict(programs=cpp("c07.cc"),
   rule='a case is one pair of planes, flat geometries, cylinder surfaces or faces (planar, cylindrical, spherical, conical, toroidal; general, parallel, orthogonal and tangential positions; default or given tolerance) and its intersection; the angle is asked for the whole result and each piece, in both argument orders and with reversed normals; distinct by pair'),
 "C08": dict(programs=cpp("c08.cc"),
   rule='a case is one pair of geometries (flat geometries, cylinder surfaces, faces; meeting, apart, touching, coplanar, full cuts) or sets of them, and one history of setter/neglect/copy calls on a constraints object; the verdict for the pair, the swapped pair, sets on either side and base-class pointers is compared to a three-valued model; distinct by pair and history'),
 "C09": dict(programs=cpp("c09.cc"),
   rule='a history is judged if every verdict, count and export was compared with the model of relations and sets'),
 "C10": dict(programs=cpp("c10.cc"),
   rule='a network was built and the fragments of every entity were compared with the model of the entity'),
 "C11": dict(programs=cpp("c11.cc"),
   rule='a contained network was built and its domain fragments, entity fragments and their conformity were compared with the model'),
 "C13": dict(programs=cpp("c13.cc"),
   rule='the files of a network were written, read back and compared with the network'),
 "C12": dict(programs=cpp("c12.cc"),
   rule='a program of builder calls was executed and every network was compared with that of a fresh builder'),
 "C20": dict(programs=cpp("c20.cc"),
   rule='a case is one geometry of 13 kinds, one pair of shapes or one set of lattice boxes/rectangles; its boundary representation, bounding box, boolean results, copies and conversions were compared with an independent model of the point sets (points, corners, edges, measures, extents, counts of parts)'),
 "C21": dict(programs=cpp("c21.cc"),
   rule='a case is one random program of copies, moves, assignments and hand-overs on objects of one class, all queries on the sub-shapes of one shape, one pair of geometries in an awkward position, or one set of networks/samplers/constraints that outlive what they were made from; under sanitizers, standard library and frackit assertions'),
 "C22": dict(programs=dict(oracle=dict(src="c22_oracle.cc", run=False, san=False), python=dict(python="c22.py")), pymodules="all",
   rule="a case is one geometry, one pair or list of geometries, one program of settings, one network or one sampler with given draws (six decades of size); the same request is answered by a C++ program and by the Python package, and all values of the two answers are compared"),
 "C24": dict(programs=cpp("c24.cc"),
   rule="a case is one network grown from random samplers, targets, relations and sub-domains: every candidate's verdict, the counts, and the files written for the finished network are judged against models of the accepted entities"),
}
