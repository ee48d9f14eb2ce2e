SAN = "sanitizer build (ASan+UBSan, assertions on) driven by generated workloads; "
BASE = " Held on the executions explored (counts in the evidence file), nothing is proved; trusts OpenCASCADE and the harness' reference model within the stated margins."
NOTES = {
 "C03": (SAN + "online oracle: independent signed-distance models", "Every containment query is judged by a signed-distance model of the geometry; a band around the tolerance is left unjudged." + BASE),
 "C17": (SAN + "online history checker: executable model of the counter contract", "After each call of a random history the queries are compared to a sequential model." + BASE),
 "C19": (SAN + "online oracle: algebraic laws and an independent vector implementation", "Each result on random/degenerate vectors is compared to the defining formula or law within rounding margins." + BASE),
 "C23": (SAN + "online oracle: closed-form curves and round trips", "Points, angles, arc membership, curve handles and sub-entities are compared to closed forms." + BASE),
 "C14": (SAN + "online oracle: closed-form measures and an independent scan-line clip", "Reported lengths, areas and volumes are compared to closed forms and contained magnitudes to an independent numerical clip." + BASE),
 "C15": (SAN + "online oracle: certified distance bounds of an independent model, symmetry", "Distances are compared to certified lower and upper bounds (branch and bound, alternating projections); where OpenCASCADE itself misses a minimum of two curved objects the answer is only bounded." + BASE),
 "C16": (SAN + "online oracle: certified bounds of the distance to the rim, tolerance tests on both sides", "Boundary distances are compared to certified bounds; on-geometry and on-boundary tests are asked with tolerances just below and above the true distance." + BASE),
 "C01": (SAN + "online oracle: membership tests and distribution-free goodness-of-fit monitors over the sampled points", "Every sampled point is tested for membership; the whole sample is tested for uniform coverage with a Kolmogorov-type statistic at a false-alarm probability below 1e-9 per test." + BASE),
 "C02": (SAN + "online oracle: re-measured shape parameters against the scripted random draws", "Each sampled fracture is re-measured (centre, lengths, angles, planarity, simplicity) and compared with the parameters that the injected distributions delivered." + BASE),
 "C18": (SAN + "online trace checker: model of the visiting strategy over the recorded id sequence", "The sequence of ids and the delegated sampler calls are recorded and compared to an executable model of each strategy." + BASE),
 "C04": (SAN + "online oracle: signed-distance models of both operands at points sampled from every returned piece", "Every piece of intersect() is sampled and each sample must lie within ten tolerances of both operands; point pieces must not lie on, and curves not run along, other pieces." + BASE),
 "C05": (SAN + "online oracle: independently computed intersection curves and expected results of exactly constructed special positions", "The samples of an independently computed intersection must be covered by the pieces, whose kinds, number and total length must match; for special positions the expected pieces are known by construction. Near-degenerate bands and OpenCASCADE's failures on two cylinders are not judged." + BASE),
 "C06": (SAN + 'online metamorphic oracle: answers of related calls are compared after mapping', 'Each answer is compared with the answers for swapped arguments, another description of the same geometries, a rigid motion and another unit, where the position is clear of a change of structure.' + BASE),
 "C07": (SAN + 'online oracle: closed-form tangent planes at points of the returned pieces', 'Each reported angle must lie between the smallest angle of the closed-form tangent planes along the pieces and the smallest over five evenly spaced points of them.' + BASE),
 "C08": (SAN + 'online oracle: three-valued model of every constraint over measured intersections and certified distances', 'Each verdict of evaluate() is compared to a model that measures the pieces of the intersection, their distance to the rims and the angles itself and follows the calls on the constraints object; verdicts too close to a threshold are left open.' + BASE),
 "C09": (SAN + 'model of relations and entity sets over random histories; scripted constraints and a recording builder observe what the matrix and the set hand on', "Random histories of insertions (by value and by base-class pointer), single and listed registrations including duplicates, evaluations and exports; verdicts, counts and contents are compared with an exact model. A third section compares the matrix under the library's own constraints with the constraints evaluated pair by pair." + BASE),
 "C10": (SAN + 'reference model of entities, domains and their intersections; monitors over the built network (measure per index, location, overlap, uncut crossings, cell coverage)', 'Random networks (disks, quadrilaterals, polygons, faces, segments) without, with one and with several sub-domains, and lattice networks with coincident, overlapping and touching entities. Per entity index the measure of the fragments is compared with the area of the entity inside its domain from an independent clipper; fragments must lie in their entity, must not overlap, and points of the analytic intersection of two entities must lie on fragment edges. Lattice networks are judged cell by cell.' + BASE),
 "C11": (SAN + 'reference model of domains, entities and confinement rules; monitors over the built network (volume and area per sub-domain and index, location, conformity); exact cell model for lattice networks', 'Random contained networks (one to three boxes, cylinders, spheres in contact or apart, confining or not, union confinement on or off, entities inside, across and outside), lattice boxes with axis-aligned entities (coincident with boundaries, shared between sub-domains) judged exactly cell by cell, and planar networks (faces with segments). Every domain fragment must lie in its domain, the volumes must add up, each entity must be covered according to its confinement, and every entity fragment inside a domain must be a face of the domain fragments there (and every inner face of the domains an entity fragment).' + BASE),
 "C13": (SAN + 'independent reader of the .geo file and of the .brep numbering used by Gmsh; monitors comparing shapes, physical groups and mesh sizes with the network', 'Random plain and contained networks (generic and lattice, none to three sub-domains, duplicated entities, empty networks) are written with the .brep and the Gmsh writer (one or two mesh sizes, absolute and relative paths, folders, overwritten files). The .brep file is read back and its shapes are numbered the way Gmsh does; solids, faces, edges and vertices must match those of the network one to one. The .geo file is executed by a small interpreter: every fragment and every edge shared by fragments of different entities must be in exactly one physical group, groups must correspond to entities and sub-domain ids, and the final mesh size of every vertex must be the requested one.' + BASE),
 "C12": (SAN + 'abstract state machine of the builders (content, settings, built or not); monitors comparing every network with that of a fresh builder, and outcomes of every call with the model', 'Random programs of insertions (all overloads), invalid insertions, settings, builds, network() and clear() calls over generic, lattice and planar content run on plain and contained builders. Every call must succeed or be rejected as in the model; every network is compared, fragment by fragment with its indices, with that of a fresh builder holding the same content; insertion orders are permuted. Tolerances (given, computed on request, default) are observed through a plate that is cut exactly if the tolerance covers a gap.' + BASE),
 "C20": (SAN + 'differential monitor of shape conversion against an independent geometric model', 'Shapes of all geometries (six decades of size, any orientation and position) are compared with an independent model: dimension, validity, vertices, edges, points inside/outside, measure; all sub-shape accessors against a traversal; bounding boxes against exact extents on all six sides; intersect/cut/fuse/fragment of solids, faces and lattice sets against exact or scanned measures and exact numbers of parts, with both argument orders; translated copies sub-shape by sub-shape; files written and read back; all point, vector, direction, line, ellipse and curve conversions. OpenCascade itself misses some intersections of curved surfaces: there the wrapper is compared with a direct OpenCascade call. ' + BASE),
 "C21": (SAN + 'value-semantics and lifetime monitor under sanitizers and assertions with hostile arguments', 'Random programs of copy, move, self-assignment, swap, default construction and assignment, containers, std::optional/variant/any, assign() from the base class and applyOnGeometry for 21 classes: every object is compared with the fingerprint (all accessors) of the object it stems from, after the original is destroyed or overwritten. All queries on all sub-shapes of shapes and boolean results (magnitude, distance, bounding box, tolerance, copies). 34 kinds of pairs in awkward positions (identical, nearly identical, sizes differing by 1e3, nearly parallel, tolerances 1e-10..1e-3): intersections, angles, distances and constraints return or throw, results are finite. Networks, writers, samplers, entity sets and constraint matrices used after what they were made from is gone. Calls at the edge of the documented arguments. A case that needs more than 60 s of processor time counts as not returning. All other checks run under the same sanitizers and assertions as well. ' + BASE),
 "C22": ("differential monitor: the Python package built from the working tree against a C++ program that executes the same requests; online comparison of all values, verdicts, exceptions and files", "Random geometries of all classes and wrapped shapes: constructors, accessors, containment, projections, measures, bounding boxes, tolerances, conversions; pairs and lists: distances, distances to boundaries, intersections, contained magnitudes; constraints (single, lists on either side), constraint matrices; networks of both builders written as files, which are interpreted and compared; booleans, translations, files, compounds; samplers with given draws, sampling status. The polygon sampler, whose draws are its own, is judged by the shape of what it returns. Only combinations that the package registers are judged." + BASE),
 "C24": (SAN + 'end-to-end monitor: an online checker of every decision of the sample-and-check loop against a geometric model, and an offline checker of the files written in the end', 'Networks are grown the way the examples do it: up to four sets of disks, quadrilaterals and polygons, samplers composed by the multi-geometry sampler, targets, a constraints matrix with random one- or two-sided relations, boundary constraints, a minimum contained area, one to three sub-domains. For every candidate the contained area and the verdicts are compared with a model that knows only the corners and axes of the accepted entities; counters, set sizes and the stop criterion with the history. After export, build and writing, the .geo and .brep files alone must describe the accepted entities: one physical surface per entity that fills its part in the domain, cut along all crossings, physical curves with exactly the total length of the intersections, volumes, mesh sizes. ' + BASE),
}
NOT_APPLICABLE = {}
