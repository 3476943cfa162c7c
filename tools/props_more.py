MI = [("insert_vertices, insert_segments, insert_hole", PL + "triangulator.rs"), ("Polyline::contains_polyline, contains_segment", "src/elements/polyline.rs")]
IF = [PL + "triangulator.rs", "src/elements/polyline.rs", "src/elements/edge.rs"]
IW = "the unit tests insert one or two elements into fixed inputs, while acceptance depends on everything inserted before"
IQ = DOM + "; histories of up to ten insertions, valid ones and ones that touch, cross, leave or enclose what is there"
prop("I01", "Vertex constraints are accepted exactly when inside the domain",
     "insert_vertices accepts exactly the lists of vertices that all lie strictly inside the boundary and outside the holes; a refused list is answered with the offending vertices and leaves the triangulator as it was. An accepted list adds each vertex once, and vertices that are there already (also as ends of segments) are not added again.",
     ["inputs", "histories"], IQ, IW, IF, MI, "model-based monitor over randomised insertion histories", EXPL)
prop("I02", "Segment constraints are accepted exactly when inside the domain",
     "insert_segments accepts exactly the lists of segments that lie entirely inside the domain, touching neither boundary nor holes; a refused list is answered with the offending segments and leaves the triangulator as it was. Accepted segments are kept as a set of segments that covers the same points and in which any two meet at end vertices only.",
     ["inputs", "histories"], IQ, IW, IF + ["src/properties/intersection.rs"], MI, "model-based monitor over randomised insertion histories", EXPL)
prop("I03", "Holes are accepted exactly when clear of everything else",
     "insert_hole accepts exactly the polylines that lie strictly inside the boundary, outside of all other holes without enclosing any of them, and clear of all segments; a refused one is answered with the conflicting elements and leaves the triangulator as it was. Vertex constraints inside or on an accepted hole are removed, and no others.",
     ["inputs", "histories"], IQ, IW, IF, MI, "model-based monitor over randomised insertion histories", EXPL)

PQ = "coordinates on integer grids, dyadic, floating, within units in the last place of degenerate; scales from 2^-40 to 2^40 and offsets up to 10^6 times the size"
PW = "the unit tests check one or two well conditioned configurations of each predicate"
PE = "Holds on the executions counted in the evidence file; assumes the exact expansion arithmetic in harness/src/exact.rs. "
prop("P01", "Orientation, in-circle and diametral tests have the right sign",
     "For all vertices, orientation, the continence of a vertex in the circumcircle of a triangle, and the encroachment of a vertex upon a segment are answered correctly: exactly where the configuration is exactly degenerate or further from it than the precision of the coordinates, and never with the opposite sign in between. Ghost triangles encircle exactly what lies to the left of their solid edge.",
     ["inputs"], PQ, PW, ["src/properties/orientation.rs", "src/properties/continence.rs", "src/properties/encroachment.rs", "src/elements/triangle.rs", "src/elements/edge.rs"],
     [("geometric predicates", "src/properties/"), ("Triangle::encircles", "src/elements/triangle.rs")], "exact-arithmetic oracle over randomised and near-degenerate inputs", PE)
prop("P02", "A polyline knows which vertices it contains",
     "For every simple polyline of either turn and every vertex further from it than the precision of the coordinates, contains() answers Inside or Outside correctly, and Boundary for exactly representable vertices on it; an opened polyline contains nothing. The bounding box contains exactly the vertices within the extreme coordinates.",
     ["inputs"], "simple polygons of 3 to about 30 vertices of ten shape classes, vertices on them, level with their vertices, beside their edges, and anywhere; " + PQ, PW,
     ["src/elements/polyline.rs", "src/elements/bounding_box.rs"], [("Polyline::contains", "src/elements/polyline.rs")], "exact point-location oracle over randomised polygons", PE)
prop("P03", "Areas and orientations of polylines are measured right",
     "For all vertices, the signed area of a triangle, the signed area and the orientation of closed polylines, and the center of a triangle are what exact arithmetic gives, up to the precision of the coordinates, however far from the origin.",
     ["inputs"], PQ, PW, ["src/properties/area.rs", "src/elements/triangle.rs", "src/elements/polyline.rs"], [("area_triangle, area_segments", "src/properties/area.rs")], "exact-arithmetic oracle over randomised inputs", PE)
prop("P04", "Circumcenters and shape ratios are measured right",
     "For all triangles that are not nearly degenerate, the circumcenter is equidistant from the three vertices and the quality is the ratio of circumradius to shortest edge, up to the precision of the coordinates. Degenerate and ghost triangles have neither.",
     ["inputs"], PQ, PW, ["src/properties/circumcenter.rs", "src/elements/triangle.rs"], [("circumcenter", "src/properties/circumcenter.rs"), ("Triangle::quality", "src/elements/triangle.rs")], "exact-arithmetic oracle over randomised inputs", PE)
prop("P05", "Segments intersect exactly when they share a point",
     "For all pairs of segments, intersection() answers a vertex exactly when they share a point, crossing, touching or overlapping, unless nearly so; the vertex lies on both, and is the shared or touching end vertex itself where there is one.",
     ["inputs"], PQ, PW, ["src/properties/intersection.rs"], [("intersection", "src/properties/intersection.rs")], "exact-arithmetic oracle over randomised inputs", PE)
prop("P06", "Distances, angles, dot products and parallels are measured right",
     "For all vertices, distance, midpoint, dot product, and the angle at a vertex (counterclockwise, between 0 and 2 pi) are what exact arithmetic gives, up to the precision of the coordinates; exactly representable segments are parallel exactly when their directions are.",
     ["inputs"], PQ, PW, ["src/properties/distance.rs", "src/properties/midpoint.rs", "src/properties/dot.rs", "src/properties/angle.rs", "src/properties/parallel.rs", "src/elements/edge.rs"],
     [("vector measures", "src/properties/")], "exact-arithmetic oracle over randomised inputs", PE)

GQ = "pairs of simple counterclockwise polylines of 3 to about 30 vertices: general ones, grid polygons that share edges and vertices, vertices of one on edges of the other, common chains of edges; any hash iteration order"
GW = "the unit tests evaluate a few fixed pairs of squares and compare vertices"
GF = ["src/elements/polyline.rs", "src/properties/intersection.rs", "src/elements/bounding_box.rs"]
GX = "Results that touch themselves at a vertex are left out, since a simple polyline can't represent them. "
prop("G01", "The intersection of two polylines is what lies in both",
     "For all pairs of simple counterclockwise polylines, intersection() answers counterclockwise polylines, simple unless the common region is pinched at a vertex, that together run exactly once around every part of it. Each piece of either input is part of a result or among the unused segments.",
     ["inputs", "schedules"], GQ, GW, GF, [("Polyline::intersection", "src/elements/polyline.rs"), ("split_intersections", "src/elements/polyline.rs")],
     "area and point-membership monitor over randomised pairs", PE + GX)
prop("G02", "The union of two polylines is the outer boundary of both",
     "For all pairs of simple counterclockwise polylines that overlap or share part of an edge, union() answers one counterclockwise polyline, simple unless the united region is pinched at a vertex, around exactly that region and the pockets it encloses. For polylines that are apart it answers None.",
     ["inputs", "schedules"], GQ, GW, GF, [("Polyline::union", "src/elements/polyline.rs"), ("split_intersections", "src/elements/polyline.rs")],
     "area and point-membership monitor over randomised pairs", PE + GX)
prop("G03", "Subtracting a polyline leaves what lies in the first only",
     "For all pairs of simple counterclockwise polylines, subtraction(p1, p2) answers counterclockwise polylines, simple unless the region of p1 outside p2 is pinched at a vertex, that together run exactly once around every part of it. It answers an empty list where nothing remains, and may also do so where the two are apart; it does so where p2 lies strictly inside p1.",
     ["inputs", "schedules"], GQ, GW, GF, [("Polyline::subtraction", "src/elements/polyline.rs"), ("split_intersections", "src/elements/polyline.rs")],
     "area and point-membership monitor over randomised pairs", PE + GX)
prop("G04", "The continence of one polyline in another is told right",
     "For every simple closed p1 and every simple p2, closed or opened, continence(p1, p2) answers Inside, Outside or Boundary exactly if p2 runs nowhere on the other side of p1, along with whether the two touch, and None if p2 crosses p1. intersection_vertices answers vertices that lie on both, one at least for each crossing, and none exactly if the two don't meet.",
     ["inputs", "schedules"], GQ + "; opened chains of vertices of a polygon as p2", GW, GF + ["src/elements/edge.rs"],
     [("Polyline::continence, intersection_vertices", "src/elements/polyline.rs")], "exact location monitor over randomised pairs", PE)

CF = ["src/main.rs", "src/json_serializar/io.rs", "src/json_serializar/models/input.rs", "src/json_serializar/models/action.rs", "src/json_serializar/models/output.rs", "src/json_serializar/models/tesselations.rs", "src/json_serializar/models/point.rs", "src/triangulator_interface/mod.rs", "src/triangulator_interface/domain_evaluator.rs", "src/triangulator_interface/interpreter/mod.rs", "src/triangulator_interface/interpreter/polyline_parser.rs", "src/triangulator_interface/interpreter/circle_parser.rs", "src/triangulator_interface/interpreter/segments_parser.rs", "src/triangulator_interface/interpreter/vertices_parser.rs", "src/triangulator_interface/interpreter/refine_params_parser.rs"]
CM = [("nlsn-delaunay", "src/main.rs"), ("triangulator_interface::parse", "src/triangulator_interface/mod.rs"), ("TriangulationOutput::from_triangulator", "src/json_serializar/models/output.rs")]
CQ = "input files with polylines of either turn, circles with and without a resolution, segments by pairs or by indices, vertices, in any order and grouping, ids and dates given or not, numbers in any JSON notation; any hash iteration order"
CW = "the program has no tests of whole runs: the few tests of its parsers read fixed actions"
CT = "black-box output monitor over randomised input files, run under a replayable hash order with CPU and memory limits"
CE = "Holds on the executions counted in the evidence file. "
prop("C01", "The program writes a readable, valid mesh",
     "For every valid input file the program exits with 0 and writes one JSON document, to the named file or to the standard output, with the id, name and date of the input, coordinates that each occur once and in some triangle (z is 0), and triangles that index them. The triangles are counterclockwise, share whole edges, don't overlap, and are constrained Delaunay.",
     ["inputs", "schedules"], CQ, CW, CF, CM, CT, CE)
prop("C02", "The program meshes the includes minus the removals",
     "For every composition of including and removing polylines and circles that leaves one connected domain, the triangles cover exactly the union of the includes minus the removals, whatever the order of the includes. If the includes are apart, or a removal divides the domain or leaves nothing of it, the program fails.",
     ["inputs", "schedules"], "compositions of one to four includes and none to three removals: grid polygons with common edges and vertices, circles, general polygons, bars that frame pockets; the example files of the repository", CW, CF + ["src/elements/polyline.rs"], CM + [("domain_evaluator::boundary, holes", "src/triangulator_interface/domain_evaluator.rs")],
     "black-box output monitor: area and point membership against an exact slab decomposition of the composition", CE + "Compositions whose result touches itself at a vertex, or depends on the order of the removals, are left out. ")
prop("C03", "The program refuses invalid input and writes nothing",
     "For every input file that is unreadable, malformed, incomplete, of the wrong type, or that describes no valid domain, constraints outside it or an area bound that is not positive, the program exits with a failure other than by a signal, prints no mesh and leaves an existing output file as it was. It also fails if the output can't be written.",
     ["inputs", "schedules", "fault_sequences"], "valid input files made invalid in one of 36 ways", CW, CF, CM, "black-box fault-injection monitor of exit code, standard output and output file", CE)
prop("C04", "The program's mesh covers the described domain with its constraints",
     "For every valid input file the triangles cover exactly the domain within the boundary and outside of the holes, circles being regular polygons of the given resolution (100 by default) that begin at angle 0. All given vertices are coordinates of the mesh, and all given segments are unions of its edges.",
     ["inputs", "schedules"], CQ, CW, CF, CM, CT, CE)
prop("C05", "The program's mesh meets the requested bounds",
     "For every valid input file no triangle is larger than max_area, if that is given, and where no two constraints meet at less than 60 degrees no triangle has a ratio of circumradius to shortest edge above the quality, for qualities from the square root of 2.",
     ["inputs", "schedules"], CQ, CW, CF, CM, CT, CE)

EQ = "sets of 1 to 60 elements with coordinates on a grid, scaled by powers of two from 2^-30 to 2^30 and shifted by up to 10^6 cells; any hash iteration order"
EW = "the unit tests of these elements check one or two fixed sets, each under whatever hash order happened to be drawn"
EM = "model-based monitor with an integer model over randomised sets and hash orders"
EN = "Holds on the executions counted in the evidence file; coordinates of the models are integers in a scaled and shifted grid. "
prop("E01", "Edges are joined and decomposed along their line without loss",
     "For every set of edges, Edge::arrange answers edges that cover the same points of the same directed lines, each a chain of given edges, no two of which could still be joined. Edge::decompose splits a segment exactly if a chain of given edges runs along it from end to end, and answers that chain in order, provided that no two edges of one direction overlap.",
     ["inputs", "schedules"], EQ, EW, ["src/elements/edge.rs", "src/elements/vertex.rs"], [("Edge::arrange, decompose", "src/elements/edge.rs")], EM, EN)
prop("E02", "Edges are arranged into a closed polyline exactly if they form one",
     "For every set of directed edges, Polyline::arrange answers the closed polyline that runs along all of them if they form a single cycle, and None otherwise, without failing or looping. triangles_hull does the same for the outer edges of every set of triangles.",
     ["inputs", "schedules"], EQ + "; single cycles, several ones, ones that share a vertex, chains, cycles with tails; patches of triangles", EW,
     ["src/elements/polyline.rs"], [("Polyline::arrange, triangles_hull", "src/elements/polyline.rs")], EM, EN)
prop("E03", "Elements are identified by their coordinates alone",
     "For all vertices, edges and triangles, equality, hash and order depend on coordinates (and orientation) alone: rotations of a triangle are equal and hash equally, mirrored ones and opposite edges differ, and ghosts equal ghosts only. Edges, opposite edges and vertices of triangles, chains of edges from vertices, ends of polylines and bounding boxes with their unions, intersections and contents agree with the model.",
     ["inputs", "schedules"], EQ, EW, ["src/elements/vertex.rs", "src/elements/edge.rs", "src/elements/triangle.rs", "src/elements/polyline.rs", "src/elements/bounding_box.rs"],
     [("PartialEq, Hash and Ord of the elements", "src/elements/"), ("BoundingBox", "src/elements/bounding_box.rs")], EM, EN)
prop("E04", "Removing colinear vertices keeps the shape of a polyline",
     "For every simple closed polyline and every opened chain, minified_noncolinear answers a polyline of the same kind that has, in the same order, exactly the vertices at which it turns, and the ends of an opened one. The polyline it is asked of stays as it was.",
     ["inputs"], EQ, EW, ["src/elements/polyline.rs"], [("Polyline::minified_noncolinear", "src/elements/polyline.rs")], EM, EN)
prop("B01", "The triangulation's bookkeeping follows every history",
     "For every sequence of include_triangle and remove_triangle, with solid and ghost triangles in any rotation, that gives no edge to two triangles, each call answers whether it changed anything. After each one the set of triangles, the adjacency, the vertices and the edges are exactly those of the triangles that were included and not removed since.",
     ["histories", "schedules"], "sequences of 5 to 60 calls over the triangles of a grid, each cell divided either way, and their ghosts", "the unit tests include or remove one or two triangles",
     [PL + "triangulation.rs", "src/elements/triangle.rs"], [("Triangulation::include_triangle, remove_triangle", PL + "triangulation.rs")], "model-based monitor over randomised histories", EN)

DQ = "3 to 40 vertices (grids, dyadic, floating, cocircular, mostly colinear, clusters down to 2^-16), scaled by 2^-20 to 2^20 and shifted; given in batches in any order, also repeatedly; any hash iteration order"
DN = "Holds on the executions counted in the evidence file; states with a vertex nearly (but not exactly) on the hull are not judged. "
prop("D01", "Vertices included in batches keep the triangulation Delaunay",
     "For every sequence of vertices::include without a boundary, of which the first batch spans the plane, the triangulation after each batch covers exactly the convex hull of all vertices so far, is valid and Delaunay, and has exactly those vertices, also if some are given again. The triangles reported as included and removed account for every change.",
     ["inputs", "histories", "schedules"], DQ, SIX, [TP + "vertices.rs", PL + "triangulation.rs"], [("vertices::include, solve_conflicts", TP + "vertices.rs")],
     "mesh-invariant monitor with exact arithmetic after every step of randomised histories", DN)
prop("D02", "Segments included between batches stay in the triangulation",
     "For every sequence of vertices::include and segment::include that starts with the hull, of segments that meet at vertices only and of which later vertices keep clear, the triangulation after each step covers the hull, is valid and constrained Delaunay, and has each segment so far as a union of its edges.",
     ["inputs", "histories", "schedules"], DQ + "; up to 8 segments between them, also through vertices", SIX, [TP + "segment.rs", TP + "vertices.rs"], [("segment::include", TP + "segment.rs")],
     "mesh-invariant monitor with exact arithmetic after every step of randomised histories", DN)
prop("D03", "Splitting encroached segments keeps track of every subsegment",
     "For every triangulated valid domain, unencroach answers subsegments that are edges of the triangulation and, for each segment that was split, make it up from end to end exactly once. The triangulation stays valid, over the same domain and constrained Delaunay, the reported triangles account for every change, and where no two constraints meet at less than 60 degrees no subsegment is encroached afterwards.",
     ["inputs", "schedules"], DOM + "; features at least a thousandth of the size apart; any hash iteration order", "the unit tests split one or two fixed segments",
     [RP + "encroachment.rs"], [("encroachment::unencroach", RP + "encroachment.rs")], "mesh-invariant monitor with exact arithmetic over randomised executions", EXPL)
prop("D04", "Vertices included into a triangulated domain go where they belong",
     "For every triangulated valid domain and every batch of vertices given to vertices::include with its boundary, holes and constraints, the vertices strictly inside of the domain become vertices of the mesh, and the ones outside or in a hole change nothing. The mesh stays valid, over the same domain and constrained Delaunay, keeps its constraints, and the reported triangles account for every change.",
     ["inputs", "schedules"], DOM + "; 1 to 12 further vertices inside, outside, in holes and repeated ones; any hash iteration order", "the unit tests include vertices into one or two fixed triangulations",
     [TP + "vertices.rs"], [("vertices::include, may_insert_triangle", TP + "vertices.rs")], "mesh-invariant monitor with exact arithmetic over randomised executions", EXPL)
prop("D05", "Conflicts are distributed to the triangles that contain the vertices",
     "For every triangulated valid domain, distribute_conflicts_over_triangulation gives each vertex strictly inside of it to exactly one solid triangle that contains it, and leaves the ones outside or in a hole undistributed. solve_conflicts then includes exactly the distributed vertices, leaving a valid mesh of the same domain that is constrained Delaunay.",
     ["inputs", "schedules"], DOM + "; 1 to 12 further vertices inside, outside and in holes; from any or a given triangle; any hash iteration order", "the unit tests distribute vertices over one fixed triangulation",
     [TP + "vertices.rs"], [("vertices::distribute_conflicts_over_triangulation, solve_conflicts", TP + "vertices.rs")], "mesh-invariant monitor with exact arithmetic over randomised executions", EXPL)
prop("D06", "A single segment is split until none of the given vertices encroaches",
     "For every triangulated valid domain, distribute_encroachments tells for each segment exactly the vertices within its diametral circle. For every segment and set of vertices, unencroach_segment answers subsegments that are edges of the mesh, make the segment up from end to end, and are encroached by none of these vertices, with a valid mesh of the same domain that is constrained Delaunay.",
     ["inputs", "schedules"], DOM + "; vertices of the mesh farther from the segment than a hundredth of its length; any hash iteration order", "the unit tests split one fixed segment",
     [RP + "encroachment.rs"], [("encroachment::distribute_encroachments, unencroach_segment", RP + "encroachment.rs")], "mesh-invariant monitor with exact arithmetic over randomised executions", EXPL)
