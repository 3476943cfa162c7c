#!/usr/bin/env python3
"""The table of properties: writes properties.jsonl and MANIFEST.json, so that both stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = "src/planar/"
TP = PL + "triangulation_procedures/"
RP = PL + "refine_procedures/"
P = []
DOM = ("a valid input is a simple counterclockwise boundary, pairwise disjoint simple counterclockwise holes strictly inside it, "
       "and segments and vertices strictly inside the domain; segments may share end vertices, cross, touch, repeat, or lie over one another")

def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], technique=technique, note=note))

EXPL = "Holds on the executions counted in the evidence file (generated inputs x hash orders x insertion orders); assumes the exact-arithmetic oracle in harness/src/exact.rs and mesh.rs. "
SIX = "the unit tests triangulate a handful of fixed small inputs, each under whatever hash order happened to be drawn"
TRI = [PL + "triangulator.rs", PL + "triangulation.rs", TP + "vertices.rs", TP + "segment.rs", TP + "boundary.rs", TP + "hole.rs"]
MT = [("Triangulator::triangulate", PL + "triangulator.rs"), ("inclusion procedures", TP)]

prop("T01", "Triangulating yields a valid mesh",
     "For every valid input (simple counterclockwise boundary, disjoint simple counterclockwise holes strictly inside it, segments and vertices strictly inside the domain), the triangles after triangulate() are counterclockwise with non-zero area and each directed edge belongs to exactly one of them. The adjacency map refers, for each directed edge, to exactly the triangle (or outer ghost triangle) that has it, and the counts of vertices, edges and triangles satisfy Euler's formula for the number of holes.",
     ["inputs", "schedules"], DOM + "; any hash iteration order and any order of insertion", SIX,
     TRI, MT, "mesh-invariant monitor with exact arithmetic over randomised executions", EXPL)
prop("T02", "Triangles cover exactly the domain",
     "For every valid input, the triangles after triangulate() cover exactly the region inside the boundary and outside the holes: the edges with a triangle on one side only are exactly the boundary and hole edges, and the areas add up to the area of the domain.",
     ["inputs", "schedules"], DOM + "; any hash iteration order and any order of insertion", SIX,
     TRI, MT + [("removal of the triangles outside", TP + "boundary.rs"), ("removal of the triangles in holes", TP + "hole.rs")],
     "hull-edge and area monitor with exact arithmetic over randomised executions", EXPL)
prop("T03", "The vertices of the triangulation are the vertices of the input",
     "For every valid input, the vertices of the triangulation are exactly the vertices of the boundary, the holes, the segments and the vertex constraints, plus one vertex at every point where two segments cross. No input vertex is lost or moved, and no other vertex appears.",
     ["inputs", "schedules"], DOM + "; any hash iteration order and any order of insertion", SIX,
     TRI, MT + [("insert_vertices, insert_segments", PL + "triangulator.rs")], "vertex conservation monitor over randomised executions", EXPL)
prop("T04", "Every constraint is an edge of the triangulation",
     "For every valid input, each edge of the boundary and of the holes and each inserted segment appears in the triangulation as an edge, or as the chain of edges into which the vertices that lie on it and the segments that cross it split it.",
     ["inputs", "schedules"], DOM + "; any hash iteration order and any order of insertion", SIX,
     TRI, MT + [("segment::include", TP + "segment.rs")], "constraint-chain monitor over randomised executions", EXPL)
prop("T05", "The triangulation is constrained Delaunay",
     "For every valid input, after triangulate() every edge shared by two triangles is either (part of) a constraint, or the vertex across it is not strictly inside the circumcircle of the triangle, up to floating-point rounding. Consequently, without constraints inside a convex boundary, no vertex is inside the circumcircle of any triangle.",
     ["inputs", "schedules"], DOM + "; any hash iteration order and any order of insertion", SIX,
     TRI + ["src/properties/continence.rs"], MT + [("Triangle::encircles", "src/elements/triangle.rs")],
     "exact in-circle monitor over every inner edge of randomised executions", EXPL)
prop("T06", "Triangulating any valid input terminates without panicking",
     "For every valid input, the insertions accept the input, and triangulate() returns without panicking and within an amount of work bounded by a small polynomial of the input size.",
     ["inputs", "schedules"], DOM + "; any hash iteration order and any order of insertion", SIX,
     TRI, MT, "bounded-progress monitor (allocation budget) and panic monitor over randomised executions",
     EXPL + "Termination is judged as a work budget of logical steps (heap allocations) at least 20 times above what was ever observed.")
prop("T07", "Each inclusion step leaves a valid constrained Delaunay mesh",
     "Including the boundary, then each hole, then each segment, then each vertex one by one leaves after every single step a valid mesh of the domain so far: it covers that domain, has its vertices and constraints and is constrained Delaunay. Each vertex inclusion reports as included and as removed a set that accounts for every triangle that came and went.",
     ["inputs", "schedules", "histories"], DOM + "; any order of holes, segments and vertices, and any hash iteration order",
     "the unit tests of the procedures include one or two elements into fixed small meshes", TRI,
     [("boundary::include", TP + "boundary.rs"), ("hole::include", TP + "hole.rs"), ("segment::include", TP + "segment.rs"), ("vertices::include", TP + "vertices.rs")],
     "step-by-step mesh-invariant monitor over randomised histories", EXPL)
prop("H01", "The mesh does not depend on hash order, insertion order or rotation",
     "Triangulating the same valid input again, in another process, with the constraints inserted in another order or grouping, with segments reversed, or with another start vertex of the rings, always gives a valid constrained Delaunay triangulation of the same domain. Where no four vertices are cocircular the triangles are identical.",
     ["inputs", "schedules", "histories"], DOM + "; any pair of hash iteration orders and orders of insertion",
     "hash iteration order is redrawn in every process, so a test run samples one order of one input", TRI,
     MT, "differential monitor over hash orders (interposed getrandom) and insertion orders", EXPL)
prop("H02", "Triangulating and refining repeatedly stays consistent",
     "In any sequence of triangulate() and refine() calls on one triangulator, starting with triangulate(), the mesh after each call is a valid mesh of the domain with all constraints; triangulating again discards the refinement and gives the triangulation of the input again. A refinement never loses a vertex, satisfies its own area bound, and finds nothing to do when repeated with the same parameters.",
     ["histories", "inputs", "schedules"], DOM + "; sequences of up to five calls with varying parameters (repetition is claimed for quality bounds of at least 1.4143 where constraints meet at angles of at least 60 degrees)",
     "the unit tests call triangulate and refine once each", [PL + "triangulator.rs", RP + "encroachment.rs", RP + "triangle_split.rs"],
     [("Triangulator::refine", PL + "triangulator.rs"), ("Triangulator::triangulate", PL + "triangulator.rs")], "history monitor over randomised call sequences", EXPL)
prop("H03", "Scaling, moving or turning the input does the same to the mesh",
     "Scaling a valid input by a power of two, turning it by a quarter turn, or translating it so that all coordinates stay exact gives a valid constrained Delaunay triangulation of the transformed domain. Where no four vertices are cocircular it consists of the transformed triangles of the original mesh.",
     ["inputs", "schedules"], DOM + "; scales from 2^-30 to 2^30 and exact translations of up to 10^5 times the size",
     "the unit tests use coordinates between 0 and 10", TRI + ["src/properties/orientation.rs", "src/properties/continence.rs", "src/properties/encroachment.rs", "src/elements/vertex.rs"],
     MT + [("geometric predicates", "src/properties/")], "metamorphic monitor over randomised executions", EXPL)

RF = [PL + "triangulator.rs", RP + "encroachment.rs", RP + "triangle_split.rs", TP + "vertices.rs"]
MR = [("Triangulator::refine", PL + "triangulator.rs"), ("unencroach", RP + "encroachment.rs"), ("split_irregular", RP + "triangle_split.rs")]
RQ = DOM + "; quality bounds from 1.2 to 10, area bounds down to 1/500 of the domain or none; any hash iteration order"
RW = "the unit tests refine a few fixed inputs and compare some counts"
prop("R01", "Refining keeps a valid mesh that covers exactly the domain",
     "For every valid input and all refinement parameters, after refine() the triangles are counterclockwise, non-degenerate, consistently connected with the adjacency map, and cover exactly the region inside the boundary and outside the holes.",
     ["inputs", "schedules", "configurations"], RQ, RW, RF, MR, "mesh-invariant and coverage monitor with exact arithmetic over randomised refinements", EXPL)
prop("R03", "Refining keeps all input vertices and adds vertices only in the domain",
     "For every valid input and all refinement parameters, refine() keeps every vertex of the input unmoved, and every vertex that it adds lies strictly inside the domain or on one of the constraints.",
     ["inputs", "schedules", "configurations"], RQ, RW, RF, MR, "vertex conservation monitor over randomised refinements", EXPL)
prop("R04", "Refining keeps every constraint",
     "For every valid input and all refinement parameters, after refine() each boundary edge, hole edge and segment is still an edge of the mesh or a chain of edges along it, split only at vertices that lie on it.",
     ["inputs", "schedules", "configurations"], RQ, RW, RF, MR, "constraint-chain monitor over randomised refinements", EXPL)
prop("R05", "The refined mesh is constrained Delaunay",
     "For every valid input and all refinement parameters, after refine() no vertex across an unconstrained edge is strictly inside the circumcircle of the triangle on the other side of that edge, up to floating-point rounding.",
     ["inputs", "schedules", "configurations"], RQ, RW, RF, MR, "exact in-circle monitor over every inner edge of randomised refinements", EXPL)
prop("R06", "Refining achieves the requested triangle quality",
     "For every valid input whose constraints meet at angles of at least 60 degrees and every quality bound of at least sqrt(2), after refine() every triangle has a ratio of circumradius to shortest edge of at most the bound.",
     ["inputs", "schedules", "configurations"], DOM + " at angles of at least 60 degrees; quality bounds from 1.4143 to 10; with and without area bound; any hash iteration order",
     RW, RF, MR + [("Triangle::quality", "src/elements/triangle.rs")], "shape monitor over every triangle of randomised refinements", EXPL)
prop("R07", "Refining achieves the requested maximum area",
     "For every valid input and every positive maximum area, after refine() no triangle has an area above the maximum, whatever the quality bound.",
     ["inputs", "schedules", "configurations"], RQ, RW, RF, MR + [("Triangle::area", "src/elements/triangle.rs")], "area monitor over every triangle of randomised refinements", EXPL)
prop("R08", "Refining any valid input terminates without panicking",
     "For every valid input, including constraints that meet at small angles, and all refinement parameters, refine() returns without panicking within a bounded amount of work.",
     ["inputs", "schedules", "configurations"], RQ, RW, RF, MR, "bounded-progress monitor (allocation budget) and panic monitor over randomised refinements",
     EXPL + "Termination is judged as a work budget of logical steps (heap allocations) 15 times above what was ever observed.")
prop("R09", "After refining no constraint is encroached",
     "For every valid input whose constraints meet at angles of at least 60 degrees, after refine() no edge that is part of a constraint has the opposite vertex of an adjacent triangle strictly inside its diametral circle.",
     ["inputs", "schedules", "configurations"], DOM + " at angles of at least 60 degrees; quality bounds from 1.2 to 10; any hash iteration order", RW, RF, MR,
     "diametral-circle monitor over every subsegment of randomised refinements", EXPL)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
na = {x["property"] for x in NA}
M = {"version": 1, "setup_cmd": "bash check.sh --setup",
     "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s --tier quick" % p["id"],
                 "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"].strip()} for p in P if p["id"] not in na],
     "not_applicable": NA,
     "notes": "No hooks: every monitor observes the public API, the public state of the triangulator, or the command line program. Repairs of genuine defects are the fix: commits in /repo, listed in KNOWN_FINDINGS.txt."}
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
