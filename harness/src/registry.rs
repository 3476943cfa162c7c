//! Which stages decide which property, and with how many cases per tier.
use crate::ctx::*;
use crate::props_bool as boo;
use crate::props_cli as cl;
use crate::props_elem as el;
use crate::props_inc as inc;
use crate::props_ins as ins;
use crate::props_pred as pred;
use crate::props_tri as tri;

pub const IDS: &[&str] = &["T01", "T02", "T03", "T04", "T05", "T06", "T07", "I01", "I02", "I03", "P01", "P02", "P03", "P04", "P05", "P06", "G01", "G02", "G03", "G04", "C01", "C02", "C03", "C04", "C05", "E01", "E02", "E03", "E04", "B01", "D01", "D02", "D03", "D04", "D05", "D06", "H01", "H02", "H03", "R01", "R03", "R04", "R05", "R06", "R07", "R08", "R09"];

/// runs all stages of the property; answers the rule of the evidence file
pub fn run(cfg: &Cfg, log: &mut Log) -> Option<&'static str> {
    let id = cfg.id.as_str();
    let n = |q: u64, t: u64| if cfg.quick() { q } else { t };
    Some(match id {
        "T01" | "T02" | "T03" | "T04" | "T05" | "T06" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| tri::triangulate(id, i, r, l));
            "random domains (8 boundary shapes, holes, segments that share, cross or touch, vertices on and beside segments, cocircular and colinear grids, scaled and translated) triangulated under a random hash order and insertion order; non-trivial: more than two triangles; distinct by coordinates"
        }
        "T07" => {
            drive(cfg, log, "random", n(30_000, 800_000), |i, r, l| tri::stepwise(id, i, r, l));
            "random domains included step by step through the public procedures, with the mesh judged after every step; non-trivial: more than two steps; distinct by coordinates"
        }
        "H01" => {
            drive(cfg, log, "random", n(10_000, 300_000), |i, r, l| tri::orders(id, i, r, l));
            "each random domain triangulated under six hash orders x insertion orders x ring rotations; non-trivial: more than two triangles; distinct by coordinates"
        }
        "H02" => {
            drive(cfg, log, "random", n(10_000, 300_000), |i, r, l| tri::histories(id, i, r, l));
            "random domains triangulated repeatedly with insertions in between; non-trivial: more than two triangles; distinct by coordinates"
        }
        "H03" => {
            drive(cfg, log, "random", n(10_000, 300_000), |i, r, l| tri::similarity(id, i, r, l));
            "each random domain against its power-of-two scalings, translations and mirrorings; non-trivial: more than two triangles; distinct by coordinates"
        }
        "I01" | "I02" | "I03" => {
            drive(cfg, log, "random", n(40_000, 1_000_000), |i, r, l| ins::insertions(id, i, r, l));
            "random histories of insertions of vertices, segments and holes, valid ones and ones that touch, cross or enclose, compared step by step with an exact model; non-trivial: more than one operation; distinct by boundary and hash order"
        }
        "P01" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| pred::predicates(id, i, r, l));
            "batches of 64 random quadruples: coarse integer grids (mostly degenerate), dyadic, floating, and degenerate ones moved by 1 to 2^40 ulps, scaled by 2^-40..2^40 and translated; every configuration counts; distinct by coordinates"
        }
        "P02" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| pred::point_in_polygon(id, i, r, l));
            "batches of 64 points (vertices, edge midpoints, level with vertices, 2^-3..2^-45 beside edges, random) against a random simple polygon of either turn; distinct by coordinates"
        }
        "P03" | "P04" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| pred::measures(id, i, r, l));
            "batches of 64 random triples, and a random polygon, scaled and translated; non-trivial: no two vertices coincide; distinct by coordinates"
        }
        "P05" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| pred::intersections(id, i, r, l));
            "batches of 64 random segment pairs: crossing, touching, sharing ends, colinear, parallel, axis-parallel, apart; distinct by coordinates"
        }
        "P06" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| pred::vectors(id, i, r, l));
            "batches of 64 random quadruples with parallel and colinear ones; distinct by coordinates"
        }
        "G01" | "G02" | "G03" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| boo::booleans(id, i, r, l));
            "random pairs of simple polygons: general position, shared edges and touching vertices on grids, common chains, one inside of the other, apart; non-trivial: they overlap or touch; distinct by coordinates"
        }
        "G04" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| boo::continence(id, i, r, l));
            "random pairs of a simple polygon and a closed or opened polyline: crossing, touching, inside, outside; distinct by coordinates"
        }
        "C01" | "C04" | "C05" => {
            drive(cfg, log, "random", n(6_000, 150_000), |i, r, l| cl::mesh(cfg, id, i, r, l));
            "random domains written as input files (polygons of either turn, circles, segments by pairs or by indices, actions in any order, ids and dates given or not) run through the program under random hash orders; non-trivial: more than two triangles; distinct by coordinates"
        }
        "C02" => {
            drive(cfg, log, "random", n(6_000, 150_000), |_, r, l| cl::compose(cfg, r, l));
            drive(cfg, log, "frames", n(20, 400), |_, r, l| cl::frame(cfg, r, l));
            drive(cfg, log, "examples", n(60, 1_000), |i, r, l| cl::examples(cfg, i, r, l));
            "random compositions of up to four includes and three removals: grid polygons with common edges, circles, general polygons; and the examples of the repository; distinct by coordinates"
        }
        "C03" => {
            drive(cfg, log, "random", n(8_000, 200_000), |i, r, l| cl::invalid(cfg, i, r, l));
            "valid inputs made invalid in one of 34 ways; distinct by domain and way"
        }
        "E01" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| el::edges(id, i, r, l));
            "random sets of directed edges along up to four lines of a grid, with gaps, both directions, and a third of them with edges over one another; distinct by coordinates"
        }
        "E02" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| el::cycles(id, i, r, l));
            "random sets of directed edges: a cycle, two of them, apart or joined at a vertex, with tails, opened, reversed; and random subsets of triangulated grids, scattered or connected; distinct by coordinates"
        }
        "E03" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| el::identity(id, i, r, l));
            "random lists of 3 to 12 grid points with repetitions, scaled and shifted; some hundred facts each; distinct by coordinates"
        }
        "E04" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| el::minified(id, i, r, l));
            "random simple polygons of either turn on grids with vertices inserted on their edges, and chains of their vertices; distinct by coordinates"
        }
        "B01" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| el::bookkeeping(id, i, r, l));
            "random histories of up to 60 inclusions and removals of solid and ghost triangles, repeated and absent ones, each given from any vertex on; distinct by operations"
        }
        "D01" | "D02" => {
            drive(cfg, log, "random", n(60_000, 2_000_000), |i, r, l| inc::hulls(id, i, r, l));
            "random vertices (grids, cocircular, mostly colinear, clustered, dyadic, floating; scaled and shifted) included batch by batch, for D02 with segments in between, under random hash orders, with the mesh of the convex hull judged after each step; distinct by coordinates"
        }
        "D03" => {
            drive(cfg, log, "random", n(30_000, 1_000_000), |i, r, l| inc::unencroached(id, i, r, l));
            "random triangulated domains without crossing segments; distinct by coordinates"
        }
        "D04" | "D05" => {
            drive(cfg, log, "random", n(30_000, 1_000_000), |i, r, l| inc::contained(id, i, r, l));
            "random triangulated domains without crossing segments, and vertices strictly inside of them, outside, in holes, and (D04) repeated ones; distinct by coordinates"
        }
        "D06" => {
            drive(cfg, log, "random", n(30_000, 1_000_000), |i, r, l| inc::one_segment(id, i, r, l));
            "random triangulated domains without crossing segments, one of their segments and some of their vertices; distinct by coordinates"
        }
        _ if id.starts_with('R') => {
            drive(cfg, log, "random", n(12_000, 400_000), |i, r, l| tri::refine(id, i, r, l));
            "random domains refined with random quality and area bounds under random hash orders; non-trivial: more than two triangles; distinct by coordinates"
        }
        _ => return None,
    })
}
