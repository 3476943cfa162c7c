//! D01..D03: the public procedures on their own, without a domain around: incremental insertion of
//! vertices and segments over the convex hull, and the splitting of encroached segments.
use crate::ctx::*;
use crate::domain::*;
use crate::exact::*;
use crate::gen::*;
use crate::mesh::*;
use crate::props_tri::*;
use crate::rng::Rng;
use nlsn_delaunay::planar::refine_procedures as ref_;
use nlsn_delaunay::planar::triangulation_procedures as proc_;
use nlsn_delaunay::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

type Seg = (P, P);
fn points(r: &mut Rng) -> (Vec<P>, &'static str) {
    let n = *r.pick(&[3, 4, 5, 8, 12, 20, 40]);
    let (c, class) = *r.pick(&[(Coord::Int, "grid"), (Coord::Dyadic, "dyadic"), (Coord::Float, "floating")]);
    let lim = *r.pick(&[1.0, 2.0, 4.0]);
    let mut v: Vec<P> = (0..n).map(|_| point(r, c, lim)).collect();
    let mut class = class;
    match r.below(8) {
        0 => {
            class = "cocircular";
            v = vec![];
            for (a, b) in [(3, 4), (5, 0), (4, 3), (0, 5)] {
                for s in 0..4 {
                    v.push(((if s & 1 == 0 { a } else { -a }) as f64, (if s & 2 == 0 { b } else { -b }) as f64));
                }
            }
            v.push((0., 0.));
            r.shuffle(&mut v);
            v.truncate(r.range(4, 17) as usize);
        }
        1 => {
            class = "mostly colinear";
            let d = *r.pick(&[(1., 0.), (0., 1.), (1., 1.), (2., -1.)]);
            let k = v.len() * 3 / 4;
            for q in v.iter_mut().take(k) {
                let t = r.range(-6, 6) as f64;
                *q = (t * d.0, t * d.1);
            }
        }
        2 => {
            class = "clusters";
            let k = v.len();
            for j in 0..k / 2 {
                let e = 2f64.powi(-(r.range(4, 16) as i32));
                v[k - 1 - j] = (v[j].0 + e * r.range(-2, 2) as f64, v[j].1 + e * r.range(-2, 2) as f64);
            }
        }
        3 => {
            class = "whole grid";
            let m = r.range(2, 6);
            v = (0..m * m).map(|i| ((i % m) as f64, (i / m) as f64)).collect();
            r.shuffle(&mut v);
        }
        _ => {}
    }
    let mut seen = BTreeSet::new();
    v.retain(|q| seen.insert(k(*q)));
    if r.chance(0.3) {
        let s = 2f64.powi(r.range(-20, 20) as i32);
        let m = if r.chance(0.5) { 0 } else { 1 << r.range(0, 16) };
        let o = (r.range(-m, m) as f64, r.range(-m, m) as f64);
        for q in v.iter_mut() {
            *q = ((q.0 + o.0) * s, (q.1 + o.1) * s);
        }
        let mut seen = BTreeSet::new();
        v.retain(|q| seen.insert(k(*q)));
    }
    (v, class)
}
#[derive(Clone, Debug)]
enum Step {
    Verts(Vec<P>),
    Seg(Seg),
}
/// the convex hull of the points as a domain, if they are not colinear
fn hull_domain(v: &[P], segs: &[Seg]) -> Option<Domain> {
    let h = convex_hull(v.to_vec());
    if h.len() < 3 {
        return None;
    }
    Some(Domain { class: "hull".into(), boundary: h, verts: v.to_vec(), segs: segs.to_vec(), ..Default::default() })
}
/// D01: vertices only; D02: with segments
pub fn hulls(id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let (pts, class) = points(r);
    if pts.len() < 3 {
        return;
    }
    let mut steps: Vec<Step> = vec![];
    let mut segs: Vec<Seg> = vec![];
    if id == "D02" {
        for _ in 0..r.range(1, 8) {
            let (a, b) = (*r.pick(&pts), *r.pick(&pts));
            let clash = |s: &Seg| {
                segments_touch(s.0, s.1, a, b)
                    && !([s.0, s.1].iter().any(|q| *q == a || *q == b)
                        && !on_segment_open(s.0, s.1, a)
                        && !on_segment_open(s.0, s.1, b)
                        && !on_segment_open(a, b, s.0)
                        && !on_segment_open(a, b, s.1)
                        && !((s.0 == a && s.1 == b) || (s.0 == b && s.1 == a)))
            };
            if a == b || segs.iter().any(clash) {
                continue;
            }
            // no point may be nearly on it
            if pts.iter().any(|q| *q != a && *q != b && orient(a, b, *q) != 0 && dist_point_segment(a, b, *q) < 1e-6 * dist(a, b)) {
                continue;
            }
            segs.push((a, b));
        }
    }
    // batches of vertices and segments, interleaved; the first batch spans the plane, as a state
    // with only colinear vertices keeps none but the first two
    let mut rest = pts[2..].to_vec();
    let apex = match rest.iter().position(|q| orient(pts[0], pts[1], *q) != 0) {
        Some(j) => rest.remove(j),
        None => return,
    };
    let n = r.range(0, rest.len() as i64) as usize;
    let mut b: Vec<P> = rest.drain(..n).collect();
    if id == "D02" {
        // a vertex beyond a segment on the hull has nowhere to go, and one over a segment would
        // leave it as the constraint that it was
        let hull = convex_hull(pts.clone());
        let (x, y): (Vec<P>, Vec<P>) = rest.into_iter().partition(|q| hull.contains(q) || segs.iter().any(|s| on_segment(s.0, s.1, *q)));
        b.extend(x);
        rest = y;
        r.shuffle(&mut b);
    }
    b.insert(r.range(0, b.len() as i64) as usize, apex);
    steps.push(Step::Verts(b));
    let mut left = segs.clone();
    while !rest.is_empty() || !left.is_empty() {
        if !left.is_empty() && (rest.is_empty() || r.chance(0.4)) {
            let s = left.remove(0);
            steps.push(Step::Seg(if r.chance(0.5) { s } else { (s.1, s.0) }));
        } else {
            let n = if r.chance(0.5) { rest.len() } else { r.range(1, rest.len() as i64) as usize };
            let mut b: Vec<P> = rest.drain(..n).collect();
            if r.chance(0.3) {
                // some are there already, or twice
                b.push(*r.pick(&pts));
                r.shuffle(&mut b);
            }
            steps.push(Step::Verts(b));
        }
    }
    let first = (pts[0], pts[1]);
    let hs = r.next();
    let input = format!("class={} first={:?} steps={:?} hash_seed={}", class, first, steps, hs);
    let s2 = steps.clone();
    let got = guarded(hs, 40_000_000, log, move || {
        let (a, b) = (v(first.0), v(first.1));
        let mut tr = Triangulation::from_initial_segment((&a, &b));
        let mut cons: HashSet<Rc<Edge>> = HashSet::new();
        let mut out: Vec<(Snap, Option<&'static str>)> = vec![];
        for s in s2.iter() {
            let mut e = None;
            match s {
                Step::Verts(b) => {
                    let before: HashSet<Rc<Triangle>> = tr.triangles.iter().cloned().collect();
                    let (inc, rem) = proc_::vertices::include(&mut tr, b.iter().map(|q| v(*q)).collect(), &cons, &None, &HashSet::new());
                    e = change(&before, &tr, &inc, &rem);
                }
                Step::Seg(s) => {
                    proc_::segment::include(&mut tr, &edge(s.0, s.1), &cons);
                    let vs: Vec<P> = tr.vertices().iter().map(|q| p(q)).collect();
                    for (a, b) in split_chain(s.0, s.1, &vs) {
                        cons.insert(edge(a, b));
                    }
                }
            }
            out.push((snap_triangulation(&tr), e));
        }
        out
    });
    let states = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, input),
        Got::Unknown => return,
    };
    log.count(&format!("points: {}", class), 1);
    let (mut vs, mut ss) = (vec![first.0, first.1], vec![]);
    for (j, (step, (s, e))) in steps.iter().zip(&states).enumerate() {
        match step {
            Step::Verts(b) => vs.extend(b.iter().cloned()),
            Step::Seg(s) => {
                vs.extend([s.0, s.1]);
                ss.push(*s);
            }
        }
        if let Some(e) = e {
            return log.violation("random", format!("after step {}: {}", j, e), input);
        }
        // a vertex nearly on the hull is not judged
        let h = convex_hull(vs.clone());
        if poly_edges(&h).any(|(a, b)| vs.iter().any(|q| orient(a, b, *q) != 0 && near_segment(a, b, *q))) {
            log.count("states not judged, with a vertex nearly on the hull", 1);
            continue;
        }
        let d = match hull_domain(&vs, &ss) {
            Some(d) => d,
            None => return log.violation("random", format!("after step {}: the harness lost the apex", j), input),
        };
        let w = judge(&d, s, false);
        log.count("states judged", 1);
        log.count("circumcircles tested", w.n_circles);
        log.count("cocircular quadruples met", w.n_cocircular);
        log.distinct_in("meshes", hash_mesh(s));
        if let Some(b) = pick("", &w).first() {
            return log.violation("random", format!("after step {}: {}", j, b), input);
        }
    }
    log.count("segments included", ss.len() as u64);
    log.nontrivial(pts.iter().fold(segs.len() as u64, |h, q| (h ^ q.0.to_bits()).wrapping_mul(0x100000001b3) ^ q.1.to_bits().rotate_left(23)));
    log.sample(|| input.clone());
}
fn on_segment_open(a: P, b: P, q: P) -> bool {
    q != a && q != b && on_segment(a, b, q)
}
/// the reported change of the triangulation must be the change
fn change(before: &HashSet<Rc<Triangle>>, tr: &Triangulation, inc: &HashSet<Rc<Triangle>>, rem: &HashSet<Rc<Triangle>>) -> Option<&'static str> {
    if tr.triangles.iter().any(|x| !before.contains(x) && !inc.contains(x)) {
        return Some("a new triangle is not reported as included");
    }
    if before.iter().any(|x| !tr.triangles.contains(x) && !rem.contains(x)) {
        return Some("a vanished triangle is not reported as removed");
    }
    if inc.iter().any(|x| !tr.triangles.contains(x) && !rem.contains(x)) {
        return Some("a reported triangle is neither there nor removed");
    }
    None
}

/// D03: encroached segments are split
pub fn unencroached(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = loop {
        let d = some_domain(r, Opts { overlaps: false, ..refine_opts(i) });
        let size = d.boundary.iter().map(|q| dist(*q, d.boundary[0])).fold(0.0, f64::max);
        if d.crossings().is_empty() && crate::props_cli::gap(&d) > 1e-3 * size {
            break d;
        }
    };
    let (plan, hs) = (Plan(r.next()), r.next());
    let d2 = d.clone();
    type Res = (Vec<(Seg, Seg)>, Snap, Option<&'static str>, usize);
    let got = guarded(hs, tri_budget(&d) * 10, log, move || -> Result<Res, String> {
        let mut t = build(&d2, plan)?;
        t.triangulate();
        let b = Some(Rc::clone(&t.boundary));
        // segments as the mesh has them
        let s = snap_of(&t);
        let vs: Vec<P> = s.tris.iter().flatten().cloned().collect::<Vec<P>>();
        let mut cons: HashSet<Rc<Edge>> = HashSet::new();
        for (a, b) in d2.ring_edges().into_iter().chain(d2.segs.iter().cloned()) {
            for (a, b) in split_chain(a, b, &vs) {
                cons.insert(edge(a, b));
            }
        }
        let mut tr = t.triangulation.borrow_mut();
        let before: HashSet<Rc<Triangle>> = tr.triangles.iter().cloned().collect();
        let (map, inc, rem) = ref_::encroachment::unencroach(&mut tr, &cons, &b, &t.holes);
        let e = change(&before, &tr, &inc, &rem);
        let f = |e: &Rc<Edge>| (p(&e.v1), p(&e.v2));
        let e = e.or(map.values().any(|s| !cons.contains(s)).then_some("a subsegment belongs to no segment"));
        Ok((map.iter().map(|(a, b)| (f(a), f(b))).collect(), snap_triangulation(&tr), e, cons.len()))
    });
    let input = || format!("{} plan={:?} hash_seed={}", d.text(), plan, hs);
    let (map, s, e, n) = match got {
        Got::Ok(Ok(x), _) => x,
        Got::Ok(Err(e), _) => return log.violation("random", format!("valid input refused: {}", e), input()),
        Got::Bad(e) => return log.violation("random", e, input()),
        Got::Unknown => return,
    };
    log.nontrivial(d.key());
    log.count("segments", n as u64);
    log.count("subsegments", map.len() as u64);
    if let Some(e) = e {
        return log.violation("random", e.to_string(), input());
    }
    let w = judge(&d, &s, true);
    if let Some(b) = pick("", &w).first() {
        return log.violation("random", b.clone(), input());
    }
    // subsegments make up their segments
    let mut of: BTreeMap<(K, K), Vec<Seg>> = BTreeMap::new();
    for (a, b) in &map {
        of.entry((k(b.0), k(b.1))).or_default().push(*a);
    }
    log.count("segments split", of.len() as u64);
    let edges: BTreeSet<(K, K)> = s.tris.iter().flat_map(|t| (0..3).map(move |j| (k(t[j]), k(t[(j + 1) % 3])))).collect();
    for (root, subs) in &of {
        let next: BTreeMap<K, K> = subs.iter().map(|s| (k(s.0), k(s.1))).collect();
        let (mut x, mut n) = (root.0, 0);
        while x != root.1 {
            match next.get(&x) {
                Some(y) if n < subs.len() => {
                    if !edges.contains(&(x, *y)) && !edges.contains(&(*y, x)) {
                        return log.violation("random", format!("subsegment {:?} {:?} is not an edge", unk(x), unk(*y)), input());
                    }
                    x = *y;
                    n += 1;
                }
                _ => return log.violation("random", format!("the subsegments {:?} don't make up {:?}", subs, (unk(root.0), unk(root.1))), input()),
            }
        }
        if n != subs.len() {
            return log.violation("random", format!("the subsegments {:?} are more than {:?}", subs, (unk(root.0), unk(root.1))), input());
        }
    }
    if d.min_angle() >= 60.0 {
        log.count("domains judged for encroachment", 1);
        let q = quality(&s, &w);
        if let Some(x) = q.encroached.first() {
            return log.violation("random", format!("subsegment {:?} is encroached by {:?}", x.0, x.1), input());
        }
    }
    log.sample(input);
}

/// a domain without crossings, and vertices for it: inside, outside or in holes (never nearly on
/// an edge), and ones that are there already
fn with_points(i: u64, r: &mut Rng) -> (Domain, Vec<P>, Vec<P>, Vec<P>) {
    let d = loop {
        let d = some_domain(r, Opts { transforms: true, overlaps: false, ..refine_opts(i) });
        if d.crossings().is_empty() {
            break d;
        }
    };
    let (mut lo, mut hi) = (d.boundary[0], d.boundary[0]);
    for q in &d.boundary {
        lo = (lo.0.min(q.0), lo.1.min(q.1));
        hi = (hi.0.max(q.0), hi.1.max(q.1));
    }
    let (w, h) = (hi.0 - lo.0, hi.1 - lo.1);
    let mut edges = d.ring_edges();
    edges.extend(d.segs.iter().cloned());
    let ends: Vec<P> = edges.iter().map(|e| e.0).collect();
    let (mut ins, mut out) = (vec![], vec![]);
    let mut seen: BTreeSet<K> = d.verts.iter().chain(edges.iter().flat_map(|e| [&e.0, &e.1])).map(|q| k(*q)).collect();
    for _ in 0..r.range(1, 14) {
        let q = match r.below(5) {
            // in line with an edge
            0 => {
                let e = *r.pick(&edges);
                let t = *r.pick(&[-1.0, -0.5, 1.5, 2.0, 3.0]);
                (e.0 .0 + t * (e.1 .0 - e.0 .0), e.0 .1 + t * (e.1 .1 - e.0 .1))
            }
            1 => {
                let (a, b) = (*r.pick(&ends), *r.pick(&ends));
                ((a.0 + b.0) / 2., (a.1 + b.1) / 2.)
            }
            2 => (lo.0 + w * r.range(-2, 10) as f64 / 8., lo.1 + h * r.range(-2, 10) as f64 / 8.),
            3 => (lo.0 + w * r.uniform(0.0, 1.0), lo.1 + h * r.uniform(0.0, 1.0)),
            _ => (lo.0 + w * r.uniform(-1.0, 2.0), lo.1 + h * r.uniform(-1.0, 2.0)),
        };
        if edges.iter().any(|e| dist_point_segment(e.0, e.1, q) < 1e-6 * w.max(h)) || d.verts.iter().chain(&ins).chain(&out).any(|p| dist(*p, q) < 1e-6 * w.max(h)) {
            continue;
        }
        if seen.insert(k(q)) {
            if d.inside(q) { ins.push(q) } else { out.push(q) }
        }
    }
    let mut again: Vec<P> = vec![];
    if r.chance(0.4) {
        again.push(*r.pick(&ends));
        again.extend(ins.iter().take(1));
    }
    (d, ins, out, again)
}
fn constraints(d: &Domain, s: &Snap) -> HashSet<Rc<Edge>> {
    let vs: Vec<P> = s.tris.iter().flatten().cloned().collect();
    let mut cons = HashSet::new();
    for (a, b) in d.ring_edges().into_iter().chain(d.segs.iter().cloned()) {
        for (a, b) in split_chain(a, b, &vs) {
            cons.insert(edge(a, b));
        }
    }
    cons
}
/// D04: vertices included into a triangulated domain, D05: by way of distributing them first
pub fn contained(id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let (d, ins, out, again) = with_points(i, r);
    let mut all: Vec<P> = ins.iter().chain(&out).cloned().collect();
    if id == "D04" {
        all.extend(&again);
    }
    r.shuffle(&mut all);
    let (plan, hs, start) = (Plan(r.next()), r.next(), r.below(3));
    let (d2, a2) = (d.clone(), all.clone());
    let direct = id == "D04";
    type Res = (Snap, Snap, Vec<([P; 3], Vec<P>)>, Vec<P>, Option<&'static str>);
    let got = guarded(hs, tri_budget(&d) * 4, log, move || -> Result<Res, String> {
        let mut t = build(&d2, plan)?;
        t.triangulate();
        let b = Some(Rc::clone(&t.boundary));
        let before = snap_of(&t);
        let cons = constraints(&d2, &before);
        let mut tr = t.triangulation.borrow_mut();
        let was: HashSet<Rc<Triangle>> = tr.triangles.iter().cloned().collect();
        let vs: Vec<Rc<Vertex>> = a2.iter().map(|q| v(*q)).collect();
        let (mut dist, mut rest) = (vec![], vec![]);
        let (inc, rem) = if direct {
            proc_::vertices::include(&mut tr, vs, &cons, &b, &t.holes)
        } else {
            let from = match start {
                0 => None,
                _ => tr.triangles.iter().find(|x| !x.is_ghost()).cloned(),
            };
            let mut vs = vs;
            let mut map = std::collections::HashMap::new();
            proc_::vertices::distribute_conflicts_over_triangulation(&mut tr, from, &mut map, &mut vs, &b, &t.holes);
            for (t, l) in map.iter() {
                if t.is_ghost() {
                    return Ok((before.clone(), before, vec![], vec![], Some("a vertex is given to a ghost")));
                }
                dist.push(([p(&t.v1), p(&t.v2), p(&t.v3)], l.iter().map(|q| p(q)).collect()));
            }
            rest = vs.iter().map(|q| p(q)).collect();
            proc_::vertices::solve_conflicts(&mut tr, &mut map, &mut vs, &cons, &b, &t.holes)
        };
        let e = change(&was, &tr, &inc, &rem);
        Ok((before, snap_triangulation(&tr), dist, rest, e))
    });
    let input = || format!("{} plan={:?} start={} vertices={:?} hash_seed={}", d.text(), plan, start, all, hs);
    let (before, after, dist, rest, e) = match got {
        Got::Ok(Ok(x), _) => x,
        Got::Ok(Err(e), _) => return log.violation("random", format!("valid input refused: {}", e), input()),
        Got::Bad(e) => return log.violation("random", e, input()),
        Got::Unknown => return,
    };
    log.nontrivial(d.key() ^ all.iter().fold(0u64, |h, q| (h ^ q.0.to_bits()).wrapping_mul(0x100000001b3) ^ q.1.to_bits()));
    log.count("vertices inside", ins.len() as u64);
    log.count("vertices outside", out.len() as u64);
    if let Some(e) = e {
        return log.violation("random", e.to_string(), input());
    }
    if !direct {
        let tris: BTreeSet<[K; 3]> = canon_set(&before);
        let mut given: Vec<K> = vec![];
        for (t, l) in &dist {
            if !tris.contains(&canon(t)) || l.is_empty() {
                return log.violation("random", format!("conflicts with {:?}, which is no triangle or has none", t), input());
            }
            for q in l {
                given.push(k(*q));
                if (0..3).any(|j| orient(t[j], t[(j + 1) % 3], *q) < 0 && !near_segment(t[j], t[(j + 1) % 3], *q)) {
                    return log.violation("random", format!("{:?} was given to {:?}, which is elsewhere", q, t), input());
                }
            }
        }
        log.count("vertices distributed", given.len() as u64);
        given.sort();
        let mut want: Vec<K> = ins.iter().map(|q| k(*q)).collect();
        want.sort();
        let mut left: Vec<K> = rest.iter().map(|q| k(*q)).collect();
        left.sort();
        let mut wl: Vec<K> = out.iter().map(|q| k(*q)).collect();
        wl.sort();
        if given != want || left != wl {
            return log.violation("random", format!("{} of {} vertices inside were distributed, {} of {} outside remain", given.len(), want.len(), left.len(), wl.len()), input());
        }
    }
    if ins.is_empty() && canon_set(&before) != canon_set(&after) {
        return log.violation("random", "vertices outside changed the triangles".into(), input());
    }
    let mut d2 = d.clone();
    d2.verts.extend(&ins);
    let w = judge(&d2, &after, false);
    log.count("circumcircles tested", w.n_circles);
    if let Some(b) = pick("", &w).first() {
        return log.violation("random", b.clone(), input());
    }
    log.sample(input);
}

/// D06: a single segment is split until given vertices don't encroach upon it
pub fn one_segment(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = loop {
        let d = some_domain(r, Opts { overlaps: false, ..refine_opts(i) });
        if d.crossings().is_empty() {
            break d;
        }
    };
    let (plan, hs, seed) = (Plan(r.next()), r.next(), r.next());
    let d2 = d.clone();
    type Res = (Seg, Vec<P>, Vec<Seg>, Vec<(Seg, Vec<P>)>, Vec<Seg>, Vec<P>, Snap, Option<&'static str>);
    let got = guarded(hs, tri_budget(&d) * 10, log, move || -> Result<Res, String> {
        let mut r = Rng::new(seed, 5);
        let mut t = build(&d2, plan)?;
        t.triangulate();
        let b = Some(Rc::clone(&t.boundary));
        let s = snap_of(&t);
        let cons = constraints(&d2, &s);
        let mut list: Vec<Seg> = cons.iter().map(|e| (p(&e.v1), p(&e.v2))).collect();
        list.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let vl: BTreeSet<K> = s.tris.iter().flatten().map(|q| k(*q)).collect();
        let vl: Vec<P> = vl.into_iter().map(unk).collect();
        let vset: HashSet<Rc<Vertex>> = vl.iter().map(|q| v(*q)).collect();
        let mut map = std::collections::HashMap::new();
        ref_::encroachment::distribute_encroachments(&cons, &vset, &mut map);
        let f = |e: &Rc<Edge>| (p(&e.v1), p(&e.v2));
        let dist: Vec<(Seg, Vec<P>)> = map.iter().map(|(e, l)| (f(e), l.iter().map(|q| p(q)).collect())).collect();
        // one segment, and some vertices that are not too near to it
        let seg = *r.pick(&list);
        let keep = r.chance(0.5);
        let vs: Vec<P> = vl.iter().cloned().filter(|q| *q != seg.0 && *q != seg.1 && dist_point_segment(seg.0, seg.1, *q) > 0.01 * crate::exact::dist(seg.0, seg.1) && (keep || r.chance(0.5))).collect();
        let mut enc: HashSet<Rc<Vertex>> = vs.iter().map(|q| v(*q)).collect();
        let mut tr = t.triangulation.borrow_mut();
        let was: HashSet<Rc<Triangle>> = tr.triangles.iter().cloned().collect();
        let (new, inc, rem) = ref_::encroachment::unencroach_segment(&mut tr, &edge(seg.0, seg.1), &mut enc, &cons, &b, &t.holes);
        let e = change(&was, &tr, &inc, &rem);
        Ok((seg, vs, new.iter().map(f).collect(), dist, list, vl, snap_triangulation(&tr), e))
    });
    let input = || format!("{} plan={:?} hash_seed={}", d.text(), plan, hs);
    let (seg, vs, new, dist, list, vl, s, e) = match got {
        Got::Ok(Ok(x), _) => x,
        Got::Ok(Err(e), _) => return log.violation("random", format!("valid input refused: {}", e), input()),
        Got::Bad(e) => return log.violation("random", e, input()),
        Got::Unknown => return,
    };
    log.nontrivial(d.key() ^ seg.0 .0.to_bits() ^ seg.1 .1.to_bits().rotate_left(9));
    log.count("subsegments", new.len() as u64);
    let bad = |log: &mut Log, what: String| log.violation("random", what, format!("{} segment={:?} vertices={:?}", input(), seg, vs));
    if let Some(e) = e {
        return bad(log, e.to_string());
    }
    // the encroachments told: the sign may be any near the circle
    let told: BTreeMap<(K, K), BTreeSet<K>> = dist.iter().map(|(s, l)| ((k(s.0), k(s.1)), l.iter().map(|q| k(*q)).collect())).collect();
    let none = BTreeSet::new();
    for s in &list {
        let t = told.get(&(k(s.0), k(s.1))).unwrap_or(&none);
        for q in &vl {
            let l = crate::exact::dist(s.0, s.1);
            let m = ((s.0 .0 + s.1 .0) / 2., (s.0 .1 + s.1 .1) / 2.);
            let x = crate::exact::dist(m, *q) - l / 2.;
            let mag = q.0.abs().max(q.1.abs()).max(m.0.abs()).max(m.1.abs()) + l;
            if x.abs() < 1e-9 * l + 1e-12 * mag {
                continue;
            }
            log.count("encroachments judged", 1);
            if t.contains(&k(*q)) != (x < 0.) {
                return bad(log, format!("whether {:?} encroaches upon {:?} is told wrong", q, s));
            }
        }
    }
    if told.keys().any(|s| !list.iter().any(|x| (k(x.0), k(x.1)) == *s)) || told.values().any(|l| l.is_empty()) {
        return bad(log, "an encroachment of no segment, or by no vertex".into());
    }
    // the subsegments make up the segment
    let next: BTreeMap<K, K> = new.iter().map(|s| (k(s.0), k(s.1))).collect();
    let (mut x, mut n) = (k(seg.0), 0);
    let edges: BTreeSet<(K, K)> = s.tris.iter().flat_map(|t| (0..3).map(move |j| (k(t[j]), k(t[(j + 1) % 3])))).collect();
    while x != k(seg.1) && n <= new.len() {
        match next.get(&x) {
            Some(y) if edges.contains(&(x, *y)) || edges.contains(&(*y, x)) => x = *y,
            _ => break,
        }
        n += 1;
    }
    if x != k(seg.1) || n != new.len() || next.len() != new.len() || n < 2 {
        return bad(log, format!("the subsegments {:?} don't make it up", new));
    }
    for s in &new {
        for q in &vs {
            let l = crate::exact::dist(s.0, s.1);
            let m = ((s.0 .0 + s.1 .0) / 2., (s.0 .1 + s.1 .1) / 2.);
            let mag = q.0.abs().max(q.1.abs()).max(m.0.abs()).max(m.1.abs()) + l;
            if crate::exact::dist(m, *q) - l / 2. < -1e-9 * l - 1e-12 * mag {
                return bad(log, format!("{:?} encroaches upon the subsegment {:?}", q, s));
            }
        }
    }
    let w = judge(&d, &s, true);
    if let Some(b) = pick("", &w).first() {
        return bad(log, b.clone());
    }
    log.sample(input);
}
