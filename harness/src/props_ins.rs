//! I01..I03: histories of insertions against an exact model of what must be accepted, what must be
//! refused (with which conflicts), and what the triangulator must hold afterwards.
use crate::ctx::*;
use crate::domain::*;
use crate::exact::*;
use crate::gen::*;
use crate::mesh::*;
use crate::props_tri::*;
use crate::rng::Rng;
use nlsn_delaunay::*;
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Ins {
    V(Vec<P>),
    S(Vec<(P, P)>),
    H(Vec<P>),
}
#[derive(Clone, Debug, Default)]
struct State {
    verts: BTreeSet<K>,
    segs: Vec<(P, P)>,
    holes: BTreeSet<Vec<K>>,
}
#[derive(Clone, Debug)]
struct Res {
    ok: bool,
    conf_v: BTreeSet<K>,
    conf_s: BTreeSet<(K, K)>,
    after: State,
}
fn state(t: &Triangulator) -> State {
    State {
        verts: t.vertices.iter().map(|w| k(p(w))).collect(),
        segs: t.segments.iter().map(|e| (p(&e.v1), p(&e.v2))).collect(),
        holes: t.holes.iter().map(|h| h.vertices.iter().map(|w| k(p(w))).collect()).collect(),
    }
}
fn und(a: P, b: P) -> (K, K) {
    let (x, y) = (k(a), k(b));
    if x < y {
        (x, y)
    } else {
        (y, x)
    }
}

/// smallest non-zero distance between the vertices of one and the edges of the other
fn gap(a: &[(P, P)], b: &[(P, P)]) -> f64 {
    let mut g = f64::MAX;
    for (s, t) in [(a, b), (b, a)] {
        for e in s {
            for q in [e.0, e.1] {
                for f in t {
                    if !on_segment(f.0, f.1, q) {
                        g = g.min(dist_point_segment(f.0, f.1, q));
                    }
                }
            }
        }
    }
    g
}

pub struct Model {
    pub d: Domain,
}
impl Model {
    fn vertex_ok(&self, q: P) -> bool {
        self.d.inside(q)
    }
    fn seg_ok(&self, s: (P, P)) -> bool {
        seg_clear(&self.d, s.0, s.1)
    }
    /// rings the hole is not clear of, and segments
    fn hole_conflicts(&self, h: &[P]) -> (BTreeSet<K>, BTreeSet<K>) {
        let touch = |r: &[P]| poly_edges(h).any(|(a, b)| poly_edges(r).any(|(x, y)| segments_touch(a, b, x, y)));
        let mut ring = BTreeSet::new();
        let mut seg = BTreeSet::new();
        if touch(&self.d.boundary) || locate(&self.d.boundary, h[0]) != Loc::In {
            ring.extend(self.d.boundary.iter().map(|q| k(*q)));
        }
        for o in &self.d.holes {
            if touch(o) || locate(o, h[0]) != Loc::Out || locate(h, o[0]) != Loc::Out {
                ring.extend(o.iter().map(|q| k(*q)));
            }
        }
        for (a, b) in &self.d.segs {
            if locate(h, *a) != Loc::Out || poly_edges(h).any(|(x, y)| segments_touch(x, y, *a, *b)) {
                seg.insert(k(*a));
                seg.insert(k(*b));
            }
        }
        (ring, seg)
    }
}

/// candidate operations around the elements of a valid domain
fn history(r: &mut Rng, d: &Domain, focus: usize) -> Vec<Ins> {
    let mut ops = vec![];
    let c = if d.exact { Coord::Dyadic } else { Coord::Float };
    let rings: Vec<Vec<P>> = d.rings().cloned().collect();
    let ringp = |r: &mut Rng| -> P {
        let g: &Vec<P> = &rings[r.below(rings.len() as u64) as usize];
        let i = r.below(g.len() as u64) as usize;
        let (a, b) = (g[i], g[(i + 1) % g.len()]);
        let m = ((a.0 + b.0) / 2., (a.1 + b.1) / 2.);
        if d.exact && r.chance(0.5) && on_segment(a, b, m) {
            m
        } else {
            a
        }
    };
    let mut segs = d.segs.clone();
    let mut verts = d.verts.clone();
    r.shuffle(&mut segs);
    r.shuffle(&mut verts);
    let mut holes = d.holes.clone();
    let n = 4 + r.below(6);
    for _ in 0..n {
        let what = if r.chance(0.55) { focus } else { r.below(3) as usize };
        match what {
            0 => {
                let m = 1 + r.below(5);
                let mut v = vec![];
                let bad = r.chance(0.4);
                for _ in 0..m {
                    if let Some(q) = verts.pop() {
                        v.push(q);
                    }
                    if r.chance(0.15) {
                        if let Some(s) = d.segs.first() {
                            v.push(if r.chance(0.5) { s.0 } else { s.1 });
                        }
                    }
                    if r.chance(0.1) && !d.verts.is_empty() {
                        v.push(*r.pick(&d.verts)); // again
                    }
                    if bad {
                        match r.below(4) {
                            0 => v.push(ringp(r)),
                            1 if !d.holes.is_empty() => {
                                let h = r.pick(&d.holes).clone();
                                let j = r.below(h.len() as u64) as usize;
                                let (a, b, e) = (h[j], h[(j + 1) % h.len()], h[(j + 2) % h.len()]);
                                v.push(((a.0 + b.0 + 2. * e.0) / 4., (a.1 + b.1 + 2. * e.1) / 4.));
                            }
                            _ => v.push(point(r, c, 6.0)),
                        }
                    }
                }
                ops.push(Ins::V(v));
            }
            1 => {
                let m = 1 + r.below(4);
                let mut v = vec![];
                let bad = r.chance(0.45);
                for _ in 0..m {
                    if let Some(s) = segs.pop() {
                        v.push(if r.chance(0.5) { s } else { (s.1, s.0) });
                    }
                    if bad {
                        let inner = |r: &mut Rng| {
                            let mut q = point(r, c, 4.0);
                            for _ in 0..20 {
                                if d.inside(q) {
                                    break;
                                }
                                q = point(r, c, 4.0);
                            }
                            q
                        };
                        let s = match r.below(6) {
                            0 => (inner(r), ringp(r)),
                            1 => (ringp(r), inner(r)),
                            2 => (ringp(r), ringp(r)),
                            3 => (inner(r), point(r, c, 6.0)),
                            4 => {
                                // through a ring vertex
                                let w = ringp(r);
                                let q = point(r, c, 2.0);
                                let f = *r.pick(&[1.0, 0.5, 2.0]);
                                ((w.0 - q.0, w.1 - q.1), (w.0 + f * q.0, w.1 + f * q.1))
                            }
                            _ => (point(r, c, 5.0), point(r, c, 5.0)),
                        };
                        if s.0 != s.1 {
                            v.push(s);
                        }
                    }
                }
                ops.push(Ins::S(v));
            }
            _ => {
                if r.chance(0.5) {
                    if let Some(h) = holes.pop() {
                        ops.push(Ins::H(h));
                        continue;
                    }
                }
                let w = if r.chance(0.4) { ringp(r) } else { point(r, c, 4.5) };
                let sz = *r.pick(&[0.25, 0.5, 1.0, 2.0, 5.0]);
                let h = match r.below(4) {
                    0 => rect(w.0, w.1, w.0 + sz, w.1 + sz),
                    1 => rect(w.0 - sz, w.1 - sz, w.0 + sz, w.1 + sz),
                    2 => vec![w, (w.0 + sz, w.1 + 0.25 * sz), (w.0 + 0.5 * sz, w.1 + sz)],
                    _ if !d.holes.is_empty() => {
                        // around or inside another hole, or the same one
                        let g = r.pick(&d.holes).clone();
                        let f = *r.pick(&[0.5, 1.0, 1.5, 2.0]);
                        let c0 = g.iter().fold((0., 0.), |s: P, q| (s.0 + q.0, s.1 + q.1));
                        let c0 = (c0.0 / g.len() as f64, c0.1 / g.len() as f64);
                        if f == 1.0 {
                            g
                        } else {
                            g.iter().map(|q| snap((c0.0 + f * (q.0 - c0.0), c0.1 + f * (q.1 - c0.1)), c)).collect()
                        }
                    }
                    _ => rect(w.0, w.1 - sz, w.0 + 0.5 * sz, w.1),
                };
                if is_simple(&h) && area2_ex(&h).sign() > 0 {
                    ops.push(Ins::H(h));
                }
            }
        }
    }
    ops
}

pub fn insertions(id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let focus = match id {
        "I01" => 0,
        "I02" => 1,
        _ => 2,
    };
    let d = some_domain(r, Opts { max_segs: 5, max_verts: 12, max_holes: 3, incidences: true, transforms: false, overlaps: false, stretch: false });
    let ops: Vec<Ins> = history(r, &d, focus);
    // scale and move: exact, so that the model stays exact
    let (s, off) = if i % 3 == 0 { (2f64.powi(r.range(-12, 12) as i32), if d.exact { (r.range(-64, 64) as f64, r.range(-64, 64) as f64) } else { (0., 0.) }) } else { (1.0, (0., 0.)) };
    let f = |q: P| ((q.0 + off.0) * s, (q.1 + off.1) * s);
    let d = d.map(f);
    let ops: Vec<Ins> = ops
        .into_iter()
        .map(|o| match o {
            Ins::V(v) => Ins::V(v.into_iter().map(f).collect()),
            Ins::S(v) => Ins::S(v.into_iter().map(|(a, b)| (f(a), f(b))).collect()),
            Ins::H(v) => Ins::H(v.into_iter().map(f).collect()),
        })
        .collect();
    // the model decides, on exact predicates; ill-conditioned candidates are left out
    let mut m = Model { d: Domain { class: d.class.clone(), boundary: d.boundary.clone(), exact: d.exact, ..Default::default() } };
    let eps = 1e-6 * s;
    let mut plan: Vec<(Ins, bool, BTreeSet<K>, BTreeSet<(K, K)>, Domain)> = vec![];
    for o in ops {
        let mut conf_v = BTreeSet::new();
        let mut conf_s = BTreeSet::new();
        let mut next = m.d.clone();
        let o = match o {
            Ins::V(v) => {
                let mut keep = vec![];
                for q in v {
                    let near = m.d.ring_edges().iter().chain(m.d.segs.iter()).any(|(a, b)| !on_segment(*a, *b, q) && dist_point_segment(*a, *b, q) < 1e-4 * s)
                        || m.d.verts.iter().chain(keep.iter()).any(|w| *w != q && dist(*w, q) < 1e-4 * s)
                        || m.d.crossings().iter().any(|x| dist(x.0, q) < 1e-3 * s);
                    if !near {
                        keep.push(q);
                    }
                }
                for q in &keep {
                    if !m.vertex_ok(*q) {
                        conf_v.insert(k(*q));
                    } else if !next.verts.contains(q) {
                        next.verts.push(*q);
                    }
                }
                Ins::V(keep)
            }
            Ins::S(v) => {
                let mut keep: Vec<(P, P)> = vec![];
                for (a, b) in v {
                    let e = [(a, b)];
                    if gap(&e, &m.d.ring_edges()) < eps {
                        continue;
                    }
                    if m.seg_ok((a, b)) {
                        // accepted only from the generator's well-conditioned pool, or clear of the others
                        let pool = d.segs.contains(&(a, b)) || d.segs.contains(&(b, a));
                        let clear = m.d.segs.iter().chain(keep.iter()).all(|(x, y)| !segments_touch(a, b, *x, *y) && gap(&e, &[(*x, *y)]) > 1e-3 * s)
                            && m.d.verts.iter().all(|q| *q == a || *q == b || dist_point_segment(a, b, *q) > 1e-3 * s);
                        let pool_ok = pool
                            && m.d.segs.iter().chain(keep.iter()).all(|t| d.segs.contains(t) || d.segs.contains(&(t.1, t.0)) || (!segments_touch(a, b, t.0, t.1) && gap(&e, &[*t]) > 1e-3 * s))
                            && m.d.verts.iter().all(|q| d.verts.contains(q) || *q == a || *q == b || on_segment(a, b, *q) || dist_point_segment(a, b, *q) > 1e-3 * s)
                            && m.d.crossings().iter().all(|c| dist_point_segment(a, b, c.0) > 1e-9 * s || segments_touch(a, b, m.d.segs[c.1].0, m.d.segs[c.1].1));
                        if clear || pool_ok {
                            keep.push((a, b));
                        }
                    } else {
                        keep.push((a, b));
                    }
                }
                for (a, b) in &keep {
                    if !m.seg_ok((*a, *b)) {
                        conf_s.insert((k(*a), k(*b)));
                    } else if !next.segs.iter().any(|t| und(t.0, t.1) == und(*a, *b)) {
                        next.segs.push((*a, *b));
                    }
                }
                Ins::S(keep)
            }
            Ins::H(h) => {
                let he: Vec<(P, P)> = poly_edges(&h).collect();
                let mut all = m.d.ring_edges();
                all.extend(m.d.segs.iter().cloned());
                let cr = m.d.crossings();
                if gap(&he, &all) < 1e-3 * s
                    || m.d.verts.iter().any(|q| he.iter().any(|(a, b)| !on_segment(*a, *b, *q) && dist_point_segment(*a, *b, *q) < eps))
                    || cr.iter().any(|c| he.iter().any(|(a, b)| dist_point_segment(*a, *b, c.0) < eps))
                {
                    continue;
                }
                let (ring, seg) = m.hole_conflicts(&h);
                if !ring.is_empty() {
                    conf_v = ring;
                } else if !seg.is_empty() {
                    conf_v = seg;
                } else {
                    // vertices in the hole go; so that on-ring vertices don't matter afterwards
                    next.verts.retain(|q| locate(&h, *q) == Loc::Out);
                    next.holes.push(h.clone());
                }
                Ins::H(h)
            }
        };
        let ok = conf_v.is_empty() && conf_s.is_empty();
        if ok {
            m.d = next;
        }
        plan.push((o, ok, conf_v, conf_s, m.d.clone()));
    }
    let hs = r.next();
    let (d2, p2) = (d.clone(), plan.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    let got = guarded(hs, tri_budget(&d) * 4, log, move || {
        let mut t = Triangulator::new(&poly(&d2.boundary));
        let mut out = vec![];
        for o in p2 {
            let mut res = Res { ok: true, conf_v: BTreeSet::new(), conf_s: BTreeSet::new(), after: State::default() };
            match o {
                Ins::V(q) => {
                    let set: HashSet<Rc<Vertex>> = q.iter().map(|q| v(*q)).collect();
                    if let Err(e) = t.insert_vertices(&set) {
                        res.ok = false;
                        res.conf_v = e.iter().map(|w| k(p(w))).collect();
                    }
                }
                Ins::S(s) => {
                    let set: HashSet<Rc<Edge>> = s.iter().map(|(a, b)| edge(*a, *b)).collect();
                    if let Err(e) = t.insert_segments(&set) {
                        res.ok = false;
                        res.conf_s = e.iter().map(|e| (k(p(&e.v1)), k(p(&e.v2)))).collect();
                    }
                }
                Ins::H(h) => {
                    if let Err(e) = t.insert_hole(&poly(&h)) {
                        res.ok = false;
                        res.conf_v = e.iter().map(|w| k(p(w))).collect();
                    }
                }
            }
            res.after = state(&t);
            out.push(res);
        }
        t.triangulate();
        (out, snap_of(&t))
    });
    let input = || format!("boundary={:?} hash_seed={} operations={:?}", d.boundary, hs, plan.iter().map(|x| &x.0).collect::<Vec<_>>());
    if log.verbose {
        eprintln!("{}", input());
    }
    let (res, sn) = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => {
            log.violation("random", format!("insertions: {}", e), input());
            return;
        }
        Got::Unknown => return,
    };
    let mut kinds = 0u64;
    let mut before = State::default();
    for (n, ((o, ok, cv, cs, md), x)) in plan.iter().zip(res.iter()).enumerate() {
        let (name, which) = match o {
            Ins::V(_) => ("vertices", 0),
            Ins::S(_) => ("segments", 1),
            Ins::H(_) => ("hole", 2),
        };
        log.count(&format!("{} {}", name, if *ok { "to be accepted" } else { "to be refused" }), 1);
        kinds |= 1 << (which * 2 + *ok as u64);
        let mut bad: Vec<String> = vec![];
        if x.ok != *ok {
            bad.push(format!("{} were {} but must be {}", name, if x.ok { "accepted" } else { "refused" }, if *ok { "accepted" } else { "refused" }));
        } else if !ok {
            // a hole is refused for its rings, or else for the held pieces of segments
            let mut cv = cv.clone();
            if let Ins::H(h) = o {
                let rings: BTreeSet<K> = md.boundary.iter().chain(md.holes.iter().flatten()).map(|q| k(*q)).collect();
                if !cv.iter().any(|q| rings.contains(q)) {
                    cv = before.segs.iter().filter(|(a, b)| locate(h, *a) != Loc::Out || locate(h, *b) != Loc::Out || poly_edges(h).any(|(x, y)| segments_touch(x, y, *a, *b))).flat_map(|(a, b)| [k(*a), k(*b)]).collect();
                }
            }
            let cv = &cv;
            if x.conf_v != *cv || x.conf_s != *cs {
                let f = |s: &BTreeSet<K>| s.iter().map(|q| unk(*q)).collect::<Vec<_>>();
                bad.push(format!("wrong conflicts: {:?} {:?} instead of {:?} {:?}", f(&x.conf_v), x.conf_s.len(), f(cv), cs.len()));
            }
            if x.after.verts != before.verts || x.after.segs.len() != before.segs.len() || !same_segs(&x.after.segs, &before.segs) || x.after.holes != before.holes {
                bad.push("a refused insertion changed the triangulator".into());
            }
        }
        if x.ok == *ok {
            bad.extend(check_state(md, &x.after));
            log.count("states compared with the model", 1);
        }
        if which == focus as u64 {
            if let Some(b) = bad.first() {
                log.violation("random", format!("operation {} {:?}: {}", n, o, b), input());
                return;
            }
        } else if !bad.is_empty() {
            return; // another property's violation
        }
        before = x.after.clone();
    }
    log.distinct_in("combinations of accepted and refused operations", kinds);
    if plan.len() > 1 {
        log.nontrivial(d.key() ^ hs);
    }
    log.sample(input);
    // and the model is the domain that gets triangulated
    let w = judge(&m.d, &sn, false);
    if let Some(b) = pick("", &w).first() {
        log.violation("random", format!("the inserted elements triangulate badly: {}", b), input());
    }
    log.count("triangulations of the final states judged", 1);
}
fn same_segs(a: &[(P, P)], b: &[(P, P)]) -> bool {
    let f = |s: &[(P, P)]| s.iter().map(|(x, y)| (k(*x), k(*y))).collect::<BTreeSet<_>>();
    f(a) == f(b)
}

fn check_state(d: &Domain, s: &State) -> Vec<String> {
    let mut bad = vec![];
    let holes: BTreeSet<Vec<K>> = d.holes.iter().map(|h| h.iter().map(|q| k(*q)).collect()).collect();
    if holes != s.holes {
        bad.push(format!("{} holes are held instead of {}", s.holes.len(), holes.len()));
    }
    // vertices that are not on segments
    let on = |q: P| d.segs.iter().any(|(a, b)| q == *a || q == *b || near_segment(*a, *b, q));
    let want: BTreeSet<K> = d.verts.iter().filter(|q| !on(**q)).map(|q| k(*q)).collect();
    for q in want.difference(&s.verts) {
        bad.push(format!("vertex {:?} is not held", unk(*q)));
    }
    for q in s.verts.difference(&want) {
        bad.push(format!("vertex {:?} is held, but was not inserted or is part of a segment", unk(*q)));
    }
    // segments: chains of the pieces
    let mag = d.boundary.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
    let cross = d.crossings();
    let mut pts: Vec<P> = vec![];
    for (a, b) in &s.segs {
        for q in [*a, *b] {
            if pts.contains(&q) {
                continue;
            }
            let known = d.segs.iter().any(|t| t.0 == q || t.1 == q) || d.verts.contains(&q) || cross.iter().any(|c| dist(c.0, q) <= 1e-12 * mag);
            if !known {
                bad.push(format!("a held segment ends at {:?}", q));
            }
            pts.push(q);
        }
    }
    let mut all: Vec<P> = d.segs.iter().flat_map(|t| [t.0, t.1]).collect();
    all.extend(d.verts.iter().cloned());
    for c in &cross {
        match pts.iter().find(|q| dist(**q, c.0) <= 1e-12 * mag) {
            Some(q) => all.push(*q),
            None => bad.push(format!("the crossing {:?} does not split the segments", c.0)),
        }
    }
    let mut need: BTreeSet<(K, K)> = BTreeSet::new();
    for (a, b) in &d.segs {
        for (x, y) in split_chain(*a, *b, &all) {
            need.insert(und(x, y));
        }
    }
    let have: BTreeSet<(K, K)> = s.segs.iter().map(|(a, b)| und(*a, *b)).collect();
    for e in need.difference(&have) {
        bad.push(format!("the piece {:?} {:?} of a segment is not held", unk(e.0), unk(e.1)));
    }
    for e in have.difference(&need) {
        bad.push(format!("the held segment {:?} {:?} is not a piece of an inserted one", unk(e.0), unk(e.1)));
    }
    bad
}
