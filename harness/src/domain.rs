//! Composite workload generator for the triangulator: boundary + holes + segment and vertex
//! constraints, with the incidences (colinear, cocircular, shared, crossing, touching, splitting)
//! that matter to the code. Everything is validated with exact predicates.
use crate::exact::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub max_holes: u64,
    pub max_segs: u64,
    pub max_verts: u64,
    /// allow segments to cross, to share endpoints, to touch, vertices over segments
    pub incidences: bool,
    /// affine changes (scale, offset) of the coordinates
    pub transforms: bool,
    /// allow segments over one another, and repeated ones
    pub overlaps: bool,
    /// allow changes of scale along one axis, and clusters of vertices
    pub stretch: bool,
}
pub const FULL: Opts = Opts { max_holes: 3, max_segs: 6, max_verts: 30, incidences: true, transforms: true, overlaps: true, stretch: true };

fn lshape(r: &mut Rng) -> Vec<P> {
    let (a, b) = (r.range(-3, 2) as f64, r.range(-3, 2) as f64);
    match r.below(3) {
        0 => vec![(-4., -4.), (4., -4.), (4., b), (a, b), (a, 4.), (-4., 4.)],
        1 => vec![(-4., -4.), (4., -4.), (4., 4.), (2., 4.), (2., b), (-2., b), (-2., 4.), (-4., 4.)],
        _ => vec![(-4., -4.), (a.min(0.) - 0.5, -4.), (a.min(0.) - 0.5, -1.), (3., -1.), (3., -4.), (4., -4.), (4., 4.), (-4., 4.)],
    }
}
fn comb(r: &mut Rng) -> Vec<P> {
    let n = r.range(2, 5);
    let mut v = vec![(-4., -4.), (4., -4.)];
    let w = 8.0 / n as f64;
    for i in (0..n).rev() {
        let x = -4.0 + w * i as f64;
        let depth = r.range(-2, 2) as f64;
        v.push((((x + w) * 64.).floor() / 64., 4.0));
        v.push((((x + 0.5 * w) * 64.).floor() / 64., depth));
    }
    v.push((-4.0, 4.0));
    v
}
/// insert extra (exactly colinear for dyadic input) vertices along the edges
fn subdivide(r: &mut Rng, v: &[P], p: f64) -> Vec<P> {
    let mut out = vec![];
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        out.push(a);
        if r.chance(p) {
            let m = ((a.0 + b.0) / 2., (a.1 + b.1) / 2.);
            if on_segment(a, b, m) && m != a && m != b {
                if r.chance(0.3) {
                    let q = ((a.0 + m.0) / 2., (a.1 + m.1) / 2.);
                    if on_segment(a, m, q) && q != a && q != m {
                        out.push(q);
                    }
                }
                out.push(m);
            }
        }
    }
    out
}
pub fn poly_edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ {
    (0..p.len()).map(move |i| (p[i], p[(i + 1) % p.len()]))
}
impl Domain {
    pub fn rings(&self) -> impl Iterator<Item = &Vec<P>> {
        std::iter::once(&self.boundary).chain(self.holes.iter())
    }
    pub fn ring_edges(&self) -> Vec<(P, P)> {
        self.rings().flat_map(|r| poly_edges(r).collect::<Vec<_>>()).collect()
    }
    pub fn inside(&self, q: P) -> bool {
        locate(&self.boundary, q) == Loc::In && self.holes.iter().all(|h| locate(h, q) == Loc::Out)
    }
    pub fn map(&self, f: impl Fn(P) -> P) -> Domain {
        Domain {
            class: self.class.clone(),
            boundary: self.boundary.iter().map(|q| f(*q)).collect(),
            holes: self.holes.iter().map(|h| h.iter().map(|q| f(*q)).collect()).collect(),
            segs: self.segs.iter().map(|s| (f(s.0), f(s.1))).collect(),
            verts: self.verts.iter().map(|q| f(*q)).collect(),
            exact: self.exact,
        }
    }
    pub fn key(&self) -> u64 {
        let mut h = 1469598103934665603u64;
        let mut add = |x: u64| h = (h ^ x).wrapping_mul(1099511628211);
        for ring in self.rings() {
            add(0xfeed);
            for q in ring {
                add(q.0.to_bits());
                add(q.1.to_bits().rotate_left(17));
            }
        }
        for s in &self.segs {
            for q in [s.0, s.1] {
                add(q.0.to_bits() ^ 3);
                add(q.1.to_bits().rotate_left(17));
            }
        }
        for q in &self.verts {
            add(q.0.to_bits() ^ 7);
            add(q.1.to_bits().rotate_left(17));
        }
        h
    }
    pub fn text(&self) -> String {
        format!(
            "class={} boundary={:?} holes={:?} segments={:?} vertices={:?}",
            self.class, self.boundary, self.holes, self.segs, self.verts
        )
    }
    /// area of the domain
    pub fn area(&self) -> f64 {
        let mut e = area2_ex(&self.boundary);
        for h in &self.holes {
            e = e.sub(&area2_ex(h));
        }
        e.approx() / 2.0
    }
    /// every point where constraints meet: endpoints, crossings (approximate for crossings)
    /// whether some segments share more than a point
    pub fn overlaps(&self) -> bool {
        let on = |a: P, b: P, q: P| orient(a, b, q) == 0 && (q.0 - a.0) * (q.0 - b.0) + (q.1 - a.1) * (q.1 - b.1) < 0.0;
        (0..self.segs.len()).any(|i| {
            (i + 1..self.segs.len()).any(|j| {
                let ((a, b), (c, d)) = (self.segs[i], self.segs[j]);
                orient(a, b, c) == 0 && orient(a, b, d) == 0 && (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) || (a == c && b == d) || (a == d && b == c))
            })
        })
    }
    pub fn crossings(&self) -> Vec<(P, usize, usize)> {
        let mut out = vec![];
        for i in 0..self.segs.len() {
            for j in i + 1..self.segs.len() {
                let ((a, b), (c, d)) = (self.segs[i], self.segs[j]);
                if segments_cross(a, b, c, d) {
                    let den = (b.0 - a.0) * (d.1 - c.1) - (b.1 - a.1) * (d.0 - c.0);
                    let t = ((c.0 - a.0) * (d.1 - c.1) - (c.1 - a.1) * (d.0 - c.0)) / den;
                    out.push(((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)), i, j));
                }
            }
        }
        out
    }
    /// smallest angle, inside the domain, between two constraints that meet (degrees)
    pub fn min_angle(&self) -> f64 {
        let mut edges = self.ring_edges();
        edges.extend(self.segs.iter().cloned());
        let mut pts: Vec<P> = edges.iter().flat_map(|e| [e.0, e.1]).collect();
        pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        pts.dedup();
        let mut best: f64 = 360.0;
        for p in pts {
            let mut dirs: Vec<f64> = vec![];
            for (a, b) in &edges {
                let mut push = |q: P| dirs.push((q.1 - p.1).atan2(q.0 - p.0));
                if *a == p {
                    push(*b)
                } else if *b == p {
                    push(*a)
                } else if on_segment(*a, *b, p) {
                    push(*a);
                    push(*b);
                }
            }
            dirs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            dirs.dedup_by(|a, b| (*a - *b).abs() < 1e-12);
            let n = dirs.len();
            if n < 2 {
                continue;
            }
            for i in 0..n {
                let g = if i + 1 < n { dirs[i + 1] - dirs[i] } else { dirs[0] + std::f64::consts::TAU - dirs[i] };
                let mid = dirs[i] + g / 2.0;
                let ext = self.boundary.iter().map(|q| dist(*q, p)).fold(0.0, f64::max);
                let q = (p.0 + 1e-6 * ext * mid.cos(), p.1 + 1e-6 * ext * mid.sin());
                if self.inside(q) {
                    best = best.min(g.to_degrees());
                }
            }
        }
        for (_, i, j) in self.crossings() {
            let d = |s: (P, P)| (s.1 .0 - s.0 .0, s.1 .1 - s.0 .1);
            let (u, v) = (d(self.segs[i]), d(self.segs[j]));
            let c = ((u.0 * v.0 + u.1 * v.1) / (u.0.hypot(u.1) * v.0.hypot(v.1))).abs();
            best = best.min(c.min(1.0).acos().to_degrees());
        }
        best
    }
}

fn hole(r: &mut Rng, c: Coord) -> Vec<P> {
    let g = |q: P| snap(q, if c == Coord::Int { Coord::Dyadic } else { c });
    match r.below(4) {
        0 => {
            let (x, y) = (r.range(-14, 13) as f64 / 4., r.range(-14, 13) as f64 / 4.);
            let (w, h) = (r.range(1, 8) as f64 / 4., r.range(1, 8) as f64 / 4.);
            let v = rect(x, y, x + w, y + h);
            let p = if r.chance(0.3) { 0.5 } else { 0.0 };
            subdivide(r, &v, p)
        }
        1 => {
            let ctr = point(r, Coord::Float, 3.0);
            let n = r.range(4, 8) as usize;
            (0..2 * n)
                .map(|i| {
                    let a = i as f64 * std::f64::consts::PI / n as f64;
                    let rad = if i % 2 == 0 { 1.2 } else { r.uniform(0.3, 1.1) };
                    g((ctr.0 + rad * a.cos(), ctr.1 + rad * a.sin()))
                })
                .collect()
        }
        _ => {
            let ctr = point(r, Coord::Float, 3.5);
            let rad = r.uniform(0.2, 1.5);
            let n = r.range(3, 8) as usize;
            let off = r.uniform(0.0, 6.28);
            (0..n)
                .map(|i| {
                    let a = off + i as f64 * std::f64::consts::TAU / n as f64;
                    g((ctr.0 + rad * a.cos(), ctr.1 + rad * a.sin()))
                })
                .collect()
        }
    }
}

/// no ring nearly touches another one
pub fn rings_clear(d: &Domain, gap: f64) -> bool {
    let rings: Vec<&Vec<P>> = d.rings().collect();
    (0..rings.len()).all(|i| {
        (0..rings.len()).all(|j| i == j || rings[i].iter().all(|q| poly_edges(rings[j]).all(|(a, b)| dist_point_segment(a, b, *q) > gap)))
    })
}
/// all rings pairwise disjoint, holes strictly inside
pub fn rings_ok(d: &Domain) -> bool {
    if !is_simple(&d.boundary) || area2_ex(&d.boundary).sign() <= 0 {
        return false;
    }
    for (i, h) in d.holes.iter().enumerate() {
        if !is_simple(h) || area2_ex(h).sign() <= 0 {
            return false;
        }
        if !h.iter().all(|q| locate(&d.boundary, *q) == Loc::In) || d.boundary.iter().any(|q| locate(h, *q) != Loc::Out) {
            return false;
        }
        for (a, b) in poly_edges(h) {
            if poly_edges(&d.boundary).any(|(x, y)| segments_touch(a, b, x, y)) {
                return false;
            }
            for o in &d.holes[..i] {
                if poly_edges(o).any(|(x, y)| segments_touch(a, b, x, y)) {
                    return false;
                }
            }
        }
        for o in &d.holes[..i] {
            if locate(o, h[0]) != Loc::Out || locate(h, o[0]) != Loc::Out {
                return false;
            }
        }
    }
    true
}
pub fn seg_clear(d: &Domain, a: P, b: P) -> bool {
    d.inside(a) && d.inside(b) && d.ring_edges().iter().all(|(x, y)| !segments_touch(*x, *y, a, b))
}

pub fn generate(r: &mut Rng, o: Opts) -> Option<Domain> {
    let c = *r.pick(&[Coord::Dyadic, Coord::Float, Coord::Int, Coord::Dyadic]);
    let kind = r.below(8) as usize;
    let (class, mut b) = match kind {
        0..=4 => boundary(r, c, kind, 4.0),
        5 => ("lshape", lshape(r)),
        6 => ("comb", comb(r)),
        _ => ("square", rect(-4., -4., 4., 4.)),
    };
    let dy = b.iter().all(|q| snap(*q, Coord::Dyadic) == *q);
    if dy && r.chance(0.35) {
        b = subdivide(r, &b, 0.5);
    }
    let k = r.below(b.len() as u64) as usize;
    b.rotate_left(k);
    let mut d = Domain { class: format!("{}/{:?}", class, c), boundary: b, exact: dy && c != Coord::Float, ..Default::default() };
    if !rings_ok(&d) {
        return None;
    }
    let nh = if r.chance(0.5) { 0 } else { r.below(o.max_holes + 1) };
    let mut tries = 0;
    while (d.holes.len() as u64) < nh {
        tries += 1;
        if tries > 60 {
            break;
        }
        let h = hole(r, c);
        let k = r.below(h.len() as u64) as usize;
        let mut h = h;
        h.rotate_left(k);
        d.holes.push(h);
        let ok = rings_ok(&d) && rings_clear(&d, 2e-3);
        if !ok {
            d.holes.pop();
        }
    }
    let ns = if r.chance(0.4) { 0 } else { r.below(o.max_segs + 1) };
    tries = 0;
    let mode = r.below(5);
    while (d.segs.len() as u64) < ns {
        tries += 1;
        if tries > 120 {
            break;
        }
        let cc = if c == Coord::Int { Coord::Int } else { c };
        let mut a = point(r, cc, 4.0);
        let mut e = point(r, cc, 4.0);
        if r.chance(0.25) {
            e = (a.0, e.1); // vertical
        } else if r.chance(0.25) {
            e = (e.0, a.1);
        }
        let mut tjunction = false;
        if o.incidences && !d.segs.is_empty() {
            let s = *r.pick(&d.segs);
            match mode {
                1 => a = if r.chance(0.5) { s.0 } else { s.1 }, // share an endpoint
                2 if d.exact || c != Coord::Float => {
                    let m = ((s.0 .0 + s.1 .0) / 2., (s.0 .1 + s.1 .1) / 2.);
                    if on_segment(s.0, s.1, m) && snap(m, Coord::Dyadic) == m {
                        a = m;
                        tjunction = true;
                    }
                }
                _ => {}
            }
        }
        let mut over = false;
        if o.overlaps && o.incidences && d.exact && mode == 3 && !d.segs.is_empty() && r.chance(0.7) {
            // along the line of another segment: a part of it, more than it, beside it, or itself turned
            let s = *r.pick(&d.segs);
            let at = |t: f64| (s.0 .0 + t * (s.1 .0 - s.0 .0), s.0 .1 + t * (s.1 .1 - s.0 .1));
            let ts = [-1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0];
            a = at(*r.pick(&ts));
            e = at(*r.pick(&ts));
            over = orient(s.0, s.1, a) == 0 && orient(s.0, s.1, e) == 0 && a != e && [a, e].iter().all(|q| snap(*q, Coord::Dyadic) == *q);
            if !over {
                continue;
            }
        }
        let lmin = if r.chance(0.2) { 0.1 } else { 0.4 };
        if dist(a, e) < lmin || !seg_clear(&d, a, e) {
            continue;
        }
        let _ = tjunction;
        // relation to the previous segments
        let ok = d.segs.iter().all(|(x, y)| {
            let (x, y) = (*x, *y);
            let ang = {
                let (u, v) = ((e.0 - a.0, e.1 - a.1), (y.0 - x.0, y.1 - x.1));
                (u.0 * v.1 - u.1 * v.0).abs() / (u.0.hypot(u.1) * v.0.hypot(v.1))
            };
            if !segments_touch(a, e, x, y) {
                // keep clear of ill-conditioned near-incidences
                return [x, y].iter().all(|q| dist_point_segment(a, e, *q) > 0.03)
                    && [a, e].iter().all(|q| dist_point_segment(x, y, *q) > 0.03);
            }
            if over && orient(a, e, x) == 0 && orient(a, e, y) == 0 {
                return true;
            }
            if !o.incidences || ang < 0.2 {
                return false;
            }
            let far = |p: P, q: P, t: P| dist_point_segment(p, q, t) > 0.05;
            if segments_cross(a, e, x, y) {
                return far(a, e, x) && far(a, e, y) && far(x, y, a) && far(x, y, e);
            }
            // shared endpoint or T junction: exactly one incidence
            let inc = [x, y].iter().filter(|q| on_segment(a, e, **q)).count() + [a, e].iter().filter(|q| on_segment(x, y, **q)).count();
            let shared = [x, y].contains(&a) || [x, y].contains(&e);
            if shared {
                inc == 2 && [x, y].iter().all(|q| on_segment(a, e, *q) || far(a, e, *q)) && [a, e].iter().all(|q| on_segment(x, y, *q) || far(x, y, *q))
            } else {
                d.exact && inc == 1
            }
        });
        if !ok {
            continue;
        }
        d.segs.push((a, e));
        // crossing points must be apart from each other and from the endpoints
        let mut pts: Vec<P> = d.crossings().iter().map(|x| x.0).collect();
        let ends: Vec<P> = d.segs.iter().flat_map(|s| [s.0, s.1]).collect();
        let apart = pts.iter().enumerate().all(|(i, p)| pts[..i].iter().all(|q| dist(*p, *q) > 0.03) && ends.iter().all(|q| dist(*p, *q) > 0.03));
        pts.clear();
        if !apart {
            d.segs.pop();
        }
    }
    let nv = if r.chance(0.2) { 0 } else { r.below(o.max_verts + 1) };
    tries = 0;
    let vm = r.below(4);
    let cluster = if o.stretch && r.chance(0.2) { 2f64.powi(-(r.range(6, 20) as i32)) } else { 0.0 };
    let apart = if cluster > 0.0 { cluster / 4.0 } else { 0.01 };
    while (d.verts.len() as u64) < nv {
        tries += 1;
        if tries > 300 {
            break;
        }
        let mut q = point(r, if vm == 1 { Coord::Int } else { c }, 4.0);
        if cluster > 0.0 && r.chance(0.7) {
            // very close to another vertex, or to an end of a segment or ring edge
            let ends: Vec<P> = d.segs.iter().chain(d.ring_edges().iter()).flat_map(|s| [s.0, s.1]).chain(d.verts.iter().cloned()).collect();
            let e = *r.pick(&ends);
            let step = cluster * 2f64.powi(r.range(0, 10) as i32);
            q = if d.exact {
                (e.0 + step * r.range(-4, 4) as f64, e.1 + step * r.range(-4, 4) as f64)
            } else {
                (e.0 + step * r.uniform(-1., 1.), e.1 + step * r.uniform(-1., 1.))
            };
        } else if vm == 2 && r.chance(0.4) {
            // very close to the rings
            let e = *r.pick(&d.ring_edges());
            let t = r.uniform(0.1, 0.9);
            let m = (e.0 .0 + t * (e.1 .0 - e.0 .0), e.0 .1 + t * (e.1 .1 - e.0 .1));
            q = snap((m.0 + r.uniform(-0.1, 0.1), m.1 + r.uniform(-0.1, 0.1)), if c == Coord::Int { Coord::Dyadic } else { c });
        }
        if o.incidences && r.chance(0.15) && !d.segs.is_empty() {
            let s = *r.pick(&d.segs);
            let m = match r.below(3) {
                0 => s.0,
                1 => s.1,
                _ => ((s.0 .0 + s.1 .0) / 2., (s.0 .1 + s.1 .1) / 2.),
            };
            if on_segment(s.0, s.1, m) && (m == s.0 || m == s.1 || d.exact) {
                q = m;
            }
        }
        if !d.inside(q) || d.verts.contains(&q) {
            continue;
        }
        let lim = if d.exact { 0.0 } else { apart / 10.0 };
        if d.ring_edges().iter().any(|(x, y)| dist_point_segment(*x, *y, q) <= lim) {
            continue;
        }
        if d.segs.iter().any(|(x, y)| {
            let dd = dist_point_segment(*x, *y, q);
            let on = on_segment(*x, *y, q);
            (on && !o.incidences) || (!on && dd < apart)
        }) {
            continue;
        }
        if d.crossings().iter().any(|x| dist(x.0, q) < 0.02) {
            continue;
        }
        if d.verts.iter().any(|x| dist(*x, q) < apart) {
            continue;
        }
        d.verts.push(q);
    }
    if o.transforms && r.chance(0.4) {
        let d2 = if r.chance(0.5) {
            let k = r.range(if cluster > 0.0 { -8 } else { -24 }, 24);
            let s = 2f64.powi(k as i32);
            let off = if cluster > 0.0 || r.chance(0.5) { (0.0, 0.0) } else { (s * r.range(-4096, 4096) as f64, s * r.range(-4096, 4096) as f64) };
            let w = if o.stretch && d.exact && d.crossings().is_empty() && r.chance(0.3) { 2f64.powi(r.range(-7, 7) as i32) } else { 1.0 };
            let m = d.map(|q| (q.0 * s * w + off.0, q.1 * s + off.1));
            // exactness of the incidences must survive
            let back = m.map(|q| ((q.0 - off.0) / s / w, (q.1 - off.1) / s));
            if back.key() == d.key() { Some(m) } else { None }
        } else if d.segs.is_empty() && !d.exact && cluster == 0.0 {
            let (s, off) = *r.pick(&[(1e-3, (0., 0.)), (1e3, (0., 0.)), (1e9, (0., 0.)), (1e-9, (0., 0.)), (1.0, (500000., 4000000.)), (0.37, (1000., -77.))]);
            Some(d.map(|q| (q.0 * s + off.0, q.1 * s + off.1)))
        } else {
            None
        };
        if let Some(x) = d2 {
            if rings_ok(&x) {
                d = x;
                d.class.push_str("/moved");
            }
        }
    }
    Some(d)
}

/// distinct input points that must be vertices
pub fn wanted(d: &Domain) -> BTreeSet<(u64, u64)> {
    use crate::mesh::k;
    d.rings().flatten().chain(d.verts.iter()).map(|q| k(*q)).chain(d.segs.iter().flat_map(|s| [k(s.0), k(s.1)])).collect()
}
