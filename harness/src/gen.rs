//! Workload generators: valid domains (checked with exact predicates) of many shapes.
use crate::exact::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
pub struct Domain {
    pub class: String,
    pub boundary: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub segs: Vec<(P, P)>,
    pub verts: Vec<P>,
    /// coordinates on a grid where incidences are exact
    pub exact: bool,
}

pub fn convex_hull(mut pts: Vec<P>) -> Vec<P> {
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    pts.dedup();
    if pts.len() < 3 {
        return pts;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for p in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut pts.iter().cloned());
    let hi = half(&mut pts.iter().rev().cloned());
    lo.extend(hi);
    lo
}

/// Coordinate style.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Coord {
    /// multiples of 1/64, |x| <= 4: every 2x2/3x3 determinant is exact in f64
    Dyadic,
    /// arbitrary doubles in [-4,4]
    Float,
    /// multiples of 1/2: many cocircular and colinear points
    Int,
}

pub fn point(r: &mut Rng, c: Coord, lim: f64) -> P {
    match c {
        Coord::Dyadic => {
            let k = (lim * 64.0) as i64;
            (r.range(-k, k) as f64 / 64.0, r.range(-k, k) as f64 / 64.0)
        }
        Coord::Float => (r.uniform(-lim, lim), r.uniform(-lim, lim)),
        Coord::Int => {
            let k = (lim * 2.0) as i64;
            (r.range(-k, k) as f64 / 2.0, r.range(-k, k) as f64 / 2.0)
        }
    }
}
pub fn snap(p: P, c: Coord) -> P {
    match c {
        Coord::Dyadic => ((p.0 * 64.0).round() / 64.0, (p.1 * 64.0).round() / 64.0),
        Coord::Float => p,
        Coord::Int => ((p.0 * 2.0).round() / 2.0, (p.1 * 2.0).round() / 2.0),
    }
}

pub fn ccw(mut v: Vec<P>) -> Vec<P> {
    if area2_ex(&v).sign() < 0 {
        v.reverse();
    }
    v
}

pub fn convex(r: &mut Rng, c: Coord, n: usize, lim: f64) -> Vec<P> {
    loop {
        let pts: Vec<P> = (0..n).map(|_| point(r, c, lim)).collect();
        let h = convex_hull(pts);
        if h.len() >= 3 && area2_ex(&h).approx() > 0.5 {
            let k = r.below(h.len() as u64) as usize;
            let mut h2 = h[k..].to_vec();
            h2.extend_from_slice(&h[..k]);
            return h2;
        }
    }
}
pub fn star(r: &mut Rng, c: Coord, n: usize, lim: f64) -> Vec<P> {
    let mut c = c;
    let mut tries = 0;
    loop {
        tries += 1;
        if tries > 40 && c == Coord::Int {
            c = Coord::Dyadic;
        }
        let mut v = vec![];
        let off = r.uniform(0.0, 6.28);
        for i in 0..n {
            let a = off + (i as f64 + r.uniform(0.1, 0.9)) * std::f64::consts::TAU / n as f64;
            let rad = r.uniform(0.4, 1.0) * lim;
            v.push(snap((rad * a.cos(), rad * a.sin()), c));
        }
        if is_simple(&v) && area2_ex(&v).sign() > 0 {
            return v;
        }
    }
}
pub fn regular(r: &mut Rng, c: Coord, n: usize, lim: f64) -> Vec<P> {
    let mut c = c;
    let mut tries = 0;
    loop {
        tries += 1;
        if tries > 5 && c == Coord::Int {
            c = Coord::Dyadic;
        }
        let off = if r.chance(0.5) { 0.0 } else { r.uniform(0.0, 6.28) };
        let v: Vec<P> = (0..n)
            .map(|i| {
                let a = off + i as f64 * std::f64::consts::TAU / n as f64;
                snap((lim * a.cos(), lim * a.sin()), c)
            })
            .collect();
        if is_simple(&v) && area2_ex(&v).sign() > 0 {
            return v;
        }
    }
}
pub fn rect(x0: f64, y0: f64, x1: f64, y1: f64) -> Vec<P> {
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}
/// Rectilinear histogram polygon.
pub fn histogram(r: &mut Rng, cols: usize, lim: f64) -> Vec<P> {
    let w = (2.0 * lim / cols as f64 * 64.0).floor() / 64.0;
    let mut v = vec![(-lim, -lim), (-lim + w * cols as f64, -lim)];
    let mut prev = i64::MIN;
    for i in (0..cols).rev() {
        let mut h;
        loop {
            h = r.range(1, 8);
            if h != prev {
                break;
            }
        }
        prev = h;
        let y = -lim + h as f64 * (lim / 4.0);
        v.push((-lim + w * (i + 1) as f64, y));
        v.push((-lim + w * i as f64, y));
    }
    v
}

pub fn boundary(r: &mut Rng, c: Coord, kind: usize, lim: f64) -> (&'static str, Vec<P>) {
    match kind {
        0 => {
            let n = r.range(3, 12) as usize;
            ("convex", convex(r, c, n, lim))
        }
        1 => {
            let n = r.range(5, 14) as usize;
            ("star", star(r, c, n, lim))
        }
        2 => {
            let n = r.range(3, 24) as usize;
            ("regular", regular(r, c, n, lim))
        }
        3 => {
            let n = r.range(2, 5) as usize;
            ("histogram", histogram(r, n, lim))
        }
        _ => ("square", rect(-lim, -lim, lim, lim)),
    }
}
