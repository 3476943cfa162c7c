//! Regions {q : f(q in P1, .., q in Pn)} of simple polygons by slabs: area, connected components,
//! pockets, and vertices where the region touches itself.
use crate::domain::poly_edges;
use crate::exact::*;

pub type Pred<'a> = &'a dyn Fn(&[bool]) -> bool;
pub struct Parts {
    pub areas: Vec<f64>,
    /// areas of the bounded components of the complement
    pub pockets: Vec<f64>,
}
impl Parts {
    pub fn area(&self) -> f64 {
        self.areas.iter().sum()
    }
}
fn meet(p: P, q: P, s: P, t: P) -> P {
    let (u, w) = ((q.0 - p.0, q.1 - p.1), (t.0 - s.0, t.1 - s.1));
    let d = u.0 * w.1 - u.1 * w.0;
    let x = ((s.0 - p.0) * w.1 - (s.1 - p.1) * w.0) / d;
    (p.0 + x * u.0, p.1 + x * u.1)
}
/// proper crossings between edges of different polygons
pub fn crossings(ps: &[Vec<P>]) -> Vec<P> {
    let mut v = vec![];
    for i in 0..ps.len() {
        for j in i + 1..ps.len() {
            for (p, q) in poly_edges(&ps[i]) {
                for (s, t) in poly_edges(&ps[j]) {
                    if segments_cross(p, q, s, t) {
                        v.push(meet(p, q, s, t));
                    }
                }
            }
        }
    }
    v
}
struct Trap {
    bottom: (f64, f64),
    top: (f64, f64),
    area: f64,
    slab: usize,
}
fn find(u: &mut Vec<usize>, mut i: usize) -> usize {
    while u[i] != i {
        u[i] = u[u[i]];
        i = u[i];
    }
    i
}
pub fn parts(ps: &[Vec<P>], f: Pred) -> Parts {
    let all: Vec<P> = ps.iter().flatten().cloned().collect();
    if all.is_empty() {
        return Parts { areas: vec![], pockets: vec![] };
    }
    let ext = all.iter().fold(0.0f64, |m, q| m.max((q.0 - all[0].0).abs()).max((q.1 - all[0].1).abs()));
    let big = 4.0 * ext;
    let mut ys: Vec<f64> = all.iter().map(|q| q.1).chain(crossings(ps).iter().map(|q| q.1)).collect();
    ys.push(all[0].1 - big);
    ys.push(all[0].1 + big);
    ys.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ys.dedup_by(|a, b| (*a - *b).abs() < 1e-12 * ext);
    let out = [true, false].map(|inside| {
        let mut traps: Vec<Trap> = vec![];
        for (slab, w) in ys.windows(2).enumerate() {
            let (y0, y1) = (w[0], w[1]);
            let y = (y0 + y1) / 2.0;
            let mut xs: Vec<(f64, usize, P, P)> = vec![];
            for (k, poly) in ps.iter().enumerate() {
                for (p, q) in poly_edges(poly) {
                    if (p.1 > y) != (q.1 > y) {
                        xs.push((p.0 + (q.0 - p.0) * ((y - p.1) / (q.1 - p.1)), k, p, q));
                    }
                }
            }
            xs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let at = |i: usize, y: f64| {
                let (_, _, p, q) = xs[i];
                p.0 + (q.0 - p.0) * ((y - p.1) / (q.1 - p.1))
            };
            let mut flags = vec![false; ps.len()];
            let (l, r) = (all[0].0 - big, all[0].0 + big);
            let mut open: Option<(f64, f64, f64)> = if f(&flags) == inside { Some((l, l, l)) } else { None };
            let mut i = 0;
            while i < xs.len() {
                // edges that coincide change the flags together
                let mut j = i;
                while j < xs.len() && xs[j].0 - xs[i].0 < 1e-12 * ext {
                    flags[xs[j].1] ^= true;
                    j += 1;
                }
                let now = f(&flags) == inside;
                let x = (at(i, y0), xs[i].0, at(i, y1));
                match (open, now) {
                    (None, true) => open = Some(x),
                    (Some(o), false) => {
                        traps.push(Trap { bottom: (o.0, x.0), top: (o.2, x.2), area: (x.1 - o.1) * (y1 - y0), slab });
                        open = None;
                    }
                    _ => {}
                }
                i = j;
            }
            if let Some(o) = open {
                traps.push(Trap { bottom: (o.0, r), top: (o.2, r), area: (r - o.1) * (y1 - y0), slab });
            }
        }
        let mut u: Vec<usize> = (0..traps.len()).collect();
        for i in 0..traps.len() {
            for j in i + 1..traps.len() {
                if traps[j].slab > traps[i].slab + 1 {
                    break;
                }
                if traps[j].slab == traps[i].slab + 1 && traps[i].top.1.min(traps[j].bottom.1) - traps[i].top.0.max(traps[j].bottom.0) > 1e-9 * ext {
                    let (a, b) = (find(&mut u, i), find(&mut u, j));
                    u[a] = b;
                }
            }
        }
        let outer = if inside || traps.is_empty() { usize::MAX } else { find(&mut u, 0) };
        let mut areas = std::collections::BTreeMap::new();
        for i in 0..traps.len() {
            let c = find(&mut u, i);
            if c != outer {
                *areas.entry(c).or_insert(0.0) += traps[i].area;
            }
        }
        areas.values().cloned().filter(|a| *a > 1e-9 * ext * ext).collect::<Vec<f64>>()
    });
    let [areas, pockets] = out;
    Parts { areas, pockets }
}
/// some vertex has more than two boundary edges of the region
pub fn pinched(ps: &[Vec<P>], f: Pred) -> bool {
    let mut cand = crossings(ps);
    for i in 0..ps.len() {
        for j in 0..ps.len() {
            if i != j {
                cand.extend(ps[i].iter().filter(|q| locate(&ps[j], **q) == Loc::On));
            }
        }
    }
    cand.iter().any(|c| {
        let mut dirs: Vec<f64> = vec![];
        for (p, q) in ps.iter().flat_map(|p| poly_edges(p)) {
            if dist_point_segment(p, q, *c) < 1e-7 {
                for e in [p, q] {
                    if dist(e, *c) > 1e-7 {
                        dirs.push((e.1 - c.1).atan2(e.0 - c.0));
                    }
                }
            }
        }
        dirs.sort_by(|x, y| x.partial_cmp(y).unwrap());
        dirs.dedup_by(|x, y| (*x - *y).abs() < 1e-9);
        let n = dirs.len();
        let state: Vec<bool> = (0..n)
            .map(|i| {
                let (x, mut y) = (dirs[i], dirs[(i + 1) % n]);
                if i + 1 == n {
                    y += std::f64::consts::TAU;
                }
                let m = (x + y) / 2.0;
                let q = (c.0 + 1e-5 * m.cos(), c.1 + 1e-5 * m.sin());
                f(&ps.iter().map(|p| locate(p, q) == Loc::In).collect::<Vec<_>>())
            })
            .collect();
        (0..n).filter(|i| state[*i] != state[(*i + 1) % n]).count() > 2
    })
}
/// everything meets exactly, or clearly misses
pub fn well_separated(ps: &[Vec<P>], gap: f64) -> bool {
    for i in 0..ps.len() {
        for j in 0..ps.len() {
            if i != j && ps[i].iter().any(|q| poly_edges(&ps[j]).any(|(x, y)| !on_segment(x, y, *q) && dist_point_segment(x, y, *q) < gap)) {
                return false;
            }
        }
    }
    let c = crossings(ps);
    (0..c.len()).all(|i| (0..i).all(|j| {
        let d = dist(c[i], c[j]);
        d < 1e-12 || d > gap
    }) && ps.iter().flatten().all(|q| {
        let d = dist(c[i], *q);
        d < 1e-12 || d > gap
    }))
}
