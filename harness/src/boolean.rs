//! Reference for polygon booleans: slab decomposition areas and membership.
use crate::exact::*;

fn cross_x(a: P, b: P, y: f64) -> f64 { a.0 + (b.0 - a.0) * ((y - a.1) / (b.1 - a.1)) }
/// area of {p : f(p in A, p in B)} by horizontal slabs
pub fn area_op(a: &[P], b: &[P], f: impl Fn(bool, bool) -> bool) -> f64 {
    let mut ys: Vec<f64> = a.iter().chain(b.iter()).map(|p| p.1).collect();
    let es = |p: &[P]| -> Vec<(P, P)> { (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect() };
    let (ea, eb) = (es(a), es(b));
    for (p, q) in &ea { for (r, s) in &eb {
        let d = (q.0 - p.0) * (s.1 - r.1) - (q.1 - p.1) * (s.0 - r.0);
        if d != 0.0 { let t = ((r.0 - p.0) * (s.1 - r.1) - (r.1 - p.1) * (s.0 - r.0)) / d; if t > -1e-9 && t < 1.0 + 1e-9 { ys.push(p.1 + t * (q.1 - p.1)); } }
    } }
    ys.sort_by(|x, y| x.partial_cmp(y).unwrap());
    ys.dedup();
    let mut tot = 0.0;
    for w in ys.windows(2) {
        let y = 0.5 * (w[0] + w[1]); let h = w[1] - w[0];
        if h <= 0.0 || y <= w[0] || y >= w[1] { continue; }
        let mut xs: Vec<(f64, usize)> = vec![];
        for (k, e) in [&ea, &eb].iter().enumerate() { for (p, q) in e.iter() { if (p.1 > y) != (q.1 > y) { xs.push((cross_x(*p, *q, y), k)); } } }
        xs.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let (mut ia, mut ib) = (false, false);
        for i in 0..xs.len() { if xs[i].1 == 0 { ia = !ia } else { ib = !ib } if i + 1 < xs.len() && f(ia, ib) { tot += (xs[i + 1].0 - xs[i].0) * h; } }
    }
    tot
}
pub fn area(p: &[P]) -> f64 { area2_ex(p).approx() / 2.0 }
/// distance from q to the polygon's boundary
pub fn edge_dist(p: &[P], q: P) -> f64 { (0..p.len()).map(|i| dist_point_segment(p[i], p[(i + 1) % p.len()], q)).fold(f64::MAX, f64::min) }
