//! P01..P06: the geometric predicates and measures against exact arithmetic.
//! Verdicts are demanded where the configuration is further from degenerate than the precision of
//! the coordinates can blur (64 eps, relative), and where it is exactly degenerate; in between, the
//! opposite verdict is refused.
use crate::ctx::*;
use crate::exact::*;
use crate::gen::*;
use crate::mesh::*;
use crate::props_tri::*;
use crate::rng::Rng;
use nlsn_delaunay::properties as pr;
use nlsn_delaunay::properties::continence::Continence;
use nlsn_delaunay::properties::orientation::Orientation;
use nlsn_delaunay::*;
use std::rc::Rc;

const E: f64 = f64::EPSILON;
const BATCH: usize = 64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// small integers: most configurations are degenerate
    Coarse,
    Dyadic,
    Float,
    /// degenerate ones moved by a few to many units in the last place
    Near,
}
pub struct Frame {
    pub style: Style,
    s: f64,
    off: P,
}
impl Frame {
    pub fn new(r: &mut Rng) -> Frame {
        let style = *r.pick(&[Style::Coarse, Style::Coarse, Style::Dyadic, Style::Float, Style::Near]);
        let s = if r.chance(0.5) { 1.0 } else { 2f64.powi(r.range(-40, 40) as i32) };
        let off = if r.chance(0.6) {
            (0., 0.)
        } else {
            let m = 1i64 << r.range(2, 20);
            (r.range(-m, m) as f64, r.range(-m, m) as f64)
        };
        Frame { style, s, off }
    }
    pub fn point(&self, r: &mut Rng) -> P {
        let q = match self.style {
            Style::Coarse | Style::Near => (r.range(-4, 4) as f64, r.range(-4, 4) as f64),
            Style::Dyadic => point(r, Coord::Dyadic, 8.0),
            Style::Float => point(r, Coord::Float, 8.0),
        };
        self.place(q)
    }
    pub fn place(&self, q: P) -> P {
        ((q.0 + self.off.0) * self.s, (q.1 + self.off.1) * self.s)
    }
    pub fn blur(&self, r: &mut Rng, q: P) -> P {
        if self.style != Style::Near {
            return q;
        }
        let m = q.0.abs().max(q.1.abs()).max(self.s);
        let d = m * E * 2f64.powi(r.range(0, 40) as i32);
        (q.0 + d * r.range(-1, 1) as f64, q.1 + d * r.range(-1, 1) as f64)
    }
}
fn mag(v: &[P]) -> f64 {
    v.iter().fold(0.0, |m, q| m.max(q.0.abs()).max(q.1.abs()))
}
fn key(v: &[P]) -> u64 {
    v.iter().fold(1469598103934665603u64, |h, q| ((h ^ q.0.to_bits()).wrapping_mul(1099511628211) ^ q.1.to_bits().rotate_left(11)).wrapping_mul(1099511628211))
}
/// +1, 0, -1 out of a value and its tolerance; None: either of zero and the sign of the value
fn demanded(val: f64, tol: f64) -> (i32, bool) {
    let s = if val > 0.0 { 1 } else if val < 0.0 { -1 } else { 0 };
    (s, s == 0 || val.abs() > tol)
}
/// judge a three-way verdict `got` against the demanded one
fn verdict(got: i32, want: (i32, bool)) -> bool {
    if want.1 {
        got == want.0
    } else {
        got == 0 || got == want.0
    }
}
fn o2i(o: Orientation) -> i32 {
    match o {
        Orientation::Counterclockwise => 1,
        Orientation::Clockwise => -1,
        Orientation::Colinear => 0,
    }
}
fn c2i(c: Continence) -> i32 {
    match c {
        Continence::Inside => 1,
        Continence::Outside => -1,
        Continence::Boundary => 0,
    }
}

/// P01
pub fn predicates(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let mut cs = vec![];
    for _ in 0..BATCH {
        let f = Frame::new(r);
        let mut q: Vec<P> = (0..4).map(|_| f.point(r)).collect();
        match r.below(4) {
            0 => {
                // a point over the line, often halfway
                let t = *r.pick(&[0.5, 0.25, 2.0, -1.0, 0.0, 1.0]);
                q[2] = (q[0].0 + t * (q[1].0 - q[0].0), q[0].1 + t * (q[1].1 - q[0].1));
            }
            1 => {
                // on the circle of the others: corner of a rectangle
                q[3] = (q[0].0 + q[2].0 - q[1].0, q[0].1 + q[2].1 - q[1].1);
                let (u, w) = ((q[0].0 - q[1].0, q[0].1 - q[1].1), (q[2].0 - q[1].0, q[2].1 - q[1].1));
                if u.0 * w.0 + u.1 * w.1 != 0.0 {
                    let l = (-u.1, u.0);
                    q[2] = (q[1].0 + l.0, q[1].1 + l.1);
                    q[3] = (q[0].0 + l.0, q[0].1 + l.1);
                }
            }
            _ => {}
        }
        let j = r.below(4) as usize;
        q[j] = f.blur(r, q[j]);
        cs.push(q);
    }
    let c2 = cs.clone();
    let got = guarded(r.next(), 10_000_000, log, move || {
        c2.iter()
            .map(|q| {
                let w: Vec<Rc<Vertex>> = q.iter().map(|q| v(*q)).collect();
                let ccw = orient(q[0], q[1], q[2]) >= 0;
                let (b, c) = if ccw { (1, 2) } else { (2, 1) };
                let g = Rc::new(Vertex::new_ghost());
                (
                    o2i(pr::orientation::orientation(&w[0], &w[1], &w[2])),
                    [
                        c2i(pr::continence::continence(&w[0], &w[b], &w[c], &w[3])),
                        c2i(Triangle::new(&w[0], &w[b], &w[c]).encircles(&w[3])),
                        c2i(Triangle::new(&w[b], &w[c], &w[0]).encircles(&w[3])),
                    ],
                    [c2i(pr::encroachment::encroach(&w[0], &w[1], &w[2])), c2i(Edge::new(&w[0], &w[1]).encroach(&w[2])), c2i(Edge::new(&w[1], &w[0]).encroach(&w[2]))],
                    c2i(Triangle::new(&w[0], &w[1], &g).encircles(&w[2])),
                )
            })
            .collect::<Vec<_>>()
    });
    let out = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, format!("{:?}", cs)),
        Got::Unknown => return,
    };
    for (q, (o, c, e, g)) in cs.iter().zip(out) {
        log.nontrivial(key(q));
        let ext3 = dist(q[0], q[1]) + dist(q[0], q[2]) + dist(q[1], q[2]);
        let ow = demanded(
            {
                let x = orient_ex(q[0], q[1], q[2]);
                if x.sign() == 0 { 0.0 } else { x.approx() }
            },
            64.0 * E * mag(&q[..3]) * ext3,
        );
        log.count(if ow.0 == 0 { "colinear triples" } else if ow.1 { "clearly oriented triples" } else { "blurred triples" }, 1);
        if !verdict(o, ow) {
            return log.violation("random", format!("orientation of {:?} is {} instead of {:?}", &q[..3], o, ow), format!("{:?}", q));
        }
        if !verdict(g, ow) {
            return log.violation("random", format!("the ghost over {:?} answers {} instead of {:?}", &q[..3], g, ow), format!("{:?}", q));
        }
        // in-circle; the triangle itself must be clearly oriented
        if ow.0 != 0 && ow.1 {
            let (b, c_) = if ow.0 > 0 { (1, 2) } else { (2, 1) };
            let val = incircle(q[0], q[b], q[c_], q[3]);
            let ext = (0..3).map(|i| dist(q[i], q[3])).fold(0.0, f64::max);
            let cw = demanded(val, 64.0 * E * mag(q) * ext.powi(3));
            log.count(if cw.0 == 0 { "cocircular quadruples" } else if cw.1 { "clear in-circle tests" } else { "blurred in-circle tests" }, 1);
            for (n, x) in c.iter().enumerate() {
                if !verdict(*x, cw) {
                    return log.violation("random", format!("in-circle test {} of {:?} is {} instead of {:?}", n, q, x, cw), format!("{:?}", q));
                }
            }
        }
        let x = Ex::diff(q[2].0, q[0].0).mul(&Ex::diff(q[2].0, q[1].0)).add(&Ex::diff(q[2].1, q[0].1).mul(&Ex::diff(q[2].1, q[1].1)));
        let ew = demanded(if x.sign() == 0 { 0.0 } else { -x.approx() }, 64.0 * E * mag(&q[..3]) * ext3);
        log.count(if ew.0 == 0 { "vertices on the diametral circle" } else if ew.1 { "clear diametral tests" } else { "blurred diametral tests" }, 1);
        for (n, y) in e.iter().enumerate() {
            if !verdict(*y, ew) {
                return log.violation("random", format!("encroachment test {} of {:?} is {} instead of {:?}", n, &q[..3], y, ew), format!("{:?}", q));
            }
        }
    }
    log.sample(|| format!("{:?}", &cs[..3]));
}

/// polygons of many shapes, either turn, placed by an exact similarity
pub fn polygon(r: &mut Rng) -> (Vec<P>, bool) {
    let c = *r.pick(&[Coord::Dyadic, Coord::Float, Coord::Int]);
    loop {
        let kind = r.below(8) as usize;
        let mut b = match kind {
            0..=4 => boundary(r, c, kind, 4.0).1,
            5 => {
                let n = r.range(4, 30) as usize;
                star(r, c, n, 4.0)
            }
            6 => histogram(r, 4, 4.0),
            _ => {
                // zigzag with many vertices at the same abscissa
                let n = r.range(2, 6);
                let mut v: Vec<P> = (0..=n).map(|i| ((i % 2) as f64, i as f64 - 3.)).collect();
                v.extend((0..=n).rev().map(|i| ((i % 2) as f64 - 2.0, i as f64 - 3.)));
                ccw(v)
            }
        };
        if !is_simple(&b) {
            continue;
        }
        if r.chance(0.3) {
            b = b.iter().map(|q| (q.1, q.0)).collect();
        }
        if r.chance(0.5) {
            b.reverse();
        }
        let k = r.below(b.len() as u64) as usize;
        b.rotate_left(k);
        let ex = b.iter().all(|q| snap(*q, Coord::Dyadic) == *q);
        return (b, ex);
    }
}
/// P02
pub fn point_in_polygon(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let (mut b, exact) = polygon(r);
    let mut qs: Vec<P> = vec![];
    for _ in 0..BATCH {
        let j = r.below(b.len() as u64) as usize;
        let (a, e) = (b[j], b[(j + 1) % b.len()]);
        qs.push(match r.below(7) {
            0 => a,
            1 => ((a.0 + e.0) / 2., (a.1 + e.1) / 2.),
            2 => (a.0, point(r, Coord::Dyadic, 5.0).1), // level with a vertex
            3 => (point(r, Coord::Dyadic, 5.0).0, a.1),
            4 => {
                let t = r.unit();
                let d = 2f64.powi(-(r.range(3, 45) as i32)) * if r.chance(0.5) { 1. } else { -1. };
                (a.0 + t * (e.0 - a.0) + d, a.1 + t * (e.1 - a.1) - 0.3 * d)
            }
            5 => point(r, Coord::Int, 5.0),
            _ => point(r, Coord::Float, 5.0),
        });
    }
    if r.chance(0.4) {
        let s = 2f64.powi(r.range(-30, 30) as i32);
        let off = if exact { (r.range(-1000, 1000) as f64, r.range(-1000, 1000) as f64) } else { (0., 0.) };
        let f = |q: &P| ((q.0 + off.0) * s, (q.1 + off.1) * s);
        b = b.iter().map(f).collect();
        qs = qs.iter().map(f).collect();
    }
    let (b2, q2) = (b.clone(), qs.clone());
    let got = guarded(r.next(), 10_000_000, log, move || {
        let pl = poly(&b2);
        let op = Polyline::new_opened(b2.iter().map(|q| v(*q)).collect()).unwrap();
        let bb = pl.bounding_box().unwrap();
        q2.iter().map(|q| (pl.contains(&v(*q)).map(c2i), op.contains(&v(*q)).map(c2i), bb.contains(&v(*q)))).collect::<Vec<_>>()
    });
    let out = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, format!("{:?}", b)),
        Got::Unknown => return,
    };
    let m = mag(&b);
    for (q, (c, o, bb)) in qs.iter().zip(out) {
        let l = locate(&b, *q);
        let near = (0..b.len()).map(|i| dist_point_segment(b[i], b[(i + 1) % b.len()], *q)).fold(f64::MAX, f64::min);
        let want = match l {
            Loc::In => 1,
            Loc::Out => -1,
            Loc::On => 0,
        };
        let sure = l == Loc::On || near > 64.0 * E * m.max(q.0.abs()).max(q.1.abs());
        log.count(match l { Loc::In => "points inside", Loc::Out => "points outside", Loc::On => "points on the polyline" }, 1);
        log.nontrivial(key(&b) ^ key(&[*q]));
        match c {
            Some(x) if verdict(x, (want, sure)) => {}
            _ => return log.violation("random", format!("continence of {:?} is {:?} instead of {}", q, c, want), format!("{:?}", b)),
        }
        if o.is_some() {
            return log.violation("random", "an opened polyline contains".into(), format!("{:?}", b));
        }
        let inbb = q.0 >= b.iter().map(|p| p.0).fold(f64::MAX, f64::min) && q.0 <= b.iter().map(|p| p.0).fold(f64::MIN, f64::max) && q.1 >= b.iter().map(|p| p.1).fold(f64::MAX, f64::min) && q.1 <= b.iter().map(|p| p.1).fold(f64::MIN, f64::max);
        if bb != inbb {
            return log.violation("random", format!("bounding box containing {:?}: {}", q, bb), format!("{:?}", b));
        }
    }
    log.sample(|| format!("{:?} with {:?}", b, &qs[..4]));
}

/// P03, P04: areas, circumcenters, ratios
pub fn measures(id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let mut cs: Vec<Vec<P>> = vec![];
    for _ in 0..BATCH {
        let f = Frame::new(r);
        let mut q: Vec<P> = (0..3).map(|_| f.point(r)).collect();
        if r.chance(0.2) {
            let t = *r.pick(&[0.5, 2.0, -1.0]);
            q[2] = (q[0].0 + t * (q[1].0 - q[0].0), q[0].1 + t * (q[1].1 - q[0].1));
        }
        cs.push(q);
    }
    let (pg, _) = polygon(r);
    let s = 2f64.powi(r.range(-20, 20) as i32);
    let off = (r.range(-500, 500) as f64, r.range(-500, 500) as f64);
    let pg: Vec<P> = pg.iter().map(|q| ((q.0 + off.0) * s, (q.1 + off.1) * s)).collect();
    let (c2, p2) = (cs.clone(), pg.clone());
    let got = guarded(r.next(), 10_000_000, log, move || {
        let pl = poly(&p2);
        let pairs = elements::polyline::vertex_pairs(&pl.vertices, pl.opened);
        let a = pr::area::area_segments(&pairs);
        let o = o2i(elements::polyline::segments_orientation(&pairs));
        let g = Rc::new(Vertex::new_ghost());
        let ts = c2
            .iter()
            .map(|q| {
                let w: Vec<Rc<Vertex>> = q.iter().map(|q| v(*q)).collect();
                let t = Triangle::new(&w[0], &w[1], &w[2]);
                let gt = Triangle::new(&w[0], &w[1], &g);
                (
                    pr::area::area_triangle(&w[0], &w[1], &w[2]),
                    t.area(),
                    t.quality(),
                    pr::circumcenter::circumcenter(&w[0], &w[1], &w[2]).map(|c| p(&c)),
                    t.circumcenter().map(|c| p(&c)),
                    p(&t.center()),
                    gt.area().is_some() || gt.quality().is_some() || gt.circumcenter().is_some(),
                )
            })
            .collect::<Vec<_>>();
        (a, o, ts)
    });
    let (a, o, ts) = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, format!("{:?} {:?}", pg, cs)),
        Got::Unknown => return,
    };
    if id == "P03" {
        let want = area2_ex(&pg).approx() / 2.0;
        let m = mag(&pg);
        let per: f64 = (0..pg.len()).map(|i| dist(pg[i], pg[(i + 1) % pg.len()])).sum();
        log.count("polylines measured", 1);
        if (a + want).abs() > 64.0 * E * m * per * pg.len() as f64 {
            return log.violation("random", format!("area of the segments is {} instead of {}", a, -want), format!("{:?}", pg));
        }
        if want.abs() > 1e-6 * per * per && o != want.signum() as i32 {
            return log.violation("random", format!("orientation of the segments is {} for an area of {}", o, want), format!("{:?}", pg));
        }
    }
    for (q, (at, t_area, ql, cc, tc, ce, ghost)) in cs.iter().zip(ts) {
        let ex = orient_ex(q[0], q[1], q[2]);
        let ar = ex.approx() / 2.0;
        let l = [dist(q[0], q[1]), dist(q[1], q[2]), dist(q[2], q[0])];
        let lmin = l.iter().cloned().fold(f64::MAX, f64::min);
        let ext: f64 = l.iter().sum();
        let m = mag(q);
        if lmin == 0.0 {
            continue;
        }
        log.nontrivial(key(q));
        if ghost {
            return log.violation("random", "a ghost triangle has measures".into(), format!("{:?}", q));
        }
        if id == "P03" {
            let tol = 32.0 * E * m * ext;
            if (at - ar).abs() > tol || t_area.map_or(true, |x| (x - ar).abs() > tol) {
                return log.violation("random", format!("area of {:?} is {} / {:?} instead of {}", q, at, t_area, ar), String::new());
            }
            let c = ((q[0].0 + q[1].0 + q[2].0) / 3., (q[0].1 + q[1].1 + q[2].1) / 3.);
            if dist(c, ce) > 16. * E * m {
                return log.violation("random", format!("center of {:?} is {:?}", q, ce), String::new());
            }
            continue;
        }
        let colinear = ex.sign() == 0;
        if colinear {
            log.count("colinear triples", 1);
        }
        // differences exact: degenerate means degenerate
        let exact = [(0, 1), (0, 2)].iter().all(|(i, j)| Ex::diff(q[*j].0, q[*i].0).0.len() < 2 && Ex::diff(q[*j].1, q[*i].1).0.len() < 2);
        if colinear && exact && (cc.is_some() || tc.is_some()) {
            let prod = |x: f64, y: f64| f64::mul_add(x, y, -(x * y)) == 0.0;
            let (u, w) = ((q[1].0 - q[0].0, q[1].1 - q[0].1), (q[2].0 - q[0].0, q[2].1 - q[0].1));
            if prod(u.0, w.1) && prod(u.1, w.0) {
                return log.violation("random", format!("colinear {:?} have the circumcenter {:?}", q, cc), String::new());
            }
        }
        let big_r = l[0] * l[1] * l[2] / (4.0 * ar.abs());
        let ratio = big_r / lmin;
        if colinear || !(ratio < 1000.0) || lmin < 1e-6 * m {
            continue;
        }
        log.count("circumcenters measured", 1);
        for (n, c) in [cc, tc].iter().enumerate() {
            match c {
                None => return log.violation("random", format!("no circumcenter ({}) of {:?}", n, q), String::new()),
                Some(c) => {
                    let tol = 64.0 * E * (big_r * ratio * ratio + m * ratio * ratio);
                    for w in q.iter() {
                        if (dist(*w, *c) - big_r).abs() > tol {
                            return log.violation("random", format!("circumcenter ({}) {:?} of {:?} is at {} instead of {}", n, c, q, dist(*w, *c), big_r), String::new());
                        }
                    }
                }
            }
        }
        if ar > 0.0 {
            let tol = 64.0 * E * ratio * ratio * (m / lmin);
            match ql {
                Some(x) if (x - ratio).abs() <= tol * ratio => {}
                _ => return log.violation("random", format!("quality of {:?} is {:?} instead of {}", q, ql, ratio), String::new()),
            }
            log.count("ratios measured", 1);
        }
    }
    log.sample(|| format!("{:?}", &cs[..3]));
}

/// P05
pub fn intersections(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let mut cs: Vec<Vec<P>> = vec![];
    while cs.len() < BATCH {
        let mut f = Frame::new(r);
        if f.style == Style::Near {
            f.style = Style::Dyadic;
        }
        let mut q: Vec<P> = (0..4).map(|_| f.point(r)).collect();
        match r.below(8) {
            0 => q[2] = q[r.below(2) as usize],
            1 => {
                let t = *r.pick(&[0.5, 0.25, 0.75]);
                q[2] = (q[0].0 + t * (q[1].0 - q[0].0), q[0].1 + t * (q[1].1 - q[0].1));
            }
            2 => {
                // colinear: overlapping, touching, apart
                let d = (q[1].0 - q[0].0, q[1].1 - q[0].1);
                let t = *r.pick(&[-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0]);
                let u = *r.pick(&[-1.5, -1.0, 0.25, 0.5, 1.0, 3.0]);
                q[2] = (q[0].0 + t * d.0, q[0].1 + t * d.1);
                q[3] = (q[0].0 + u * d.0, q[0].1 + u * d.1);
            }
            3 => {
                // parallel
                let d = (q[1].0 - q[0].0, q[1].1 - q[0].1);
                q[3] = (q[2].0 + d.0, q[2].1 + d.1);
            }
            4 => {
                q[1] = (q[0].0, q[1].1); // vertical
            }
            5 => {
                q[1] = (q[1].0, q[0].1);
                q[3] = (q[2].0, q[3].1);
            }
            _ => {}
        }
        if q[0] == q[1] || q[2] == q[3] {
            continue;
        }
        if r.chance(0.5) {
            q.swap(0, 1);
        }
        if r.chance(0.5) {
            q.swap(2, 3);
        }
        if r.chance(0.5) {
            q.rotate_left(2);
        }
        cs.push(q);
    }
    let c2 = cs.clone();
    let got = guarded(r.next(), 10_000_000, log, move || {
        c2.iter()
            .map(|q| {
                let w: Vec<Rc<Vertex>> = q.iter().map(|q| v(*q)).collect();
                pr::intersection::intersection(&w[0], &w[1], &w[2], &w[3]).map(|x| p(&x))
            })
            .collect::<Vec<_>>()
    });
    let out = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, format!("{:?}", cs)),
        Got::Unknown => return,
    };
    for (q, x) in cs.iter().zip(out) {
        log.nontrivial(key(q));
        let m = mag(q);
        let touch = segments_touch(q[0], q[1], q[2], q[3]);
        // distance from touching or from missing
        let ends = [(0, 1, 2), (0, 1, 3), (2, 3, 0), (2, 3, 1)];
        let g = ends.iter().filter(|(a, b, c)| !on_segment(q[*a], q[*b], q[*c])).map(|(a, b, c)| dist_point_segment(q[*a], q[*b], q[*c])).fold(f64::MAX, f64::min);
        let incident = ends.iter().any(|(a, b, c)| on_segment(q[*a], q[*b], q[*c]));
        let colinear = orient(q[0], q[1], q[2]) == 0 && orient(q[0], q[1], q[3]) == 0;
        if g < 1e-9 * dist(q[0], q[1]).max(dist(q[2], q[3])) || g < 1e4 * E * m {
            log.count("near incidences left out", 1);
            continue;
        }
        log.count(if !touch { "pairs apart" } else if colinear { "overlapping pairs" } else if incident { "touching pairs" } else { "crossing pairs" }, 1);
        match x {
            None if touch => return log.violation("random", format!("no intersection of {:?}", q), String::new()),
            Some(x) if !touch => return log.violation("random", format!("intersection {:?} of {:?}, which are apart", x, q), String::new()),
            Some(x) => {
                let d = dist_point_segment(q[0], q[1], x).max(dist_point_segment(q[2], q[3], x));
                // conditioning of the crossing: angle between the lines
                let (u, w) = ((q[1].0 - q[0].0, q[1].1 - q[0].1), (q[3].0 - q[2].0, q[3].1 - q[2].1));
                let sin = (u.0 * w.1 - u.1 * w.0).abs() / (u.0.hypot(u.1) * w.0.hypot(w.1));
                let tol = if colinear { 16.0 * E * m } else { 64.0 * E * m / sin };
                if d > tol {
                    return log.violation("random", format!("intersection {:?} of {:?} is {:e} away from them", x, q, d), String::new());
                }
                if incident && !colinear {
                    let e = ends.iter().find(|(a, b, c)| on_segment(q[*a], q[*b], q[*c])).unwrap().2;
                    if x != q[e] {
                        return log.violation("random", format!("intersection {:?} of {:?} is not their common end vertex", x, q), String::new());
                    }
                }
            }
            None => {}
        }
    }
    log.sample(|| format!("{:?}", &cs[..3]));
}

/// P06
pub fn vectors(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let mut cs: Vec<Vec<P>> = vec![];
    while cs.len() < BATCH {
        let mut f = Frame::new(r);
        if f.style == Style::Near {
            f.style = Style::Coarse;
        }
        let mut q: Vec<P> = (0..4).map(|_| f.point(r)).collect();
        if r.chance(0.3) {
            let t = *r.pick(&[-2.0, -1.0, 0.5, 1.0, 2.0]);
            q[3] = (q[2].0 + t * (q[1].0 - q[0].0), q[2].1 + t * (q[1].1 - q[0].1));
        }
        if r.chance(0.3) {
            let t = *r.pick(&[-2.0, -1.0, 0.5, 2.0]);
            q[2] = (q[1].0 + t * (q[1].0 - q[0].0), q[1].1 + t * (q[1].1 - q[0].1));
        }
        if q[0] == q[1] || q[1] == q[2] || q[2] == q[3] {
            continue;
        }
        cs.push(q);
    }
    let c2 = cs.clone();
    let got = guarded(r.next(), 10_000_000, log, move || {
        c2.iter()
            .map(|q| {
                let w: Vec<Rc<Vertex>> = q.iter().map(|q| v(*q)).collect();
                (
                    pr::parallel::parallel(&w[0], &w[1], &w[2], &w[3]),
                    [pr::distance::distance(&w[0], &w[1]), Edge::new(&w[0], &w[1]).length(), pr::distance::distance(&w[1], &w[0])],
                    [p(&pr::midpoint::midpoint(&w[0], &w[1])), p(&Edge::new(&w[0], &w[1]).midpoint())],
                    pr::dot::dot(&w[0], &w[1], &w[2], &w[3]),
                    pr::angle::angle(&w[0], &w[1], &w[2]),
                    pr::angle::angle(&w[2], &w[1], &w[0]),
                    pr::midpoint::midpoint(&w[0], &Vertex::new_ghost()).is_ghost,
                )
            })
            .collect::<Vec<_>>()
    });
    let out = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, format!("{:?}", cs)),
        Got::Unknown => return,
    };
    for (q, (par, d, mid, dt, an, na, gh)) in cs.iter().zip(out) {
        log.nontrivial(key(q));
        let m = mag(q);
        let bad = |what: String| format!("{} for {:?}", what, q);
        let (u, w) = ((q[1].0 - q[0].0, q[1].1 - q[0].1), (q[3].0 - q[2].0, q[3].1 - q[2].1));
        let cr = Ex::diff(q[1].0, q[0].0).mul(&Ex::diff(q[3].1, q[2].1)).sub(&Ex::diff(q[1].1, q[0].1).mul(&Ex::diff(q[3].0, q[2].0)));
        // parallel: products of small dyadic differences are exact
        let exact = [u.0, u.1, w.0, w.1].iter().all(|x| x.to_bits() & ((1 << 27) - 1) == 0) && (0..4).all(|i| Ex::diff(q[i].0, q[(i + 1) % 4].0).0.len() < 2 && Ex::diff(q[i].1, q[(i + 1) % 4].1).0.len() < 2);
        let sin = (u.0 * w.1 - u.1 * w.0).abs() / (u.0.hypot(u.1) * w.0.hypot(w.1));
        if (exact && par != (cr.sign() == 0)) || (par && sin > 1e-6) {
            return log.violation("random", bad(format!("parallel is {}", par)), String::new());
        }
        log.count(if cr.sign() == 0 { "parallel pairs" } else { "pairs not parallel" }, 1);
        let l = dist(q[0], q[1]);
        if d.iter().any(|x| (x - l).abs() > 8.0 * E * l) {
            return log.violation("random", bad(format!("distance is {:?}", d)), String::new());
        }
        let mm = ((q[0].0 + q[1].0) / 2., (q[0].1 + q[1].1) / 2.);
        if mid.iter().any(|x| dist(*x, mm) > 4.0 * E * m) || !gh {
            return log.violation("random", bad(format!("midpoint is {:?}", mid)), String::new());
        }
        let want = u.0 * w.0 + u.1 * w.1;
        if (dt - want).abs() > 16.0 * E * (u.0 * w.0).abs().max((u.1 * w.1).abs()) {
            return log.violation("random", bad(format!("dot product is {} instead of {}", dt, want)), String::new());
        }
        // angle a b c, counterclockwise from bc to ba
        let (ba, bc) = ((q[0].0 - q[1].0, q[0].1 - q[1].1), (q[2].0 - q[1].0, q[2].1 - q[1].1));
        let tau = std::f64::consts::TAU;
        let th = (bc.0 * ba.1 - bc.1 * ba.0).atan2(bc.0 * ba.0 + bc.1 * ba.1);
        let th = if th < 0.0 { th + tau } else { th };
        let _ = th;
        let sgn = orient(q[0], q[1], q[2]);
        let base = ((ba.0 * bc.0 + ba.1 * bc.1) / (ba.0.hypot(ba.1) * bc.0.hypot(bc.1))).max(-1.0).min(1.0);
        // stable: the unsigned angle by atan2
        let un = (ba.0 * bc.1 - ba.1 * bc.0).abs().atan2(ba.0 * bc.0 + ba.1 * bc.1);
        let _ = base;
        let want = if sgn < 0 { tau - un } else { un };
        let blurred = sgn != 0 && orient_ex(q[0], q[1], q[2]).approx().abs() <= 64.0 * E * m * (ba.0.hypot(ba.1) + bc.0.hypot(bc.1));
        if !blurred {
            for (n, (got, want)) in [(an, want), (na, if sgn == 0 { un } else { tau - want })].iter().enumerate() {
                match got {
                    Some(x) if (x - want).abs() <= 1e-7 => {}
                    _ => return log.violation("random", bad(format!("angle ({}) is {:?} instead of {}", n, got, want)), String::new()),
                }
            }
            log.count("angles measured", 1);
        }
    }
    log.sample(|| format!("{:?}", &cs[..3]));
}
