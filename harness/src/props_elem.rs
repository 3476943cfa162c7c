//! E01..E04: edges, polylines, triangles and boxes as building blocks; B01: the bookkeeping of a
//! triangulation. Coordinates are integers in a frame (scaled by a power of two, shifted), so that the
//! model, on integers, is exact.
use crate::ctx::*;
use crate::exact::*;
use crate::mesh::*;
use crate::props_bool::grid_polygon;
use crate::props_pred::polygon;
use crate::props_tri::*;
use crate::rng::Rng;
use nlsn_delaunay::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

type I = (i64, i64);
type S = (I, I);
#[derive(Clone, Copy, Debug)]
struct Grid {
    s: f64,
    off: I,
}
impl Grid {
    fn new(r: &mut Rng) -> Grid {
        let s = if r.chance(0.5) { 1.0 } else { 2f64.powi(r.range(-30, 30) as i32) };
        let off = if r.chance(0.6) {
            (0, 0)
        } else {
            let m = 1i64 << r.range(2, 20);
            (r.range(-m, m), r.range(-m, m))
        };
        Grid { s, off }
    }
    fn p(&self, q: I) -> P {
        ((q.0 + self.off.0) as f64 * self.s, (q.1 + self.off.1) as f64 * self.s)
    }
    fn back(&self, q: P) -> I {
        ((q.0 / self.s) as i64 - self.off.0, (q.1 / self.s) as i64 - self.off.1)
    }
    fn v(&self, q: I) -> Rc<Vertex> {
        v(self.p(q))
    }
    fn e(&self, s: S) -> Rc<Edge> {
        Rc::new(Edge::new(&self.v(s.0), &self.v(s.1)))
    }
    fn of(&self, e: &Edge) -> S {
        (self.back(p(&e.v1)), self.back(p(&e.v2)))
    }
}
fn sub(a: I, b: I) -> I {
    (a.0 - b.0, a.1 - b.1)
}
fn cross(a: I, b: I) -> i64 {
    a.0 * b.1 - a.1 * b.0
}
fn dot(a: I, b: I) -> i64 {
    a.0 * b.0 + a.1 * b.1
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// the directed line of a segment
fn line(s: S) -> (I, i64) {
    let d = sub(s.1, s.0);
    let g = gcd(d.0, d.1);
    let d = (d.0 / g, d.1 / g);
    (d, cross(d, s.0))
}
fn fold(v: impl Iterator<Item = I>) -> u64 {
    v.fold(1469598103934665603, |h: u64, q| ((h ^ q.0 as u64).wrapping_mul(1099511628211) ^ (q.1 as u64).rotate_left(17)).wrapping_mul(1099511628211))
}
fn fail<T>(g: Got<T>, log: &mut Log, input: &str) -> Option<T> {
    match g {
        Got::Ok(x, _) => Some(x),
        Got::Bad(e) => {
            log.violation("random", e, input.to_string());
            None
        }
        Got::Unknown => None,
    }
}

/// edges along a few lines, some of them over one another if wanted
fn edges_on_lines(r: &mut Rng, overlap: bool) -> Vec<S> {
    let mut out: BTreeSet<S> = BTreeSet::new();
    for _ in 0..r.range(1, 4) {
        let d = *r.pick(&[(1, 0), (0, 1), (1, 1), (2, 1), (-1, 2), (1, -1), (3, -2)]);
        let d = if r.chance(0.5) { d } else { (-d.0, -d.1) };
        let b = (r.range(-3, 3), r.range(-3, 3));
        let mut ts: Vec<i64> = (0..r.range(2, 7)).map(|_| r.range(-5, 5)).collect();
        ts.sort();
        ts.dedup();
        let q = |t: i64| (b.0 + t * d.0, b.1 + t * d.1);
        let keep = *r.pick(&[1.0, 0.8, 0.5]);
        for w in ts.windows(2) {
            if r.chance(keep) {
                out.insert((q(w[0]), q(w[1])));
            }
            if r.chance(0.3) {
                out.insert((q(w[1]), q(w[0])));
            }
        }
        if overlap && ts.len() > 2 {
            for _ in 0..r.below(3) {
                let (i, j) = (r.below(ts.len() as u64) as usize, r.below(ts.len() as u64) as usize);
                if i != j {
                    out.insert((q(ts[i]), q(ts[j])));
                }
            }
        }
    }
    let mut v: Vec<S> = out.into_iter().collect();
    r.shuffle(&mut v);
    v
}
/// are there two edges of the same direction over one another?
fn overlapping(v: &[S]) -> bool {
    v.iter().enumerate().any(|(i, a)| {
        v[..i].iter().any(|b| {
            line(*a) == line(*b) && {
                let d = line(*a).0;
                dot(a.0, d).max(dot(b.0, d)) < dot(a.1, d).min(dot(b.1, d))
            }
        })
    })
}
/// the points covered on each directed line, as disjoint intervals
fn covered(v: &[S]) -> BTreeMap<(I, i64), Vec<(i64, i64)>> {
    let mut m: BTreeMap<(I, i64), Vec<(i64, i64)>> = BTreeMap::new();
    for s in v {
        let l = line(*s);
        m.entry(l).or_default().push((dot(s.0, l.0), dot(s.1, l.0)));
    }
    for iv in m.values_mut() {
        iv.sort();
        let mut u: Vec<(i64, i64)> = vec![];
        for x in iv.iter() {
            match u.last_mut() {
                Some(y) if x.0 <= y.1 => y.1 = y.1.max(x.1),
                _ => u.push(*x),
            }
        }
        *iv = u;
    }
    m
}
/// is there a chain of the edges from a to b?
fn chain(v: &[S], a: I, b: I) -> bool {
    let l = line((a, b));
    let mut reach: BTreeSet<I> = BTreeSet::new();
    let mut todo = vec![a];
    while let Some(x) = todo.pop() {
        if x == b {
            return true;
        }
        if reach.insert(x) {
            todo.extend(v.iter().filter(|s| s.0 == x && line(**s) == l).map(|s| s.1));
        }
    }
    false
}
/// E01
pub fn edges(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let overlap = i % 3 == 0;
    let base = loop {
        let b = edges_on_lines(r, overlap);
        if !b.is_empty() {
            break b;
        }
    };
    let g = Grid::new(r);
    // segments to decompose: along the lines, over gaps, past their ends, or elsewhere
    let mut qs: Vec<S> = vec![];
    for _ in 0..6 {
        let a = *r.pick(&base);
        let b = *r.pick(&base);
        let s = match r.below(4) {
            0 => (a.0, b.1),
            1 => (a.0, a.1),
            2 => {
                let d = line(a).0;
                let t = r.range(1, 8);
                (a.0, (a.0 .0 + t * d.0, a.0 .1 + t * d.1))
            }
            _ => {
                // the farthest end that a chain along a reaches
                let mut e = a.1;
                while let Some(n) = base.iter().find(|s| s.0 == e && line(**s) == line(a)) {
                    e = n.1;
                }
                (a.0, e)
            }
        };
        if s.0 != s.1 {
            qs.push(s);
        }
    }
    let input = format!("grid={:?} edges={:?} segments={:?}", g, base, qs);
    let (b2, q2) = (base.clone(), qs.clone());
    let got = guarded(r.next(), 20_000_000, log, move || {
        let set: HashSet<Rc<Edge>> = b2.iter().map(|s| g.e(*s)).collect();
        let joined: Vec<S> = Edge::arrange(&set).iter().map(|e| g.of(e)).collect();
        let parts: Vec<Option<Vec<S>>> = q2.iter().map(|s| Edge::decompose(&set, &g.e(*s)).map(|l| l.iter().map(|e| g.of(e)).collect())).collect();
        (joined, parts, set.len())
    });
    let (joined, parts, n) = match fail(got, log, &input) {
        Some(x) => x,
        None => return,
    };
    log.nontrivial(fold(base.iter().flat_map(|s| vec![s.0, s.1])) ^ overlap as u64);
    let bad = |log: &mut Log, what: String| log.violation("random", what, input.clone());
    if n != base.len() {
        return bad(log, format!("a set of {} different edges has {} elements", base.len(), n));
    }
    log.count("edges joined", base.len() as u64);
    if covered(&joined) != covered(&base) {
        return bad(log, format!("joined edges {:?} don't cover the same points", joined));
    }
    for e in &joined {
        if !chain(&base, e.0, e.1) {
            return bad(log, format!("joined edge {:?} is no chain of edges", e));
        }
        if let Some(f) = joined.iter().find(|f| e.1 == f.0 && line(*e) == line(**f)) {
            return bad(log, format!("{:?} and {:?} were not joined", e, f));
        }
    }
    if overlapping(&base) {
        log.count("sets with edges over one another", 1);
        return;
    }
    for (q, l) in qs.iter().zip(parts) {
        let want = chain(&base, q.0, q.1);
        log.count(if want { "segments that decompose" } else { "segments that don't decompose" }, 1);
        match l {
            None if want => return bad(log, format!("{:?} was not decomposed", q)),
            None => {}
            Some(l) => {
                let ok = want && l.first().map(|s| s.0) == Some(q.0) && l.last().map(|s| s.1) == Some(q.1) && l.windows(2).all(|w| w[0].1 == w[1].0) && l.iter().all(|s| base.contains(s) && line(*s) == line(*q));
                if !ok {
                    return bad(log, format!("{:?} was decomposed into {:?}", q, l));
                }
            }
        }
    }
    log.sample(|| input.clone());
}

fn rotation_of(a: &[I], b: &[I]) -> bool {
    a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|i| (0..a.len()).all(|j| a[(i + j) % a.len()] == b[j])))
}
/// the single cycle that directed edges make up, if they do
fn cycle(es: &BTreeSet<S>) -> Option<Vec<I>> {
    let mut next: BTreeMap<I, I> = BTreeMap::new();
    for e in es {
        if next.insert(e.0, e.1).is_some() {
            return None;
        }
    }
    let a = *next.keys().next()?;
    let mut v = vec![a];
    let mut x = *next.get(&a)?;
    while x != a {
        v.push(x);
        if v.len() > es.len() {
            return None;
        }
        x = *next.get(&x)?;
    }
    if v.len() == es.len() && v.len() > 2 { Some(v) } else { None }
}
/// triangles over an n x m grid, each cell divided by either diagonal
fn cells(r: &mut Rng, n: i64, m: i64) -> Vec<[I; 3]> {
    let mut t = vec![];
    for x in 0..n {
        for y in 0..m {
            let (a, b, c, d) = ((x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1));
            if r.chance(0.5) {
                t.push([a, b, c]);
                t.push([a, c, d]);
            } else {
                t.push([a, b, d]);
                t.push([b, c, d]);
            }
        }
    }
    t
}
fn sides(t: &[I; 3]) -> [S; 3] {
    [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
}
/// E02
pub fn cycles(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let g = Grid::new(r);
    if i % 2 == 0 {
        // any directed edges
        let mut es: BTreeSet<S> = BTreeSet::new();
        let mut pool: Vec<I> = (0..40).map(|_| (r.range(-6, 6), r.range(-6, 6))).collect::<BTreeSet<I>>().into_iter().collect();
        r.shuffle(&mut pool);
        let mut class = "one cycle";
        let n = r.range(3, 10) as usize;
        let ring = |v: &[I]| -> Vec<S> { (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect() };
        let a: Vec<I> = pool[..n].to_vec();
        let b: Vec<I> = pool[n..n + r.range(2, 6) as usize].to_vec();
        es.extend(ring(&a));
        match r.below(9) {
            0 => {
                class = "two cycles";
                es.extend(ring(&b));
            }
            1 => {
                class = "two cycles that share a vertex";
                let mut b = b;
                b[0] = a[r.below(n as u64) as usize];
                es.extend(ring(&b));
            }
            2 => {
                class = "an open chain";
                let e = *r.pick(&es.iter().cloned().collect::<Vec<S>>());
                es.remove(&e);
            }
            3 => {
                class = "a cycle with a tail to it";
                let mut l = b;
                l.push(*r.pick(&a));
                es.extend(l.windows(2).map(|w| (w[0], w[1])));
            }
            4 => {
                class = "a cycle with a tail from it";
                let mut l = vec![*r.pick(&a)];
                l.extend(b);
                es.extend(l.windows(2).map(|w| (w[0], w[1])));
            }
            5 => {
                class = "a cycle with a reversed edge";
                let e = *r.pick(&es.iter().cloned().collect::<Vec<S>>());
                es.remove(&e);
                es.insert((e.1, e.0));
            }
            6 if r.chance(0.5) => {
                class = "no edges, or two";
                es.clear();
                if r.chance(0.5) {
                    es.extend(ring(&pool[..2]));
                }
            }
            _ => {}
        }
        let want = cycle(&es);
        let input = format!("grid={:?} class={} edges={:?}", g, class, es);
        log.count(&format!("edge sets: {}", class), 1);
        let e2 = es.clone();
        let got = guarded(r.next(), 3_000_000, log, move || {
            let set: HashSet<Rc<Edge>> = e2.iter().map(|s| g.e(*s)).collect();
            Polyline::arrange(&set).map(|l| (l.vertices.iter().map(|w| g.back(p(w))).collect::<Vec<I>>(), l.opened))
        });
        let got = match fail(got, log, &input) {
            Some(x) => x,
            None => return,
        };
        log.nontrivial(fold(es.iter().flat_map(|s| vec![s.0, s.1])));
        let ok = match (&got, &want) {
            (None, None) => true,
            (Some((l, o)), Some(w)) => !o && rotation_of(l, w),
            _ => false,
        };
        if !ok {
            log.violation("random", format!("arranged as {:?} instead of {:?}", got, want), input);
            return;
        }
        log.sample(|| input.clone());
        return;
    }
    // hulls of triangles
    let (n, m) = (r.range(1, 5), r.range(1, 5));
    let all = cells(r, n, m);
    let keep = *r.pick(&[1.0, 0.9, 0.7, 0.5, 0.2]);
    let mut ts: Vec<[I; 3]> = all.into_iter().filter(|_| r.chance(keep)).collect();
    if r.chance(0.5) && ts.len() > 1 {
        // a connected patch, grown over common sides
        let mut patch = vec![ts[r.below(ts.len() as u64) as usize]];
        for _ in 0..r.range(1, 20) {
            let c: Vec<[I; 3]> = ts.iter().filter(|t| !patch.contains(t) && sides(t).iter().any(|s| patch.iter().any(|u| sides(u).contains(&(s.1, s.0))))).cloned().collect();
            if c.is_empty() {
                break;
            }
            patch.push(*r.pick(&c));
        }
        ts = patch;
    }
    let mut all: BTreeSet<S> = ts.iter().flat_map(|t| sides(t)).collect();
    let b: BTreeSet<S> = all.iter().filter(|s| !all.contains(&(s.1, s.0))).cloned().collect();
    all.clear();
    let want = cycle(&b);
    let input = format!("grid={:?} triangles={:?}", g, ts);
    let (t2, rot) = (ts.clone(), r.next());
    let got = guarded(r.next(), 10_000_000, log, move || {
        let set: HashSet<Rc<Triangle>> = t2
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let k = (rot >> (i % 31 * 2)) as usize & 3;
                Rc::new(Triangle::new(&g.v(t[k % 3]), &g.v(t[(k + 1) % 3]), &g.v(t[(k + 2) % 3])))
            })
            .collect();
        Polyline::triangles_hull(&set).map(|l| (l.vertices.iter().map(|w| g.back(p(w))).collect::<Vec<I>>(), l.opened))
    });
    let got = match fail(got, log, &input) {
        Some(x) => x,
        None => return,
    };
    log.count(if want.is_some() { "triangles with a single hull" } else { "triangles with none or more hulls" }, 1);
    log.nontrivial(fold(ts.iter().flatten().cloned()));
    let ok = match (&got, &want) {
        (None, None) => true,
        (Some((l, o)), Some(w)) => !o && rotation_of(l, w),
        _ => false,
    };
    if !ok {
        return log.violation("random", format!("the hull is {:?} instead of {:?}", got, want), input);
    }
    log.sample(|| input.clone());
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// E03: identity of vertices, edges and triangles, boxes, incidence
pub fn identity(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let g = Grid::new(r);
    let pts: Vec<I> = (0..r.range(3, 12)).map(|_| (r.range(-4, 4), r.range(-4, 4))).collect();
    let input = format!("grid={:?} points={:?}", g, pts);
    let p2 = pts.clone();
    let seed = r.next();
    let got = guarded(r.next(), 10_000_000, log, move || facts(g, &p2, seed));
    let bad = match fail(got, log, &input) {
        Some(x) => x,
        None => return,
    };
    log.nontrivial(fold(pts.iter().cloned()) ^ g.s.to_bits() ^ g.off.0 as u64);
    log.count("facts checked", bad.1);
    if let Err(e) = bad.0 {
        return log.violation("random", e, input);
    }
    log.sample(|| input.clone());
}
macro_rules! fact {
    ($n:ident, $c:expr, $($a:tt)*) => {
        $n += 1;
        if !$c {
            return (Err(format!($($a)*)), $n);
        }
    };
}
fn facts(g: Grid, pts: &[I], seed: u64) -> (Result<(), String>, u64) {
    let mut n = 0u64;
    let mut r = Rng::new(seed, 7);
    let ghost = Rc::new(Vertex::new_ghost());
    let distinct: BTreeSet<I> = pts.iter().cloned().collect();
    // vertices: equal exactly by coordinates
    let vs: Vec<Rc<Vertex>> = pts.iter().map(|q| g.v(*q)).collect();
    let set: HashSet<Rc<Vertex>> = vs.iter().cloned().collect();
    fact!(n, set.len() == distinct.len(), "{} distinct vertices make a set of {}", distinct.len(), set.len());
    for (i, a) in vs.iter().enumerate() {
        fact!(n, !set.contains(&ghost) && **a != *ghost && !a.is_ghost, "a ghost equals {:?}", pts[i]);
        for (j, b) in vs.iter().enumerate() {
            fact!(n, (a == b) == (pts[i] == pts[j]), "{} == {} is {}", a, b, a == b);
            fact!(n, a != b || h(a) == h(b), "equal vertices {} and {} have different hashes", a, b);
            fact!(n, a.cmp(b) == pts[i].cmp(&pts[j]) && a.partial_cmp(b) == Some(a.cmp(b)), "order of {} and {} is {:?}", a, b, a.cmp(b));
            let (e, f) = (Edge::new(a, b), Edge::new(b, a));
            fact!(n, e.opposite() == f && e.v1 == *a && e.v2 == *b, "opposite of {} is {}", e, e.opposite());
            fact!(n, (e == f) == (a == b), "{} == {} is {}", e, f, e == f);
            fact!(n, e != f || h(&e) == h(&f), "equal edges have different hashes");
        }
    }
    let z = (Vertex::new(0.0, -0.0), Vertex::new(-0.0, 0.0));
    fact!(n, z.0 == z.1 && h(&z.0) == h(&z.1), "the vertices at zero differ");
    fact!(n, ghost.is_ghost && *ghost == Vertex::new_ghost() && h(&ghost) == h(&Rc::new(Vertex::new_ghost())) && *ghost != z.0, "ghosts differ, or equal the origin");
    let mut sorted = vs.clone();
    Vertex::sort(&mut sorted);
    let mut want = pts.to_vec();
    want.sort();
    fact!(n, sorted.iter().map(|w| g.back(p(w))).collect::<Vec<I>>() == want, "sorted as {:?}", sorted);
    let flat: Vec<f64> = pts.iter().flat_map(|q| vec![g.p(*q).0, g.p(*q).1]).collect();
    fact!(n, Vertex::from_coordinates(&flat) == vs, "vertices from coordinates");
    // closed and opened chains
    let m = vs.len();
    let closed: Vec<S> = (0..m).map(|i| (pts[i], pts[(i + 1) % m])).collect();
    let of = |l: &[Rc<Edge>]| -> Vec<S> { l.iter().map(|e| g.of(e)).collect() };
    fact!(n, of(&Edge::from_coordinates(&flat)) == closed && of(&Edge::from_vertices(&vs)) == closed, "edges from vertices");
    let pairs = Edge::into_vertex_pairs(Edge::from_vertices(&vs));
    fact!(n, of(&Edge::from_vertex_pairs(pairs)) == closed, "edges from pairs");
    let (c, o) = (Polyline::new_closed(vs.clone()).unwrap(), Polyline::new_opened(vs.clone()).unwrap());
    fact!(n, of(&c.into_edges()) == closed && of(&o.into_edges()) == closed[..m - 1].to_vec(), "edges of a polyline");
    fact!(n, c.head().is_none() && c.tail().is_none() && o.head().as_ref() == vs.first() && o.tail().as_ref() == vs.last() && c != o, "ends of a polyline");
    let k = r.below(3) as usize;
    let few: Vec<Rc<Vertex>> = vs[..k].to_vec();
    fact!(n, Polyline::new_closed(few.clone()).is_none() && Polyline::new_opened(few).is_none() == (k < 2), "polylines of {} vertices", k);
    // boxes
    let bounds = |l: &[I]| -> S {
        let f = |m: fn(i64, i64) -> i64, s: i64| l.iter().fold((s, s), |a, q| (m(a.0, q.0), m(a.1, q.1)));
        (f(i64::min, i64::MAX), f(i64::max, i64::MIN))
    };
    let bbox = |l: &[I]| BoundingBox::from_vertices(l.iter().map(|q| g.v(*q)).collect()).unwrap();
    let is = |b: &BoundingBox, s: S| g.back(p(&b.origin)) == s.0 && g.back(p(&b.destin)) == s.1;
    let mut lists: Vec<Vec<I>> = vec![];
    let mut rest = pts.to_vec();
    r.shuffle(&mut rest);
    while !rest.is_empty() {
        let k = r.range(1, rest.len() as i64) as usize;
        lists.push(rest.drain(..k).collect());
    }
    for l in &lists {
        let (b, w) = (bbox(l), bounds(l));
        fact!(n, is(&b, w), "box of {:?} is {} {}", l, b.origin, b.destin);
        for x in w.0 .0 - 1..w.1 .0 + 2 {
            for y in w.0 .1 - 1..w.1 .1 + 2 {
                let inside = x >= w.0 .0 && x <= w.1 .0 && y >= w.0 .1 && y <= w.1 .1;
                fact!(n, b.contains(&g.v((x, y))) == inside, "box of {:?} contains {:?} is {}", l, (x, y), !inside);
            }
        }
        for l2 in &lists {
            let (b2, w2) = (bbox(l2), bounds(l2));
            let u: Vec<I> = l.iter().chain(l2).cloned().collect();
            fact!(n, is(&BoundingBox::union(&b, bbox(l2)), bounds(&u)), "union of the boxes of {:?} and {:?}", l, l2);
            let w = ((w.0 .0.max(w2.0 .0), w.0 .1.max(w2.0 .1)), (w.1 .0.min(w2.1 .0), w.1 .1.min(w2.1 .1)));
            let meet = w.0 .0 <= w.1 .0 && w.0 .1 <= w.1 .1;
            let got = BoundingBox::intersection(&b, &b2);
            fact!(n, got.is_some() == meet && got.map_or(true, |x| is(&x, w)), "common box of {:?} and {:?}", l, l2);
            fact!(n, (b == b2) == (bounds(l) == bounds(l2)), "equality of the boxes of {:?} and {:?}", l, l2);
        }
    }
    fact!(n, BoundingBox::union_list(lists.iter().map(|l| bbox(l)).collect()).map_or(false, |b| is(&b, bounds(pts))), "union of the boxes of {:?}", lists);
    fact!(n, BoundingBox::union_list(vec![]).is_none() && BoundingBox::from_vertices(vec![]).is_none(), "box of nothing");
    // triangles
    let d: Vec<I> = distinct.iter().cloned().collect();
    if d.len() < 3 {
        return (Ok(()), n);
    }
    for _ in 0..6 {
        let mut t = d.clone();
        r.shuffle(&mut t);
        let t = [t[0], t[1], t[2]];
        let w: Vec<Rc<Vertex>> = t.iter().map(|q| g.v(*q)).collect();
        let tri = |a: usize, b: usize, c: usize| Rc::new(Triangle::new(&w[a], &w[b], &w[c]));
        let t0 = tri(0, 1, 2);
        let mut set: HashSet<Rc<Triangle>> = HashSet::new();
        for x in [tri(0, 1, 2), tri(1, 2, 0), tri(2, 0, 1)] {
            fact!(n, x == t0 && h(&x) == h(&t0), "rotated triangle {} differs from {}", x, t0);
            set.insert(x);
            fact!(n, set.len() == 1, "rotated triangles are kept twice");
        }
        for x in [tri(0, 2, 1), tri(2, 1, 0), tri(1, 0, 2)] {
            fact!(n, x != t0 && !set.contains(&x), "mirrored triangle {} equals {}", x, t0);
        }
        let o = d.iter().find(|q| !t.contains(q));
        if let Some(o) = o {
            let o = g.v(*o);
            fact!(n, Triangle::new(&w[0], &w[1], &o) != *t0 && t0.opposite_edge(&o).is_none(), "{} has {}", t0, o);
            fact!(n, t0.opposite_vertex(&Rc::new(Edge::new(&w[0], &o))).is_none(), "{} has an edge to {}", t0, o);
        }
        let (i, u) = (t0.inner_edges(), t0.outer_edges());
        let inner: BTreeSet<S> = [&i.0, &i.1, &i.2].iter().map(|e| g.of(e)).collect();
        let outer: BTreeSet<S> = [&u.0, &u.1, &u.2].iter().map(|e| g.of(e)).collect();
        fact!(n, inner == sides(&t).iter().cloned().collect() && outer == sides(&t).iter().map(|s| (s.1, s.0)).collect(), "edges of {}", t0);
        for k in 0..3 {
            let e = Rc::new(Edge::new(&w[k], &w[(k + 1) % 3]));
            fact!(n, t0.opposite_vertex(&e) == Some(Rc::clone(&w[(k + 2) % 3])), "vertex opposed to {}", e);
            fact!(n, t0.opposite_vertex(&Rc::new(e.opposite())).is_none(), "{} has {}", t0, e.opposite());
            fact!(n, t0.opposite_edge(&w[(k + 2) % 3]) == Some(e), "edge opposed to {}", w[(k + 2) % 3]);
            let mut q = w.clone();
            q[k] = Rc::clone(&ghost);
            let gt = Triangle::new(&q[0], &q[1], &q[2]);
            fact!(n, gt.is_ghost() && gt.as_polyline().is_none() && gt.area().is_none() && gt.circumcenter().is_none() && gt.quality().is_none() && gt != *t0, "ghost triangle {}", gt);
            let rot = Triangle::new(&q[1], &q[2], &q[0]);
            fact!(n, gt == rot && h(&gt) == h(&rot), "rotated ghost triangle {}", gt);
            fact!(n, Edge::new(&ghost, &w[k]).as_polyline().is_none() && Edge::new(&w[k], &ghost).as_polyline().is_none(), "polyline of a ghost edge");
            let l = Edge::new(&w[k], &w[(k + 1) % 3]).as_polyline().unwrap();
            fact!(n, l.opened && l.vertices == vec![Rc::clone(&w[k]), Rc::clone(&w[(k + 1) % 3])], "polyline of an edge");
        }
        let l = t0.as_polyline().unwrap();
        fact!(n, !t0.is_ghost() && !l.opened && rotation_of(&l.vertices.iter().map(|x| g.back(p(x))).collect::<Vec<I>>(), &t), "polyline of {}", t0);
    }
    (Ok(()), n)
}

/// E04: polylines without their colinear vertices
pub fn minified(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let g = Grid::new(r);
    let b: Vec<I> = if i % 2 == 0 {
        grid_polygon(r).iter().map(|q| (q.0 as i64, q.1 as i64)).collect()
    } else {
        polygon(r).0.iter().map(|q| ((q.0 * 16.0).round() as i64, (q.1 * 16.0).round() as i64)).collect()
    };
    let mut b = b;
    // more vertices on the edges, where there are grid points
    let mut l: Vec<I> = vec![];
    for k in 0..b.len() {
        let (a, c) = (b[k], b[(k + 1) % b.len()]);
        l.push(a);
        let d = sub(c, a);
        let n = gcd(d.0, d.1);
        let mut ts: Vec<i64> = (0..r.below(3)).map(|_| r.range(1, n.max(2) - 1)).filter(|t| *t < n).collect();
        ts.sort();
        ts.dedup();
        l.extend(ts.iter().map(|t| (a.0 + d.0 / n * t, a.1 + d.1 / n * t)));
    }
    l.dedup();
    b = l;
    let flip = r.chance(0.5);
    if flip {
        b.reverse();
    }
    let k = r.below(b.len() as u64) as usize;
    b.rotate_left(k);
    let opened = r.chance(0.4);
    if opened {
        let n = r.range(2, b.len() as i64) as usize;
        b.truncate(n);
    }
    let fl: Vec<P> = b.iter().map(|q| (q.0 as f64, q.1 as f64)).collect();
    let n = b.len();
    if !opened && !is_simple(&fl) || n < 2 {
        return;
    }
    let corner = |k: usize| {
        let (a, q, c) = (b[(k + n - 1) % n], b[k], b[(k + 1) % n]);
        cross(sub(q, a), sub(c, q)) != 0
    };
    let want: Vec<I> = (0..n).filter(|k| opened && (*k == 0 || *k == n - 1) || corner(*k)).map(|k| b[k]).collect();
    let input = format!("grid={:?} opened={} vertices={:?}", g, opened, b);
    let b2 = b.clone();
    let got = guarded(r.next(), 1_000_000, log, move || {
        let vs: Vec<Rc<Vertex>> = b2.iter().map(|q| g.v(*q)).collect();
        let l = if opened { Polyline::new_opened(vs) } else { Polyline::new_closed(vs) }.unwrap();
        let m = l.minified_noncolinear();
        (m.vertices.iter().map(|w| g.back(p(w))).collect::<Vec<I>>(), m.opened, l.vertices.len())
    });
    let (got, o, left) = match fail(got, log, &input) {
        Some(x) => x,
        None => return,
    };
    log.nontrivial(fold(b.iter().cloned()) ^ opened as u64);
    log.count(if opened { "opened polylines" } else { "closed polylines" }, 1);
    log.count("colinear vertices", (n - want.len()) as u64);
    let same = if opened { got == want } else { rotation_of(&got, &want) };
    if !same || o != opened || left != n {
        return log.violation("random", format!("minified to {:?} (opened: {}) instead of {:?}", got, o, want), input);
    }
    log.sample(|| input.clone());
}

/// B01: including and removing triangles against a model
pub fn bookkeeping(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    type O = Option<I>;
    let g = Grid::new(r);
    let (n, m) = (r.range(1, 4), r.range(1, 4));
    let mut pool: Vec<[O; 3]> = vec![];
    for _ in 0..2 {
        for t in cells(r, n, m) {
            pool.push(t.map(Some));
            let s = *r.pick(&sides(&t));
            pool.push([Some(s.1), Some(s.0), None]);
        }
    }
    let ops: Vec<(bool, [O; 3])> = (0..r.range(5, 60))
        .map(|_| {
            let t = *r.pick(&pool);
            let k = r.below(3) as usize;
            (r.chance(0.65), [t[k], t[(k + 1) % 3], t[(k + 2) % 3]])
        })
        .collect();
    // the model leaves out operations that give an edge to two triangles
    let canon = |t: &[O; 3]| -> [O; 3] {
        let k = (0..3).min_by_key(|k| t[*k]).unwrap();
        [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
    };
    let es = |t: &[O; 3]| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])];
    let mut model: BTreeMap<(O, O), [O; 3]> = BTreeMap::new();
    let mut kept: Vec<(bool, [O; 3], bool, usize)> = vec![];
    for (inc, t) in ops {
        let c = canon(&t);
        let here = model.get(&es(&c)[0]) == Some(&c);
        if inc {
            if !here && es(&c).iter().any(|e| model.contains_key(e)) {
                continue;
            }
            for e in es(&c) {
                model.insert(e, c);
            }
            kept.push((true, t, !here, model.len()));
        } else {
            if here {
                for e in es(&c) {
                    model.remove(&e);
                }
            }
            kept.push((false, t, here, model.len()));
        }
    }
    let input = format!("grid={:?} operations={:?}", g, kept.iter().map(|x| (if x.0 { "include" } else { "remove" }, x.1)).collect::<Vec<_>>());
    let k2 = kept.clone();
    type Full = (BTreeMap<(O, O), [O; 3]>, BTreeSet<[O; 3]>, BTreeSet<I>, BTreeSet<(O, O)>);
    let got = guarded(r.next(), 20_000_000, log, move || -> Result<Full, String> {
        let gh = Rc::new(Vertex::new_ghost());
        let mut tr = Triangulation::new();
        let o = |w: &Rc<Vertex>| if w.is_ghost { None } else { Some(g.back(p(w))) };
        for (k, (inc, t, want, size)) in k2.iter().enumerate() {
            let w = |q: O| q.map_or(Rc::clone(&gh), |q| g.v(q));
            let t = Rc::new(Triangle::new(&w(t[0]), &w(t[1]), &w(t[2])));
            let got = if *inc { tr.include_triangle(&t) } else { tr.remove_triangle(&t) };
            if got != *want {
                return Err(format!("operation {} answered {}", k, got));
            }
            if tr.adjacency.len() != *size || tr.triangles.len() * 3 != *size {
                return Err(format!("after operation {}: {} adjacencies, {} triangles instead of {}", k, tr.adjacency.len(), tr.triangles.len(), size / 3));
            }
            if tr.triangles.contains(&t) != *inc {
                return Err(format!("after operation {} the triangle is{} there", k, if *inc { " not" } else { "" }));
            }
        }
        let ot = |t: &Rc<Triangle>| [o(&t.v1), o(&t.v2), o(&t.v3)];
        Ok((
            tr.adjacency.iter().map(|(e, t)| ((o(&e.v1), o(&e.v2)), ot(t))).collect(),
            tr.triangles.iter().map(ot).collect(),
            tr.vertices().iter().map(|w| g.back(p(w))).collect(),
            tr.edges().iter().map(|e| (o(&e.v1), o(&e.v2))).collect(),
        ))
    });
    let got = match fail(got, log, &input) {
        Some(x) => x,
        None => return,
    };
    log.nontrivial(fold(kept.iter().flat_map(|x| x.1.iter().flatten().cloned().collect::<Vec<I>>())) ^ kept.len() as u64);
    log.count("operations", kept.len() as u64);
    log.count("operations without effect", kept.iter().filter(|x| !x.2).count() as u64);
    let bad = match got {
        Err(e) => Some(e),
        Ok((adj, tris, vs, edges)) => {
            let adj: BTreeMap<(O, O), [O; 3]> = adj.into_iter().map(|(e, t)| (e, canon(&t))).collect();
            let tris: BTreeSet<[O; 3]> = tris.iter().map(canon).collect();
            let wt: BTreeSet<[O; 3]> = model.values().cloned().collect();
            let wv: BTreeSet<I> = wt.iter().flatten().flatten().cloned().collect();
            if adj != model {
                Some("the adjacency differs from the model".to_string())
            } else if tris != wt {
                Some("the triangles differ from the model".to_string())
            } else if vs != wv {
                Some(format!("vertices {:?} instead of {:?}", vs, wv))
            } else if edges != model.keys().cloned().collect() {
                Some("the edges differ from the model".to_string())
            } else {
                None
            }
        }
    };
    if let Some(b) = bad {
        return log.violation("random", b, input);
    }
    log.sample(|| input.clone());
}
