//! Snapshots of the triangulator and the mesh oracles. Nothing here uses the predicates of the code
//! under test: every judgement is on coordinates, with exact arithmetic or an explicit tolerance.
use crate::domain::poly_edges;
use crate::exact::*;
use crate::gen::Domain;
use nlsn_delaunay::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub fn v(p: P) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0, p.1))
}
pub fn p(v: &Vertex) -> P {
    (v.x, v.y)
}
pub fn poly(pts: &[P]) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(pts.iter().map(|q| v(*q)).collect()).unwrap())
}
pub fn edge(a: P, b: P) -> Rc<Edge> {
    Rc::new(Edge::new(&v(a), &v(b)))
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub tris: Vec<[P; 3]>,
    pub ghosts: Vec<[Option<P>; 3]>,
    pub adj: Vec<((Option<P>, Option<P>), [Option<P>; 3])>,
    pub t_segs: Vec<(P, P)>,
    pub t_verts: Vec<P>,
}
pub fn snap_triangulation(tr: &Triangulation) -> Snap {
    let o = |w: &Rc<Vertex>| if w.is_ghost { None } else { Some(p(w)) };
    let mut s = Snap::default();
    for x in tr.triangles.iter() {
        if x.is_ghost() {
            s.ghosts.push([o(&x.v1), o(&x.v2), o(&x.v3)]);
        } else {
            s.tris.push([p(&x.v1), p(&x.v2), p(&x.v3)]);
        }
    }
    for (e, x) in tr.adjacency.iter() {
        s.adj.push(((o(&e.v1), o(&e.v2)), [o(&x.v1), o(&x.v2), o(&x.v3)]));
    }
    s
}
pub fn snap_of(t: &Triangulator) -> Snap {
    let mut s = snap_triangulation(&t.triangulation.borrow());
    s.t_segs = t.segments.iter().map(|e| (p(&e.v1), p(&e.v2))).collect();
    s.t_verts = t.vertices.iter().map(|w| p(w)).collect();
    s
}

pub type K = (u64, u64);
pub fn k(q: P) -> K {
    ((q.0 + 0.0).to_bits(), (q.1 + 0.0).to_bits())
}
pub fn unk(q: K) -> P {
    (f64::from_bits(q.0), f64::from_bits(q.1))
}
/// canonical rotation of a triangle
pub fn canon(t: &[P; 3]) -> [K; 3] {
    let a = [k(t[0]), k(t[1]), k(t[2])];
    let m = (0..3).min_by_key(|i| a[*i]).unwrap();
    [a[m], a[(m + 1) % 3], a[(m + 2) % 3]]
}
pub fn canon_set(s: &Snap) -> BTreeSet<[K; 3]> {
    s.tris.iter().map(canon).collect()
}
pub fn hash_mesh(s: &Snap) -> u64 {
    let mut h = 1469598103934665603u64;
    for t in canon_set(s) {
        for x in t {
            h = (h ^ x.0).wrapping_mul(1099511628211);
            h = (h ^ x.1.rotate_left(7)).wrapping_mul(1099511628211);
        }
    }
    h
}

/// q lies over the open segment ab, up to the rounding of a computed midpoint or crossing
pub fn near_segment(a: P, b: P, q: P) -> bool {
    if q == a || q == b {
        return false;
    }
    if on_segment(a, b, q) {
        return true;
    }
    let d = (b.0 - a.0, b.1 - a.1);
    let l = d.0.hypot(d.1);
    let t = ((q.0 - a.0) * d.0 + (q.1 - a.1) * d.1) / (l * l);
    if t <= 1e-9 || t >= 1.0 - 1e-9 {
        return false;
    }
    let c = ((q.0 - a.0) * d.1 - (q.1 - a.1) * d.0).abs() / l;
    let sc = a.0.abs().max(a.1.abs()).max(b.0.abs()).max(b.1.abs());
    c <= 1e-13 * sc.max(l)
}
/// the chain of edges into which the vertices split the segment ab
pub fn split_chain(a: P, b: P, vs: &[P]) -> Vec<(P, P)> {
    let mut on: Vec<P> = vs.iter().cloned().filter(|q| near_segment(a, b, *q)).collect();
    on.push(a);
    on.push(b);
    let f = |x: &P| (x.0 - a.0) * (b.0 - a.0) + (x.1 - a.1) * (b.1 - a.1);
    on.sort_by(|x, y| f(x).partial_cmp(&f(y)).unwrap());
    on.dedup();
    on.windows(2).map(|w| (w[0], w[1])).collect()
}

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub valid: Vec<String>,
    pub cover: Vec<String>,
    pub verts: Vec<String>,
    pub cons: Vec<String>,
    pub delaunay: Vec<String>,
    pub n_tris: u64,
    pub n_edges: u64,
    pub n_cons: u64,
    pub n_extra: u64,
    /// edges (non constrained) whose circles were tested
    pub n_circles: u64,
    /// non constrained edges with the opposite vertices (nearly) on a common circle
    pub n_cocircular: u64,
    pub sub: Vec<(P, P)>,
}

/// structural part: CCW, every directed edge once, adjacency map, ghost ring
pub fn structure(s: &Snap, out: &mut Vec<String>) -> HashMap<(K, K), usize> {
    let mut dir: HashMap<(K, K), usize> = HashMap::new();
    for (i, t) in s.tris.iter().enumerate() {
        let o = orient(t[0], t[1], t[2]);
        if o < 0 {
            out.push(format!("clockwise triangle {:?}", t));
        }
        if o == 0 {
            out.push(format!("flat triangle {:?}", t));
        }
        for j in 0..3 {
            if dir.insert((k(t[j]), k(t[(j + 1) % 3])), i).is_some() {
                out.push(format!("two triangles over the same side of edge {:?} {:?}", t[j], t[(j + 1) % 3]));
            }
        }
    }
    let ok = |q: Option<P>| q.map(k);
    let mut full: BTreeMap<(Option<K>, Option<K>), usize> = BTreeMap::new();
    let all: Vec<[Option<P>; 3]> = s.tris.iter().map(|t| [Some(t[0]), Some(t[1]), Some(t[2])]).chain(s.ghosts.iter().cloned()).collect();
    for (i, t) in all.iter().enumerate() {
        if t.iter().filter(|x| x.is_none()).count() > 1 {
            out.push(format!("triangle with several ghosts {:?}", t));
        }
        for j in 0..3 {
            if full.insert((ok(t[j]), ok(t[(j + 1) % 3])), i).is_some() && i >= s.tris.len() {
                out.push(format!("ghost triangle repeats an edge {:?}", t));
            }
        }
    }
    if s.adj.len() != full.len() {
        out.push(format!("adjacency has {} edges, the triangles have {}", s.adj.len(), full.len()));
    }
    for ((a, b), t) in &s.adj {
        match full.get(&(ok(*a), ok(*b))) {
            Some(i) => {
                let r = |t: &[Option<P>; 3]| {
                    let x = [ok(t[0]), ok(t[1]), ok(t[2])];
                    let m = (0..3).min_by_key(|i| x[*i]).unwrap();
                    [x[m], x[(m + 1) % 3], x[(m + 2) % 3]]
                };
                if r(t) != r(&all[*i]) {
                    out.push(format!("adjacency of {:?} {:?} refers to {:?}", a, b, t));
                }
            }
            None => out.push(format!("stale adjacency {:?} {:?}", a, b)),
        }
    }
    for ((a, b), _) in full.iter() {
        if !full.contains_key(&(*b, *a)) {
            out.push(format!("edge {:?} {:?} has no triangle at the other side", a.map(unk), b.map(unk)));
        }
    }
    dir
}

/// all oracles for a triangulated (refined = false) or refined domain
pub fn judge(d: &Domain, s: &Snap, refined: bool) -> Verdict {
    let mut w = Verdict::default();
    let dir = structure(s, &mut w.valid);
    w.n_tris = s.tris.len() as u64;
    let vs: BTreeSet<K> = s.tris.iter().flatten().map(|q| k(*q)).collect();
    let vl: Vec<P> = vs.iter().map(|q| unk(*q)).collect();
    // Euler characteristic of a connected planar domain with holes: V - E + F = 1 - holes
    let und: BTreeSet<(K, K)> = dir.keys().map(|(a, b)| if a < b { (*a, *b) } else { (*b, *a) }).collect();
    w.n_edges = und.len() as u64;
    if vs.len() as i64 - und.len() as i64 + s.tris.len() as i64 != 1 - d.holes.len() as i64 {
        w.valid.push(format!("V-E+F = {}-{}+{} with {} holes", vs.len(), und.len(), s.tris.len(), d.holes.len()));
    }
    // vertices
    let want = crate::domain::wanted(d);
    for q in want.difference(&vs) {
        w.verts.push(format!("input vertex {:?} is not in the triangulation", unk(*q)));
    }
    let extra: Vec<P> = vs.difference(&want).map(|q| unk(*q)).collect();
    w.n_extra = extra.len() as u64;
    let ext = vl.iter().fold(0.0f64, |m, q| m.max(dist(*q, d.boundary[0])));
    let mag = vl.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
    let cross = d.crossings();
    let mut unused = vec![true; cross.len()];
    for q in &extra {
        let near = cross.iter().position(|c| dist(c.0, *q) <= 1e-12 * mag.max(ext));
        match near {
            Some(i) if unused[i] => unused[i] = false,
            Some(_) => w.verts.push(format!("crossing {:?} has two vertices", q)),
            None => {
                if !refined {
                    w.verts.push(format!("vertex {:?} is not in the input", q));
                } else {
                    let over = d.ring_edges().iter().any(|(a, b)| near_segment(*a, *b, *q));
                    if !over && !d.inside(*q) {
                        w.verts.push(format!("vertex {:?} is outside the domain", q));
                    }
                }
            }
        }
    }
    for (i, c) in cross.iter().enumerate() {
        if unused[i] && !(d.verts.iter().any(|q| dist(*q, c.0) <= 1e-12 * mag.max(ext))) {
            w.verts.push(format!("no vertex at the crossing {:?}", c.0));
        }
    }
    let tv: BTreeSet<K> = s.t_verts.iter().map(|q| k(*q)).collect();
    if tv.len() != s.t_verts.len() {
        w.verts.push("duplicated vertices in the triangulator".into());
    }
    // coverage
    let mut bd: BTreeSet<(K, K)> = BTreeSet::new();
    for (a, b) in poly_edges(&d.boundary) {
        for (a, b) in split_chain(a, b, &vl) {
            bd.insert((k(a), k(b)));
        }
    }
    for h in &d.holes {
        for (a, b) in poly_edges(h) {
            for (a, b) in split_chain(a, b, &vl) {
                bd.insert((k(b), k(a)));
            }
        }
    }
    let hull: BTreeSet<(K, K)> = dir.keys().filter(|(a, b)| !dir.contains_key(&(*b, *a))).cloned().collect();
    for (a, b) in bd.difference(&hull) {
        w.cover.push(format!("domain edge {:?} {:?} does not bound the triangles", unk(*a), unk(*b)));
    }
    for (a, b) in hull.difference(&bd) {
        w.cover.push(format!("triangles end at {:?} {:?}, which is not an edge of the domain", unk(*a), unk(*b)));
    }
    let tot: f64 = s.tris.iter().map(|t| area2_ex(&t[..]).approx() / 2.0).sum();
    let want_area = d.area();
    if (tot - want_area).abs() > 1e-9 * want_area + 1e-12 * mag * ext {
        w.cover.push(format!("triangles cover an area of {} of {}", tot, want_area));
    }
    // constraints
    let mut cons: BTreeSet<(K, K)> = BTreeSet::new();
    let mut ring: BTreeSet<(K, K)> = BTreeSet::new();
    let mut need: Vec<(P, P)> = d.ring_edges();
    let nr = need.len();
    need.extend(d.segs.iter().cloned());
    for (i, (a, b)) in need.iter().enumerate() {
        for (a, b) in split_chain(*a, *b, &vl) {
            let e = (k(a), k(b));
            let f = (k(b), k(a));
            if !dir.contains_key(&e) && !dir.contains_key(&f) {
                w.cons.push(format!("constraint {:?} {:?} is not an edge", a, b));
            }
            cons.insert(e);
            if i < nr {
                ring.insert(e);
            }
            w.sub.push((a, b));
        }
    }
    w.n_cons = cons.len() as u64;
    let inner: usize = cons.iter().filter(|(a, b)| !ring.contains(&(*a, *b)) && !ring.contains(&(*b, *a))).count();
    let _ = inner;
    // constrained Delaunay
    for ((a, b), i) in dir.iter() {
        if a > b || cons.contains(&(*a, *b)) || cons.contains(&(*b, *a)) {
            continue;
        }
        if let Some(j) = dir.get(&(*b, *a)) {
            let t = s.tris[*i];
            let u = s.tris[*j];
            if let Some(q) = u.iter().cloned().find(|x| k(*x) != *a && k(*x) != *b) {
                w.n_circles += 1;
                let val = incircle(t[0], t[1], t[2], q);
                let ext = (0..3).map(|i| dist(t[i], q)).fold(0.0, f64::max);
                let mag = t.iter().chain([q].iter()).fold(0.0f64, |m, x| m.max(x.0.abs()).max(x.1.abs()));
                let tol = 1e-14 * ext.powi(3) * mag;
                if val > tol {
                    w.delaunay.push(format!("{:?} is inside the circle of {:?} by {:e}", q, t, val));
                } else if val > -tol {
                    w.n_cocircular += 1;
                }
            }
        }
    }
    w
}

pub struct Quality {
    pub worst_ratio: f64,
    pub worst: [P; 3],
    pub max_area: f64,
    /// (subsegment, vertex strictly inside its diametral circle)
    pub encroached: Vec<((P, P), P)>,
}
/// over-the-tolerance measurements of a refined mesh
pub fn quality(s: &Snap, w: &Verdict) -> Quality {
    let mut q = Quality { worst_ratio: 0.0, worst: [(0., 0.); 3], max_area: 0.0, encroached: vec![] };
    for t in &s.tris {
        let l = [dist(t[0], t[1]), dist(t[1], t[2]), dist(t[2], t[0])];
        let a = area2_ex(&t[..]).approx() / 2.0;
        let r = l[0] * l[1] * l[2] / (4.0 * a) / l.iter().cloned().fold(f64::MAX, f64::min);
        if r > q.worst_ratio {
            q.worst_ratio = r;
            q.worst = *t;
        }
        q.max_area = q.max_area.max(a);
    }
    let sub: HashSet<(K, K)> = w.sub.iter().flat_map(|(a, b)| [(k(*a), k(*b)), (k(*b), k(*a))]).collect();
    for t in &s.tris {
        for j in 0..3 {
            let (a, b, c) = (t[j], t[(j + 1) % 3], t[(j + 2) % 3]);
            if sub.contains(&(k(a), k(b))) {
                let dot = (a.0 - c.0) * (b.0 - c.0) + (a.1 - c.1) * (b.1 - c.1);
                let l = dist(a, b);
                let mag = [a, b, c].iter().fold(0.0f64, |m, x| m.max(x.0.abs()).max(x.1.abs()));
                if diametral(a, b, c) < 0 && dot < -1e-12 * l * mag.max(l) {
                    q.encroached.push(((a, b), c));
                }
            }
        }
    }
    q
}
