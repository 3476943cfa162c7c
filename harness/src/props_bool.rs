//! G01..G04: polyline booleans and continence against areas by slabs and exact point location.
use crate::boolean::*;
use crate::ctx::*;
use crate::domain::poly_edges;
use crate::exact::*;
use crate::gen::*;
use crate::mesh::*;
use crate::props_pred::polygon;
use crate::props_tri::*;
use crate::rng::Rng;
use nlsn_delaunay::properties::continence::{BoundaryInclusion, Continence};
use nlsn_delaunay::*;

/// a rectilinear or half-diagonal polygon on a small integer grid: shares edges with its likes
pub fn grid_polygon(r: &mut Rng) -> Vec<P> {
    loop {
        let m = 3 + r.below(3) as usize;
        let mut cell = vec![vec![false; m]; m];
        let (mut x, mut y) = (r.below(m as u64) as usize, r.below(m as u64) as usize);
        for _ in 0..if r.chance(0.3) { r.range(7, 18) } else { r.range(1, 7) } {
            cell[x][y] = true;
            match r.below(4) {
                0 if x + 1 < m => x += 1,
                1 if x > 0 => x -= 1,
                2 if y + 1 < m => y += 1,
                3 if y > 0 => y -= 1,
                _ => {}
            }
        }
        // directed boundary edges of the cells, interior on the left
        let mut next = std::collections::BTreeMap::new();
        let on = |x: i64, y: i64| x >= 0 && y >= 0 && (x as usize) < m && (y as usize) < m && cell[x as usize][y as usize];
        let mut bad = false;
        let mut put = |a: (i64, i64), b: (i64, i64)| bad |= next.insert(a, b).is_some();
        for x in 0..m as i64 {
            for y in 0..m as i64 {
                if !on(x, y) {
                    continue;
                }
                if !on(x, y - 1) {
                    put((x, y), (x + 1, y));
                }
                if !on(x + 1, y) {
                    put((x + 1, y), (x + 1, y + 1));
                }
                if !on(x, y + 1) {
                    put((x + 1, y + 1), (x, y + 1));
                }
                if !on(x - 1, y) {
                    put((x, y + 1), (x, y));
                }
            }
        }
        if bad {
            continue;
        }
        let start = *next.keys().next().unwrap();
        let mut v = vec![start];
        let mut q = next[&start];
        while q != start {
            v.push(q);
            q = next[&q];
        }
        if v.len() != next.len() {
            continue; // has a pocket
        }
        let mut b: Vec<P> = v.iter().map(|q| (q.0 as f64, q.1 as f64)).collect();
        if r.chance(0.7) {
            // drop the vertices in the middle of straight edges
            let n = b.len();
            b = (0..n).filter(|i| orient(b[(*i + n - 1) % n], b[*i], b[(*i + 1) % n]) != 0).map(|i| b[i]).collect();
        }
        if r.chance(0.3) {
            // cut a corner
            let n = b.len();
            let i = r.below(n as u64) as usize;
            let (a, q, c) = (b[(i + n - 1) % n], b[i], b[(i + 1) % n]);
            let mut w = b.clone();
            w.splice(i..i + 1, vec![((a.0 + q.0) / 2., (a.1 + q.1) / 2.), ((c.0 + q.0) / 2., (c.1 + q.1) / 2.)]);
            if is_simple(&w) && area2_ex(&w).sign() > 0 {
                b = w;
            }
        }
        let k = r.below(b.len() as u64) as usize;
        b.rotate_left(k);
        return b;
    }
}
pub fn shifted(b: &[P], d: P) -> Vec<P> {
    b.iter().map(|q| (q.0 + d.0, q.1 + d.1)).collect()
}
pub fn pair(r: &mut Rng) -> (Vec<P>, Vec<P>, &'static str) {
    loop {
        let (a, b, class) = match r.below(8) {
            0 | 1 | 2 => {
                let a = ccw(polygon(r).0);
                let b = ccw(polygon(r).0);
                let s = *r.pick(&[1.0, 0.5, 0.25]);
                let b: Vec<P> = b.iter().map(|q| (q.0 * s, q.1 * s)).collect();
                let d = if r.chance(0.5) { point(r, Coord::Dyadic, 5.0) } else { point(r, Coord::Float, 4.0) };
                (a, shifted(&b, d), "general")
            }
            3 | 4 | 5 => {
                let a = grid_polygon(r);
                let b = grid_polygon(r);
                (a, shifted(&b, (r.range(-3, 3) as f64, r.range(-3, 3) as f64)), "grid")
            }
            6 => {
                // vertices of one on the edges of the other
                let a = grid_polygon(r);
                let b = grid_polygon(r);
                let f = *r.pick(&[0.5, 0.25]);
                let b: Vec<P> = b.iter().map(|q| (q.0 * f, q.1 * f)).collect();
                (a, shifted(&b, (r.range(-4, 4) as f64 * f, r.range(-4, 4) as f64 * f)), "grid of two widths")
            }
            _ => {
                // both have the same chain of edges, from either side
                let a = ccw(polygon(r).0);
                let n = a.len();
                let i = r.below(n as u64) as usize;
                let m = r.range(2, 3.min(n as i64)) as usize;
                let mut b: Vec<P> = (0..m).map(|j| a[(i + j) % n]).collect();
                b.push(point(r, Coord::Dyadic, 5.0));
                if !is_simple(&b) {
                    continue;
                }
                (a, ccw(b), "common chain")
            }
        };
        if !is_simple(&a) || !is_simple(&b) {
            continue;
        }
        // no near incidence: everything meets exactly or clearly misses
        let near = |s: &[P], t: &[P]| s.iter().any(|q| poly_edges(t).any(|(x, y)| !on_segment(x, y, *q) && dist_point_segment(x, y, *q) < 1e-6));
        if near(&a, &b) || near(&b, &a) {
            continue;
        }
        return if r.chance(0.5) { (a, b, class) } else { (b, a, class) };
    }
}
/// points of the plane to test membership at, away from the edges of both
fn probes(r: &mut Rng, a: &[P], b: &[P]) -> Vec<P> {
    let mut v = vec![];
    for _ in 0..40 {
        let q = if r.chance(0.5) {
            let t = if r.chance(0.5) { a } else { b };
            let e = *r.pick(t);
            (e.0 + r.uniform(-0.3, 0.3), e.1 + r.uniform(-0.3, 0.3))
        } else {
            (r.uniform(-5.0, 8.0), r.uniform(-5.0, 8.0))
        };
        if edge_dist(a, q) > 1e-3 && edge_dist(b, q) > 1e-3 {
            v.push(q);
        }
    }
    v
}
/// vertices where more than two boundary edges of {f(in a, in b)} meet
fn pinched(a: &[P], b: &[P], f: &dyn Fn(bool, bool) -> bool) -> bool {
    let mut cand: Vec<P> = vec![];
    cand.extend(a.iter().filter(|q| locate(b, **q) == Loc::On));
    cand.extend(b.iter().filter(|q| locate(a, **q) == Loc::On));
    for (p, q) in poly_edges(a) {
        for (s, t) in poly_edges(b) {
            if segments_cross(p, q, s, t) {
                let (u, w) = ((q.0 - p.0, q.1 - p.1), (t.0 - s.0, t.1 - s.1));
                let d = u.0 * w.1 - u.1 * w.0;
                let x = ((s.0 - p.0) * w.1 - (s.1 - p.1) * w.0) / d;
                cand.push((p.0 + x * u.0, p.1 + x * u.1));
            }
        }
    }
    cand.iter().any(|c| {
        // directions of all edges at c, then the membership between them
        let mut dirs: Vec<f64> = vec![];
        for (p, q) in poly_edges(a).chain(poly_edges(b)) {
            if dist_point_segment(p, q, *c) < 1e-7 {
                for e in [p, q] {
                    if dist(e, *c) > 1e-7 {
                        dirs.push((e.1 - c.1).atan2(e.0 - c.0));
                    }
                }
            }
        }
        dirs.sort_by(|x, y| x.partial_cmp(y).unwrap());
        dirs.dedup_by(|x, y| (*x - *y).abs() < 1e-9);
        let n = dirs.len();
        let mut flips = 0;
        let mut state: Vec<bool> = vec![];
        for i in 0..n {
            let (x, mut y) = (dirs[i], dirs[(i + 1) % n]);
            if i + 1 == n {
                y += std::f64::consts::TAU;
            }
            let m = (x + y) / 2.0;
            let q = (c.0 + 1e-5 * m.cos(), c.1 + 1e-5 * m.sin());
            state.push(f(locate(a, q) == Loc::In, locate(b, q) == Loc::In));
        }
        for i in 0..n {
            if state[i] != state[(i + 1) % n] {
                flips += 1;
            }
        }
        flips > 2
    })
}
type Seg = (P, P);
fn segs(s: &std::collections::HashSet<(std::rc::Rc<Vertex>, std::rc::Rc<Vertex>)>) -> Vec<Seg> {
    s.iter().map(|(a, b)| (p(a), p(b))).collect()
}
fn pts(l: &Polyline) -> Vec<P> {
    l.vertices.iter().map(|w| p(w)).collect()
}

/// G01 intersection, G02 union, G03 subtraction
pub fn booleans(id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let (a, b, class) = pair(r);
    let qs = probes(r, &a, &b);
    let key = "random";
    let input = format!("class={} p1={:?} p2={:?}", class, a, b);
    let (a2, b2, which) = (a.clone(), b.clone(), id.to_string());
    let n = (a.len() + b.len()) as u64;
    let got = guarded(r.next(), 2_000_000 + 20_000 * n * n, log, move || {
        let (p1, p2) = (poly(&a2), poly(&b2));
        match which.as_str() {
            "G01" => {
                let (l, u) = Polyline::intersection(&p1, &p2);
                (Some(l.iter().map(pts).collect::<Vec<_>>()), segs(&u))
            }
            "G02" => match Polyline::union(&p1, &p2) {
                Some((l, u)) => (Some(vec![pts(&l)]), segs(&u)),
                None => (None, vec![]),
            },
            _ => {
                let (l, u) = Polyline::subtraction(&p1, &p2);
                (Some(l.iter().map(|l| pts(l)).collect::<Vec<_>>()), segs(&u))
            }
        }
    });
    let (res, unused) = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation(key, e, input),
        Got::Unknown => return,
    };
    let f: &dyn Fn(bool, bool) -> bool = match id {
        "G01" => &|x, y| x && y,
        "G02" => &|x, y| x || y,
        _ => &|x, y| x && !y,
    };
    let (ar_a, ar_b) = (area(&a), area(&b));
    let common = area_op(&a, &b, |x, y| x && y);
    let want = area_op(&a, &b, f);
    let tol = 1e-7 * (ar_a + ar_b);
    let apart = common < tol;
    let touch = poly_edges(&a).any(|(x, y)| poly_edges(&b).any(|(s, t)| segments_touch(x, y, s, t)));
    let sharing = poly_edges(&a).any(|(x, y)| poly_edges(&b).any(|(s, t)| orient(x, y, s) == 0 && orient(x, y, t) == 0 && overlap(x, y, s, t)));
    let pinch = pinched(&a, &b, f);
    log.count(&format!("pairs: {}", class), 1);
    log.count(if apart { if touch { "pairs that touch from outside" } else { "pairs apart" } } else if !touch { "one inside of the other" } else { "pairs that overlap" }, 1);
    if sharing {
        log.count("pairs with common edges", 1);
    }
    if pinch {
        log.count("pairs whose result is pinched", 1);
    }
    if touch || !apart {
        log.nontrivial(hash(&a) ^ hash(&b).rotate_left(7));
    }
    let bad = |log: &mut Log, what: String| log.violation(key, what, format!("{} answer={:?} unused={:?}", input, res, unused));
    let strictly_inside = !touch && locate(&a, b[0]) == Loc::In;
    let list = match &res {
        None => {
            // only the union answers None
            if apart && !sharing {
                return;
            }
            return bad(log, "no union of polylines that overlap".into());
        }
        Some(l) => l,
    };
    if id == "G02" && apart && !sharing {
        if !touch {
            return bad(log, "union of polylines that are apart".into());
        }
        return;
    }
    if id == "G03" && (strictly_inside || apart) && list.is_empty() {
        return; // documented: no intersection, nothing to subtract
    }
    if id == "G03" && strictly_inside {
        return bad(log, "subtraction of a polyline strictly inside".into());
    }
    log.count("results judged", 1);
    log.count("result polylines", list.len() as u64);
    let mut sum = 0.0;
    for l in list {
        // a pinched region may be answered as polylines that touch themselves
        if l.len() < 3 || !near_simple(l, pinch) {
            return bad(log, format!("result is not a simple polyline: {:?}", l));
        }
        let x = area(l);
        if x <= 0.0 && !pinch {
            return bad(log, format!("result is not counterclockwise: {:?}", l));
        }
        sum += x;
    }
    // the union is its outer boundary: pockets are filled
    let pockets = id == "G02" && sum > want + tol;
    if pockets {
        log.count("unions with pockets", 1);
        for (x, y) in poly_edges(&list[0]) {
            let l = dist(x, y);
            let m = ((x.0 + y.0) / 2.0, (x.1 + y.1) / 2.0);
            let o = (m.0 + (y.1 - x.1) / l * 1e-6, m.1 - (y.0 - x.0) / l * 1e-6);
            if edge_dist(&a, m).min(edge_dist(&b, m)) > 1e-7 || locate(&a, o) == Loc::In || locate(&b, o) == Loc::In {
                return bad(log, format!("edge {:?} of the union is not at its outside", (x, y)));
            }
        }
    } else if (sum - want).abs() > tol {
        return bad(log, format!("area of the result is {} instead of {}", sum, want));
    }
    for q in &qs {
        let (x, y) = (locate(&a, *q) == Loc::In, locate(&b, *q) == Loc::In);
        let got: i64 = list.iter().map(|l| winding(l, *q)).sum();
        if got != f(x, y) as i64 && !(pockets && !x && !y) {
            return bad(log, format!("{:?} is inside {} result polylines instead of {}", q, got, f(x, y) as i64));
        }
        log.count("membership probes", 1);
    }
    // segments that are not used are none of the result's
    if !pockets {
        for (x, y) in &unused {
            if list.iter().any(|l| poly_edges(l).any(|(s, t)| s == *x && t == *y)) {
                return bad(log, format!("{:?} is both used and unused", (x, y)));
            }
        }
    }
    // every piece of either polyline is in a result or among the unused ones
    for (k, (x, y)) in poly_edges(&a).chain(poly_edges(&b)).enumerate() {
        let t = 0.05 + 0.9 * ((k as f64 * 0.618034 + list.len() as f64 * 0.37) % 1.0);
        let q = (x.0 + t * (y.0 - x.0), x.1 + t * (y.1 - x.1));
        let used = list.iter().any(|l| edge_dist(l, q) < 1e-9);
        let left = unused.iter().any(|(s, t)| dist_point_segment(*s, *t, q) < 1e-9);
        if !used && !left && !(list.is_empty() && unused.is_empty()) {
            return bad(log, format!("{:?} is neither on the result nor on an unused segment", q));
        }
        if used && left && edge_dist(&a, q) + edge_dist(&b, q) > 1e-6 {
            return bad(log, format!("{:?} is both on the result and on an unused segment", q));
        }
        log.count("pieces accounted for", 1);
    }
    log.sample(|| input.clone());
}
fn overlap(x: P, y: P, s: P, t: P) -> bool {
    let d = (y.0 - x.0, y.1 - x.1);
    let l = d.0 * d.0 + d.1 * d.1;
    let u = |q: P| ((q.0 - x.0) * d.0 + (q.1 - x.1) * d.1) / l;
    let (a, b) = (u(s).min(u(t)), u(s).max(u(t)));
    b.min(1.0) - a.max(0.0) > 1e-9
}
/// simple, where vertices may lie on edges up to rounding
fn near_simple(l: &[P], pinched: bool) -> bool {
    let n = l.len();
    for i in 0..n {
        for j in i + 1..n {
            if dist(l[i], l[j]) < 1e-9 {
                if pinched {
                    continue;
                }
                return false;
            }
            let (a, b, c, d) = (l[i], l[(i + 1) % n], l[j], l[(j + 1) % n]);
            let adjacent = j == i + 1 || (i == 0 && j == n - 1);
            if !adjacent && segments_cross(a, b, c, d) {
                return false;
            }
        }
    }
    true
}
/// how often a polyline runs counterclockwise around a point that is not on it
fn winding(l: &[P], q: P) -> i64 {
    let mut w = 0;
    for (a, b) in poly_edges(l) {
        if a.1 <= q.1 && b.1 > q.1 && orient(a, b, q) > 0 {
            w += 1;
        } else if a.1 > q.1 && b.1 <= q.1 && orient(a, b, q) < 0 {
            w -= 1;
        }
    }
    w
}
fn hash(v: &[P]) -> u64 {
    v.iter().fold(0xcbf29ce484222325u64, |h, q| (h ^ q.0.to_bits()).wrapping_mul(0x100000001b3) ^ q.1.to_bits().rotate_left(23))
}

/// G04: continence of one polyline (closed or opened) against another, and the vertices they share
pub fn continence(_id: &str, _i: u64, r: &mut Rng, log: &mut Log) {
    let (a, mut b, class) = pair(r);
    let opened = r.chance(0.4);
    if opened {
        let n = r.range(2, b.len() as i64) as usize;
        b.truncate(n);
    }
    let input = format!("class={} p1={:?} p2={:?} opened={}", class, a, b, opened);
    let (a2, b2) = (a.clone(), b.clone());
    let got = guarded(r.next(), 50_000_000, log, move || {
        let p1 = poly(&a2);
        let vs = b2.iter().map(|q| v(*q)).collect();
        let p2 = if opened { Polyline::new_opened(vs).unwrap() } else { Polyline::new_closed(vs).unwrap() };
        let c = Polyline::continence(&p1, &p2).map(|(c, i)| (c == Continence::Inside, c == Continence::Outside, i == BoundaryInclusion::Open));
        let mut x: Vec<P> = Polyline::intersection_vertices(&p1, &p2).iter().map(|w| p(w)).collect();
        x.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let of_opened = opened && Polyline::continence(&p2, &p1).is_some();
        (c, x, of_opened)
    });
    let (c, x, of_opened) = match got {
        Got::Ok(x, _) => x,
        Got::Bad(e) => return log.violation("random", e, input),
        Got::Unknown => return,
    };
    let es: Vec<Seg> = if opened { b.windows(2).map(|w| (w[0], w[1])).collect() } else { poly_edges(&b).collect() };
    let bad = |log: &mut Log, what: String| log.violation("random", what, input.clone());
    if of_opened {
        return bad(log, "continence in an opened polyline".into());
    }
    // where the pieces of p2 lie: cut its edges at everything that meets them
    let (mut ins, mut out, mut on) = (0, 0, 0);
    let mut touch = false;
    for (s, t) in &es {
        let mut cuts = vec![0.0, 1.0];
        let d = (t.0 - s.0, t.1 - s.1);
        let l = d.0 * d.0 + d.1 * d.1;
        for (u, w) in poly_edges(&a) {
            if !segments_touch(*s, *t, u, w) {
                continue;
            }
            touch = true;
            for q in [u, w] {
                if on_segment(*s, *t, q) {
                    cuts.push(((q.0 - s.0) * d.0 + (q.1 - s.1) * d.1) / l);
                }
            }
            if segments_cross(*s, *t, u, w) {
                let e = (w.0 - u.0, w.1 - u.1);
                cuts.push(((u.0 - s.0) * e.1 - (u.1 - s.1) * e.0) / (d.0 * e.1 - d.1 * e.0));
            }
        }
        cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for w in cuts.windows(2) {
            if w[1] - w[0] < 1e-9 {
                continue;
            }
            let t = (w[0] + w[1]) / 2.0;
            let m = (s.0 + t * d.0, s.1 + t * d.1);
            if edge_dist(&a, m) < 1e-9 {
                on += 1;
            } else if locate(&a, m) == Loc::In {
                ins += 1;
            } else {
                out += 1;
            }
        }
    }
    log.nontrivial(hash(&a) ^ hash(&b).rotate_left(7) ^ opened as u64);
    // p1's own pieces are judged too: a p2 around p1 is not consistently outside only if it crosses it
    let want = if ins > 0 && out > 0 { None } else if ins > 0 { Some((true, false, !touch)) } else if out > 0 { Some((false, true, !touch)) } else { Some((false, false, false)) };
    log.count(match want { None => "crossing", Some((true, _, true)) => "strictly inside", Some((true, _, false)) => "inside and touching", Some((_, true, true)) => "strictly outside", Some((_, true, false)) => "outside and touching", _ => "on the boundary" }, 1);
    let _ = on;
    if c != want {
        return bad(log, format!("continence (inside, outside, open) is {:?} instead of {:?}", c, want));
    }
    // the shared vertices
    for q in &x {
        if edge_dist(&a, *q) > 1e-9 || es.iter().map(|(s, t)| dist_point_segment(*s, *t, *q)).fold(f64::MAX, f64::min) > 1e-9 {
            return bad(log, format!("{:?} is not a common vertex", q));
        }
    }
    if x.is_empty() == touch {
        return bad(log, format!("common vertices {:?}, touching: {}", x, touch));
    }
    for (s, t) in &es {
        for (u, w) in poly_edges(&a) {
            if segments_cross(*s, *t, u, w) && !x.iter().any(|q| dist_point_segment(*s, *t, *q) < 1e-9 && dist_point_segment(u, w, *q) < 1e-9) {
                return bad(log, format!("the crossing of {:?} and {:?} is missing", (s, t), (u, w)));
            }
        }
    }
    log.sample(|| input.clone());
}
