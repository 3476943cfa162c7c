//! Exact geometric predicates over f64 inputs, by floating-point expansions
//! (error-free transformations). No dependency on the code under test.
//! Exact as long as no product over/underflows (all inputs used here are far from that).

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, f64::mul_add(a, b, -p))
}

/// Nonoverlapping expansion, components in increasing magnitude.
#[derive(Clone, Debug)]
pub struct Ex(pub Vec<f64>);

impl Ex {
    pub fn zero() -> Self {
        Ex(vec![])
    }
    pub fn from(a: f64) -> Self {
        if a == 0.0 {
            Ex(vec![])
        } else {
            Ex(vec![a])
        }
    }
    pub fn diff(a: f64, b: f64) -> Self {
        let (h, l) = two_sum(a, -b);
        let mut v = vec![];
        if l != 0.0 {
            v.push(l);
        }
        if h != 0.0 {
            v.push(h);
        }
        Ex(v)
    }
    fn grow(&self, b: f64) -> Ex {
        let mut q = b;
        let mut out = Vec::with_capacity(self.0.len() + 1);
        for &e in &self.0 {
            let (s, r) = two_sum(q, e);
            if r != 0.0 {
                out.push(r);
            }
            q = s;
        }
        if q != 0.0 {
            out.push(q);
        }
        Ex(out)
    }
    pub fn add(&self, o: &Ex) -> Ex {
        let mut r = self.clone();
        for &b in &o.0 {
            r = r.grow(b);
        }
        r
    }
    pub fn neg(&self) -> Ex {
        Ex(self.0.iter().map(|x| -x).collect())
    }
    pub fn sub(&self, o: &Ex) -> Ex {
        self.add(&o.neg())
    }
    pub fn scale(&self, b: f64) -> Ex {
        let mut r = Ex::zero();
        for &a in &self.0 {
            let (p, e) = two_prod(a, b);
            if e != 0.0 {
                r = r.grow(e);
            }
            if p != 0.0 {
                r = r.grow(p);
            }
        }
        r
    }
    pub fn mul(&self, o: &Ex) -> Ex {
        let mut r = Ex::zero();
        for &b in &o.0 {
            r = r.add(&self.scale(b));
        }
        r
    }
    pub fn sign(&self) -> i32 {
        match self.0.last() {
            None => 0,
            Some(x) if *x > 0.0 => 1,
            Some(x) if *x < 0.0 => -1,
            _ => 0,
        }
    }
    /// Correct to within a few ulps.
    pub fn approx(&self) -> f64 {
        self.0.iter().sum()
    }
    pub fn cmp(&self, o: &Ex) -> i32 {
        self.sub(o).sign()
    }
}

pub type P = (f64, f64);

/// Exact value of twice the signed area of abc.
pub fn orient_ex(a: P, b: P, c: P) -> Ex {
    let l = Ex::diff(b.0, a.0).mul(&Ex::diff(c.1, a.1));
    let r = Ex::diff(b.1, a.1).mul(&Ex::diff(c.0, a.0));
    l.sub(&r)
}
/// Exact sign of the orientation of abc: +1 counterclockwise.
pub fn orient(a: P, b: P, c: P) -> i32 {
    let l = (b.0 - a.0) * (c.1 - a.1);
    let r = (b.1 - a.1) * (c.0 - a.0);
    let d = l - r;
    let err = 4.0 * f64::EPSILON * (l.abs() + r.abs());
    if d > err {
        return 1;
    }
    if d < -err {
        return -1;
    }
    orient_ex(a, b, c).sign()
}

/// Exact in-circle determinant (positive: d strictly inside the circle through ccw abc).
pub fn incircle_ex(a: P, b: P, c: P, d: P) -> Ex {
    let adx = Ex::diff(a.0, d.0);
    let ady = Ex::diff(a.1, d.1);
    let bdx = Ex::diff(b.0, d.0);
    let bdy = Ex::diff(b.1, d.1);
    let cdx = Ex::diff(c.0, d.0);
    let cdy = Ex::diff(c.1, d.1);
    let sq = |x: &Ex, y: &Ex| x.mul(x).add(&y.mul(y));
    let det2 = |a: &Ex, b: &Ex, c: &Ex, d: &Ex| a.mul(d).sub(&b.mul(c));
    let t1 = sq(&adx, &ady).mul(&det2(&bdx, &bdy, &cdx, &cdy));
    let t2 = sq(&bdx, &bdy).mul(&det2(&adx, &ady, &cdx, &cdy));
    let t3 = sq(&cdx, &cdy).mul(&det2(&adx, &ady, &bdx, &bdy));
    t1.sub(&t2).add(&t3)
}

/// In-circle determinant as f64 (correct sign; a few ulps), with a fast path.
pub fn incircle(a: P, b: P, c: P, d: P) -> f64 {
    let (adx, ady) = (a.0 - d.0, a.1 - d.1);
    let (bdx, bdy) = (b.0 - d.0, b.1 - d.1);
    let (cdx, cdy) = (c.0 - d.0, c.1 - d.1);
    let al = adx * adx + ady * ady;
    let bl = bdx * bdx + bdy * bdy;
    let cl = cdx * cdx + cdy * cdy;
    let bc = bdx * cdy - bdy * cdx;
    let ac = adx * cdy - ady * cdx;
    let ab = adx * bdy - ady * bdx;
    let det = al * bc - bl * ac + cl * ab;
    let perm = al * ((bdx * cdy).abs() + (bdy * cdx).abs())
        + bl * ((adx * cdy).abs() + (ady * cdx).abs())
        + cl * ((adx * bdy).abs() + (ady * bdx).abs());
    if det.abs() > 16.0 * f64::EPSILON * perm {
        return det;
    }
    let e = incircle_ex(a, b, c, d);
    let v = e.approx();
    if v == 0.0 && e.sign() != 0 {
        return e.sign() as f64 * f64::MIN_POSITIVE;
    }
    v
}

/// Exact sign of (p-a).(p-b): negative strictly inside the diametral circle of ab.
pub fn diametral(a: P, b: P, p: P) -> i32 {
    let x = Ex::diff(p.0, a.0).mul(&Ex::diff(p.0, b.0));
    let y = Ex::diff(p.1, a.1).mul(&Ex::diff(p.1, b.1));
    x.add(&y).sign()
}

/// p lies on the closed segment ab (exact).
pub fn on_segment(a: P, b: P, p: P) -> bool {
    p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
        && orient(a, b, p) == 0
}

/// Closed segments ab and cd share a point (exact).
pub fn segments_touch(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}
/// Relative interiors cross at a single point (exact).
pub fn segments_cross(a: P, b: P, c: P, d: P) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loc {
    In,
    On,
    Out,
}
/// Exact point-in-polygon (closed polygonal chain, even-odd via exact crossing number).
pub fn locate(poly: &[P], p: P) -> Loc {
    let n = poly.len();
    let mut inside = false;
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        if on_segment(a, b, p) {
            return Loc::On;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            let up = b.1 > a.1;
            if (up && o > 0) || (!up && o < 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        Loc::In
    } else {
        Loc::Out
    }
}

/// Exact twice-signed-area of a polygon.
pub fn area2_ex(poly: &[P]) -> Ex {
    let n = poly.len();
    let mut r = Ex::zero();
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        let (p, e) = two_prod(a.0, b.1);
        let (q, f) = two_prod(-a.1, b.0);
        for t in [e, p, f, q] {
            if t != 0.0 {
                r = r.grow(t);
            }
        }
    }
    r
}

pub fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
pub fn dist_point_segment(a: P, b: P, p: P) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    if l2 == 0.0 {
        return dist(a, p);
    }
    let t = (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l2).max(0.0).min(1.0);
    dist(p, (a.0 + t * dx, a.1 + t * dy))
}
pub fn is_simple(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in (i + 1)..n {
            let (c, d) = (poly[j], poly[(j + 1) % n]);
            let adj = j == i + 1 || (i == 0 && j == n - 1);
            if adj {
                // share exactly one endpoint; the other must not lie on the neighbour
                if j == i + 1 {
                    if on_segment(a, b, d) || on_segment(c, d, a) {
                        return false;
                    }
                } else if on_segment(a, b, c) || on_segment(c, d, b) {
                    return false;
                }
            } else if segments_touch(a, b, c, d) {
                return false;
            }
        }
    }
    true
}
