//! Triangulator properties: structure, coverage, vertices, constraints, Delaunay, termination,
//! stepwise invariants, hash-order independence, histories, similarity, refinement.
use crate::ctx::*;
use crate::domain::*;
use crate::exact::*;
use crate::gen::Domain;
use crate::mesh::*;
use crate::rng::Rng;
use crate::sched::*;
use nlsn_delaunay::planar::triangulation_procedures as proc_;
use nlsn_delaunay::*;
use std::collections::HashSet;
use std::rc::Rc;

/// allocations (1 per allocation + 1 per KiB) a triangulation may use before it counts as not
/// terminating: quadratic in the input size, 30x above what was observed
pub fn tri_budget(d: &Domain) -> u64 {
    let n = (d.boundary.len() + d.holes.iter().map(|h| h.len()).sum::<usize>() + 4 * d.segs.len() + d.verts.len()) as u64;
    2_000_000 + 20_000 * n * n
}
pub const REFINE_BUDGET: u64 = 100_000_000;

#[derive(Clone, Copy, Debug)]
pub struct Plan(pub u64);

/// feeds the triangulator with the domain, in one of several orders and batchings
pub fn build(d: &Domain, plan: Plan) -> Result<Triangulator, String> {
    let mut r = Rng::new(plan.0, 77);
    let mut t = Triangulator::new(&poly(&d.boundary));
    let mut holes: Vec<&Vec<P>> = d.holes.iter().collect();
    r.shuffle(&mut holes);
    for h in holes {
        if t.insert_hole(&poly(h)).is_err() {
            return Err(format!("insert_hole rejected {:?}", h));
        }
    }
    let mut segs = d.segs.clone();
    let mut verts = d.verts.clone();
    r.shuffle(&mut segs);
    r.shuffle(&mut verts);
    for s in segs.iter_mut() {
        if r.chance(0.5) {
            *s = (s.1, s.0);
        }
    }
    let split = r.chance(0.5);
    let order = r.below(3);
    let ins_s = |t: &mut Triangulator, s: &[(P, P)]| -> Result<(), String> {
        let set: HashSet<Rc<Edge>> = s.iter().map(|(a, b)| edge(*a, *b)).collect();
        t.insert_segments(&set).map(|_| ()).map_err(|e| format!("insert_segments rejected {} of {:?}", e.len(), s))
    };
    let ins_v = |t: &mut Triangulator, s: &[P]| -> Result<(), String> {
        let set: HashSet<Rc<Vertex>> = s.iter().map(|q| v(*q)).collect();
        t.insert_vertices(&set).map(|_| ()).map_err(|e| format!("insert_vertices rejected {} of {:?}", e.len(), s))
    };
    let (hs, hv) = if split { (segs.len() / 2, verts.len() / 2) } else { (segs.len(), verts.len()) };
    let mut ops: Vec<(bool, usize, usize)> = vec![(true, 0, hs), (true, hs, segs.len()), (false, 0, hv), (false, hv, verts.len())];
    match order {
        0 => {}
        1 => ops.rotate_left(2),
        _ => ops.swap(1, 2),
    }
    for (s, a, b) in ops {
        if s {
            ins_s(&mut t, &segs[a..b])?;
        } else {
            ins_v(&mut t, &verts[a..b])?;
        }
    }
    Ok(t)
}

pub enum Got<T> {
    Ok(T, u64),
    Bad(String),
    Unknown,
}
/// run under a hash seed and a budget; panics, overruns and spins are reported as failures
pub fn guarded<T: Send + 'static>(hseed: u64, budget: u64, log: &mut Log, f: impl FnOnce() -> T + Send + 'static) -> Got<T> {
    let o = run(hseed, budget, 120.0, move || {
        let fp = order_fingerprint();
        (f(), fp)
    });
    log.eval();
    match o {
        Outcome::Done { value: (value, fp), work } => {
            log.distinct_in("hash orders", fp);
            log.max("work (allocations) of one execution", work);
            Got::Ok(value, work)
        }
        Outcome::Panic { msg, .. } => {
            log.count("executions that panicked", 1);
            Got::Bad(format!("panicked: {}", msg))
        }
        Outcome::Overrun => {
            log.count("executions over the work budget", 1);
            Got::Bad(format!("did not finish within {} units of work", budget))
        }
        Outcome::Spin => {
            log.count("executions over the cpu budget", 1);
            Got::Bad("did not finish within 120 s of cpu time".into())
        }
        Outcome::Inconclusive => {
            log.count("inconclusive executions (machine too loaded)", 1);
            Got::Unknown
        }
    }
}

pub fn some_domain(r: &mut Rng, o: Opts) -> Domain {
    loop {
        if let Some(d) = generate(r, o) {
            return d;
        }
    }
}

pub fn note(log: &mut Log, d: &Domain, w: &Verdict) {
    log.count("triangles observed", w.n_tris);
    log.count("edges observed", w.n_edges);
    log.count("constrained edges observed", w.n_cons);
    log.count("circumcircles tested", w.n_circles);
    log.count("cocircular quadruples met", w.n_cocircular);
    log.count(&format!("domains {}", d.class.split('/').next().unwrap()), 1);
    if !d.holes.is_empty() {
        log.count("domains with holes", 1);
    }
    if !d.segs.is_empty() {
        log.count("domains with segments", 1);
    }
    if !d.crossings().is_empty() {
        log.count("domains with crossing segments", 1);
    }
    if d.overlaps() {
        log.count("domains with segments over one another", 1);
    }
    if d.class.ends_with("moved") {
        log.count("domains scaled or translated", 1);
    }
    if w.n_tris > 2 {
        log.nontrivial(d.key());
    }
}
fn opts_for(i: u64) -> Opts {
    if i % 16 == 13 {
        return Opts { max_holes: 10, max_segs: 30, max_verts: 250, ..FULL };
    }
    match i % 8 {
        0 => Opts { max_holes: 0, max_segs: 0, max_verts: 60, ..FULL },
        1 => Opts { max_holes: 4, max_segs: 0, max_verts: 8, ..FULL },
        2 => Opts { max_holes: 0, max_segs: 10, max_verts: 10, ..FULL },
        3 => Opts { max_holes: 1, max_segs: 2, max_verts: 3, ..FULL },
        _ => FULL,
    }
}
pub fn pick(id: &str, w: &Verdict) -> Vec<String> {
    match id {
        "T01" => w.valid.clone(),
        "T02" => w.cover.clone(),
        "R01" => [&w.valid[..], &w.cover[..]].concat(),
        "T03" | "R03" => w.verts.clone(),
        "T04" | "R04" => w.cons.clone(),
        "T05" | "R05" => w.delaunay.clone(),
        _ => [&w.valid[..], &w.cover[..], &w.verts[..], &w.cons[..], &w.delaunay[..]].concat(),
    }
}

/// T01..T06: one triangulation of a random domain
pub fn triangulate(id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = some_domain(r, opts_for(i));
    let (plan, hs) = (Plan(r.next()), r.next());
    one_triangulation(id, "random", d, plan, hs, log);
}
pub fn one_triangulation(id: &str, key: &str, d: Domain, plan: Plan, hs: u64, log: &mut Log) {
    let d2 = d.clone();
    let budget = tri_budget(&d);
    let got = guarded(hs, budget, log, move || {
        build(&d2, plan).map(|mut t| {
            t.triangulate();
            snap_of(&t)
        })
    });
    let input = || format!("{} plan={:?} hash_seed={}", d.text(), plan, hs);
    if log.verbose {
        eprintln!("{}", input());
    }
    match got {
        Got::Ok(Ok(s), work) => {
            let w = judge(&d, &s, false);
            log.max("work in 1/1000 of the budget", work * 1000 / budget);
            note(log, &d, &w);
            log.distinct_in("meshes", hash_mesh(&s));
            log.sample(|| format!("{} -> {} triangles", input(), w.n_tris));
            if id == "T06" {
                return;
            }
            let bad = pick(id, &w);
            if let Some(b) = bad.first() {
                log.violation(key, format!("{} ({} findings)", b, bad.len()), input());
            }
        }
        Got::Ok(Err(e), _) => log.violation(key, format!("valid input refused: {}", e), input()),
        Got::Bad(e) => log.violation(key, format!("triangulate {}", e), input()),
        Got::Unknown => {}
    }
}

/// T07: the state after every inclusion step of the public procedures
pub fn stepwise(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = some_domain(r, Opts { max_verts: 14, max_segs: 4, ..opts_for(i + 3) });
    let (plan, hs) = (Plan(r.next()), r.next());
    let d2 = d.clone();
    let got = guarded(hs, tri_budget(&d) * 4, log, move || -> Result<Vec<(String, Domain, Snap, Option<String>)>, String> {
        let t = build(&d2, plan)?;
        let mut out = vec![];
        let v1 = Rc::clone(&t.boundary.vertices[0]);
        let v2 = Rc::clone(&t.boundary.vertices[1]);
        let mut tr = Triangulation::from_initial_segment((&v1, &v2));
        let mut cur = Domain { class: d2.class.clone(), boundary: d2.boundary.clone(), exact: d2.exact, ..Default::default() };
        proc_::boundary::include(&mut tr, &t.boundary, &HashSet::new());
        out.push(("boundary".into(), cur.clone(), snap_triangulation(&tr), None));
        let mut cons: HashSet<Rc<Edge>> = t.boundary.into_edges().into_iter().collect();
        for h in t.holes.iter() {
            proc_::hole::include(&mut tr, h, &cons);
            cons.extend(h.into_edges());
            cur.holes.push(h.vertices.iter().map(|w| p(w)).collect());
            out.push(("hole".into(), cur.clone(), snap_triangulation(&tr), None));
        }
        for s in t.segments.iter() {
            proc_::segment::include(&mut tr, s, &cons);
            cons.insert(Rc::clone(s));
            cur.segs.push((p(&s.v1), p(&s.v2)));
            out.push(("segment".into(), cur.clone(), snap_triangulation(&tr), None));
        }
        for w in t.vertices.iter() {
            let before: HashSet<Rc<Triangle>> = tr.triangles.iter().cloned().collect();
            let (inc, rem) = proc_::vertices::include(&mut tr, vec![Rc::clone(w)], &cons, &Some(Rc::clone(&t.boundary)), &t.holes);
            cur.verts.push(p(w));
            // the reported change is the change
            let bad_inc = tr.triangles.iter().filter(|x| !before.contains(*x)).any(|x| !inc.contains(x));
            let bad_rem = before.iter().filter(|x| !tr.triangles.contains(*x)).any(|x| !rem.contains(x));
            let ghost_inc = inc.iter().any(|x| !tr.triangles.contains(x) && !rem.contains(x));
            let e = if bad_inc {
                Some("a new triangle is not reported as included".to_string())
            } else if bad_rem {
                Some("a vanished triangle is not reported as removed".to_string())
            } else if ghost_inc {
                Some("a reported triangle is neither there nor removed".to_string())
            } else {
                None
            };
            out.push(("vertex".into(), cur.clone(), snap_triangulation(&tr), e));
        }
        Ok(out)
    });
    let input = || format!("{} plan={:?} hash_seed={}", d.text(), plan, hs);
    match got {
        Got::Ok(Ok(steps), _) => {
            for (k, (name, cur, s, e)) in steps.iter().enumerate() {
                let w = judge(cur, s, false);
                log.count(&format!("states after a {} step", name), 1);
                log.distinct_in("intermediate meshes", hash_mesh(s));
                let bad = pick("", &w);
                if let Some(b) = bad.first().or(e.as_ref()) {
                    log.violation("random", format!("after step {} ({}): {}", k, name, b), input());
                    break;
                }
            }
            if steps.len() > 2 {
                log.nontrivial(d.key());
            }
            log.sample(|| format!("{} -> {} steps", input(), steps.len()));
        }
        Got::Ok(Err(e), _) => log.violation("random", format!("valid input refused: {}", e), input()),
        Got::Bad(e) => log.violation("random", e, input()),
        Got::Unknown => {}
    }
}

fn mesh_of(d: &Domain, plan: Plan, hs: u64, log: &mut Log, times: u64) -> Got<Result<Vec<Snap>, String>> {
    let d2 = d.clone();
    guarded(hs, tri_budget(d) * (times + 1), log, move || {
        build(&d2, plan).map(|mut t| {
            (0..times)
                .map(|_| {
                    t.triangulate();
                    snap_of(&t)
                })
                .collect()
        })
    })
}

/// H01: the same input under several hash orders, insertion orders and rotations of the rings
pub fn orders(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = some_domain(r, opts_for(i));
    let mut first: Option<(std::collections::BTreeSet<[K; 3]>, bool, bool)> = None;
    let n = 6;
    let mut unique = false;
    for j in 0..n {
        let mut dd = d.clone();
        let nb = dd.boundary.len() as u64;
        dd.boundary.rotate_left(r.below(nb) as usize);
        for h in dd.holes.iter_mut() {
            let nh = h.len() as u64;
            h.rotate_left(r.below(nh) as usize);
        }
        let (plan, hs) = (Plan(r.next()), r.next());
        let input = format!("{} order={} plan={:?} hash_seed={}", dd.text(), j, plan, hs);
        match mesh_of(&dd, plan, hs, log, 1) {
            Got::Ok(Ok(s), _) => {
                let w = judge(&d, &s[0], false);
                log.distinct_in("meshes", hash_mesh(&s[0]));
                let bad = pick("", &w);
                if let Some(b) = bad.first() {
                    log.violation("random", format!("under order {}: {}", j, b), input);
                    return;
                }
                // the constrained Delaunay triangulation is unique without cocircular quadruples
                // (crossing points are computed, so their last bits may depend on the order)
                let set = canon_set(&s[0]);
                let gp = w.n_cocircular == 0 && d.crossings().is_empty();
                unique = gp;
                match &first {
                    None => {
                        note(log, &d, &w);
                        first = Some((set, gp, true));
                    }
                    Some((f, g, _)) => {
                        if gp && *g && *f != set {
                            log.violation("random", format!("order {} yields other triangles than order 0 ({} differ)", j, f.symmetric_difference(&set).count()), input);
                            return;
                        }
                    }
                }
            }
            Got::Ok(Err(e), _) => {
                log.violation("random", format!("order {} refuses the input: {}", j, e), input);
                return;
            }
            Got::Bad(e) => {
                log.violation("random", format!("order {} {}", j, e), input);
                return;
            }
            Got::Unknown => return,
        }
    }
    if unique {
        log.count("inputs whose mesh is unique, compared triangle by triangle", 1);
    }
    log.sample(|| d.text());
}

/// H03: similarity transforms that are exact in floating point
pub fn similarity(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = some_domain(r, Opts { transforms: false, stretch: false, ..opts_for(i) });
    let (plan, hs) = (Plan(r.next()), r.next());
    let base = match mesh_of(&d, plan, hs, log, 1) {
        Got::Ok(Ok(s), _) => s[0].clone(),
        Got::Unknown => return,
        Got::Ok(Err(e), _) | Got::Bad(e) => {
            log.violation("random", format!("base: {}", e), format!("{} plan={:?} hash_seed={}", d.text(), plan, hs));
            return;
        }
    };
    let w0 = judge(&d, &base, false);
    note(log, &d, &w0);
    log.sample(|| d.text());
    let gp = w0.n_cocircular == 0 && d.crossings().is_empty();
    for j in 0..4 {
        let kx = r.range(-30, 30) as i32;
        let s = if j == 3 { 1.0 } else { 2f64.powi(kx) };
        let off = if j == 2 && d.exact { (r.range(-100000, 100000) as f64 * s, r.range(-100000, 100000) as f64 * s) } else { (0.0, 0.0) };
        let quarter = j == 1 || j == 3;
        let f = move |q: P| {
            let q = if quarter { (-q.1, q.0) } else { q };
            (q.0 * s + off.0, q.1 * s + off.1)
        };
        let g = move |q: P| {
            let q = ((q.0 - off.0) / s, (q.1 - off.1) / s);
            if quarter {
                (q.1, -q.0)
            } else {
                q
            }
        };
        let e = d.map(f);
        if e.map(g).key() != d.map(|q| (q.0 + 0.0, q.1 + 0.0)).key() {
            // only -0.0 differs, or the offset is not exact
            let same = e.map(g).ring_edges() == d.ring_edges() && e.map(g).segs == d.segs && e.map(g).verts == d.verts;
            if !same {
                continue;
            }
        }
        let (plan, hs) = (Plan(r.next()), r.next());
        let input = format!("{} scale=2^{} quarter_turn={} offset={:?} plan={:?} hash_seed={}", d.text(), kx, quarter, off, plan, hs);
        match mesh_of(&e, plan, hs, log, 1) {
            Got::Ok(Ok(sn), _) => {
                let w = judge(&e, &sn[0], false);
                let bad = pick("", &w);
                if let Some(b) = bad.first() {
                    log.violation("random", format!("moved input: {}", b), input);
                    return;
                }
                if gp && w.n_cocircular == 0 {
                    let mut back = sn[0].clone();
                    for t in back.tris.iter_mut() {
                        for q in t.iter_mut() {
                            *q = g(*q);
                        }
                    }
                    log.count("meshes compared with the moved mesh", 1);
                    if canon_set(&back) != canon_set(&base) {
                        log.violation("random", "the moved input yields other triangles".into(), input);
                        return;
                    }
                }
            }
            Got::Ok(Err(e), _) | Got::Bad(e) => {
                log.violation("random", format!("moved input: {}", e), input);
                return;
            }
            Got::Unknown => return,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Triangulate,
    Refine(f64, Option<f64>),
}
fn apply(t: &mut Triangulator, o: &Op) {
    match o {
        Op::Triangulate => {
            t.triangulate();
        }
        Op::Refine(q, a) => {
            t.refine(RefineParams { quality_ratio: *q, max_area: *a });
        }
    }
}
pub fn refine_opts(i: u64) -> Opts {
    match i % 6 {
        0 => Opts { max_holes: 0, max_segs: 0, max_verts: 10, incidences: true, transforms: true, overlaps: true, stretch: false },
        1 => Opts { max_holes: 3, max_segs: 0, max_verts: 4, incidences: true, transforms: true, overlaps: true, stretch: false },
        2 => Opts { max_holes: 0, max_segs: 5, max_verts: 4, incidences: true, transforms: true, overlaps: true, stretch: false },
        _ => Opts { max_holes: 2, max_segs: 3, max_verts: 8, incidences: true, transforms: true, overlaps: true, stretch: false },
    }
}
/// about how many triangles it takes to fill the narrow passages between edges that don't meet
fn passages(d: &Domain) -> f64 {
    let mut edges = d.ring_edges();
    edges.extend(d.segs.iter().cloned());
    let mut n = 0.0;
    for (a, b) in &edges {
        let l = dist(*a, *b);
        for j in 0..32 {
            let t = (j as f64 + 0.5) / 32.0;
            let q = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
            let near = edges
                .iter()
                .filter(|(x, y)| ![a, b].contains(&x) && ![a, b].contains(&y))
                .map(|(x, y)| dist_point_segment(*x, *y, q))
                .filter(|x| *x > 0.0)
                .fold(l, f64::min);
            n += l / 32.0 / near;
        }
    }
    n
}
/// a domain to be refined, whose mesh stays of a moderate size
pub fn refinable(r: &mut Rng, o: Opts) -> Domain {
    loop {
        let d = some_domain(r, o);
        if passages(&d) < 2500.0 {
            return d;
        }
    }
}
pub fn refine_params(r: &mut Rng, d: &Domain) -> (f64, Option<f64>) {
    let q = *r.pick(&[1.5, 1.5, 1.4143, 2.0, 1.5, 3.0, 1.2, 10.0]);
    let a = match r.below(3) {
        0 => None,
        1 => Some(d.area() / r.uniform(8.0, 80.0)),
        _ => Some(d.area() / r.uniform(100.0, 500.0)),
    };
    (q, a)
}

/// R01..R06: one refinement (or two, the second finer)
pub fn refine(id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let mut d = refinable(r, refine_opts(i));
    if id == "R06" {
        // the quality bound is claimed where constraints don't meet at small angles
        for _ in 0..400 {
            if d.min_angle() >= 60.0 - 1e-9 {
                break;
            }
            d = refinable(r, refine_opts(i));
        }
        if d.min_angle() < 60.0 - 1e-9 {
            return;
        }
    }
    let (mut q, mut a) = refine_params(r, &d);
    if id == "R06" {
        q = q.max(1.4143);
    }
    if id == "R07" && i % 2 == 0 {
        a = Some(d.area() / r.uniform(20.0, 600.0));
    }
    let mut ops = vec![Op::Triangulate];
    if r.chance(0.25) {
        ops.push(Op::Refine(q * 2.0, a.map(|x| x * 4.0)));
    }
    ops.push(Op::Refine(q, a));
    let (plan, hs) = (Plan(r.next()), r.next());
    one_refinement(id, "random", d, ops, plan, hs, log);
}
pub fn one_refinement(id: &str, key: &str, d: Domain, ops: Vec<Op>, plan: Plan, hs: u64, log: &mut Log) {
    let (d2, o2) = (d.clone(), ops.clone());
    let (q, a) = match ops.last().unwrap() {
        Op::Refine(q, a) => (*q, *a),
        _ => unreachable!(),
    };
    let got = guarded(hs, REFINE_BUDGET, log, move || {
        build(&d2, plan).map(|mut t| {
            apply(&mut t, &o2[0]);
            let n0 = t.triangulation.borrow().vertices().len();
            for o in &o2[1..] {
                apply(&mut t, o);
            }
            (snap_of(&t), n0)
        })
    });
    let input = || format!("{} ops={:?} plan={:?} hash_seed={}", d.text(), ops, plan, hs);
    if log.verbose {
        eprintln!("{}", input());
    }
    match got {
        Got::Ok(Ok((s, n0)), work) => {
            let w = judge(&d, &s, true);
            note(log, &d, &w);
            log.max("work in 1/1000 of the budget", work * 1000 / REFINE_BUDGET);
            log.count("vertices inserted by the refinements", (w.n_extra as i64 + crate::domain::wanted(&d).len() as i64 - n0 as i64).max(0) as u64);
            log.distinct_in("meshes", hash_mesh(&s));
            log.sample(|| format!("{} -> {} triangles", input(), w.n_tris));
            let qq = quality(&s, &w);
            let mut bad = vec![];
            match id {
                "R06" => {
                    if qq.worst_ratio > q * (1.0 + 1e-6) {
                        bad.push(format!("triangle {:?} has ratio {} > {}", qq.worst, qq.worst_ratio, q));
                    }
                    log.count("triangles whose ratio was tested", w.n_tris);
                }
                "R07" => {
                    if let Some(m) = a {
                        log.count("triangles whose area was tested", w.n_tris);
                        if qq.max_area > m * (1.0 + 1e-9) {
                            bad.push(format!("a triangle has area {} > {}", qq.max_area, m));
                        }
                    }
                }
                "R08" => {}
                "R09" => {
                    log.count("subsegments tested", w.sub.len() as u64);
                    if d.min_angle() >= 60.0 - 1e-9 {
                        if let Some(e) = qq.encroached.first() {
                            bad.push(format!("subsegment {:?} is encroached by {:?}", e.0, e.1));
                        }
                    }
                }
                _ => bad = pick(id, &w),
            }
            if let Some(b) = bad.first() {
                log.violation(key, format!("{} ({} findings)", b, bad.len()), input());
            }
        }
        Got::Ok(Err(e), _) => log.violation(key, format!("valid input refused: {}", e), input()),
        Got::Bad(e) => log.violation(key, format!("refine {}", e), input()),
        Got::Unknown => {}
    }
}

/// H02: histories of triangulate and refine on one triangulator
pub fn histories(_id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let d = refinable(r, refine_opts(i));
    let mut ops = vec![Op::Triangulate];
    let (q, a) = (*r.pick(&[1.5, 2.0, 3.0]), Some(d.area() / r.uniform(5.0, 60.0)));
    match r.below(4) {
        0 => ops.extend([Op::Refine(q, a), Op::Refine(q, a)]),
        1 => ops.extend([Op::Triangulate, Op::Refine(q, a), Op::Triangulate]),
        2 => ops.extend([Op::Refine(q * 2., a.map(|x| x * 6.)), Op::Refine(q, a.map(|x| x * 2.)), Op::Refine(q, a)]),
        _ => ops.extend([Op::Refine(q, a), Op::Triangulate, Op::Refine(q, None), Op::Refine(q, a)]),
    }
    let (plan, hs) = (Plan(r.next()), r.next());
    let (d2, o2) = (d.clone(), ops.clone());
    let got = guarded(hs, REFINE_BUDGET * 2, log, move || {
        build(&d2, plan).map(|mut t| {
            o2.iter()
                .map(|o| {
                    apply(&mut t, o);
                    snap_of(&t)
                })
                .collect::<Vec<_>>()
        })
    });
    let input = || format!("{} ops={:?} plan={:?} hash_seed={}", d.text(), ops, plan, hs);
    match got {
        Got::Ok(Ok(ss), _) => {
            log.count("operations observed", ss.len() as u64);
            log.nontrivial(d.key() ^ ops.len() as u64);
            log.sample(|| input());
            let mut base: Option<(std::collections::BTreeSet<[K; 3]>, bool)> = None;
            let mut prev: HashSet<K> = HashSet::new();
            for (n, (o, s)) in ops.iter().zip(ss.iter()).enumerate() {
                let refined = matches!(o, Op::Refine(..));
                let w = judge(&d, s, refined);
                if let Some(b) = pick("", &w).first() {
                    log.violation("random", format!("after operation {} {:?}: {}", n, o, b), input());
                    return;
                }
                let vs: HashSet<K> = s.tris.iter().flatten().map(|q| k(*q)).collect();
                match o {
                    Op::Triangulate => {
                        let gp = w.n_cocircular == 0;
                        match &base {
                            None => base = Some((canon_set(s), gp)),
                            Some((b, g)) => {
                                log.count("triangulations repeated", 1);
                                if *g && gp && *b != canon_set(s) {
                                    log.violation("random", format!("operation {} triangulates otherwise than the first time", n), input());
                                    return;
                                }
                            }
                        }
                    }
                    Op::Refine(_, a) => {
                        log.count("refinements observed in histories", 1);
                        if !prev.is_subset(&vs) {
                            log.violation("random", format!("operation {} {:?} lost {} vertices", n, o, prev.difference(&vs).count()), input());
                            return;
                        }
                        let qq = quality(s, &w);
                        if let Some(m) = a {
                            if qq.max_area > m * (1.0 + 1e-9) {
                                log.violation("random", format!("operation {} {:?} leaves an area of {}", n, o, qq.max_area), input());
                                return;
                            }
                        }
                        // refining again with the same parameters finds nothing to do
                        if let (Some(Op::Refine(q0, a0)), Op::Refine(q1, a1)) = (n.checked_sub(1).map(|m| &ops[m]), o) {
                            if q0 == q1 && a0 == a1 && d.min_angle() >= 60.0 - 1e-9 && *q0 >= 1.4143 {
                                log.count("refinements repeated", 1);
                                if vs.len() != prev.len() {
                                    log.violation("random", format!("the same refinement again inserts {} vertices", vs.len() - prev.len()), input());
                                    return;
                                }
                            }
                        }
                    }
                }
                prev = vs;
            }
        }
        Got::Ok(Err(e), _) => log.violation("random", format!("valid input refused: {}", e), input()),
        Got::Bad(e) => log.violation("random", e, input()),
        Got::Unknown => {}
    }
}
