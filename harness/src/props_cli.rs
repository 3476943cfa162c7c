//! C01..C05: the command line program as a black box: JSON in, JSON out. The program runs in a scratch
//! directory, with its hash order drawn from a seed (LD_PRELOAD shim), a CPU limit and a memory limit.
use crate::ctx::*;
use crate::domain::*;
use crate::exact::*;
use crate::gen::*;
use crate::json::*;
use crate::mesh::*;
use crate::props_bool::{grid_polygon, shifted};
use crate::props_pred::polygon;
use crate::props_tri::{note, pick, refine_opts, some_domain};
use crate::region::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub fn scratch() -> String {
    format!("{}/vmon-cli-{}", std::env::temp_dir().display(), std::process::id())
}
#[derive(Debug)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub file: Option<String>,
    /// the wall-clock guard fired (loaded machine)
    pub unknown: bool,
}
#[derive(Clone, Debug)]
pub enum Out {
    Stdout,
    File,
    /// a file that exists already, with this content
    Over(String),
    /// a path that can't be written
    Unwritable,
}
#[derive(Clone, Debug)]
pub enum In {
    Text(String),
    Missing,
    Dir,
}
/// runs the program once
pub fn cli(cfg: &Cfg, seed: u64, input: &In, out: &Out, log: &mut Log) -> Run {
    let tid = format!("{:?}", std::thread::current().id());
    let tid: String = tid.chars().filter(|c| c.is_ascii_digit()).collect();
    let dir = format!("{}/{}", scratch(), tid);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = |n: &str| format!("{}/{}", dir, n);
    for f in ["in.json", "out.json", "stdout", "stderr"] {
        let _ = std::fs::remove_file(path(f));
    }
    let inp = match input {
        In::Text(t) => {
            std::fs::write(path("in.json"), t).expect("scratch file");
            path("in.json")
        }
        In::Missing => path("missing.json"),
        In::Dir => dir.clone(),
    };
    let mut c = Command::new(&cfg.bin);
    c.arg(if seed % 2 == 0 { "-i" } else { "--input" }).arg(inp);
    match out {
        Out::Stdout => {}
        Out::File | Out::Over(_) => {
            c.arg(if seed % 2 == 0 { "-o" } else { "--output" }).arg(path("out.json"));
        }
        Out::Unwritable => {
            c.arg("-o").arg(path("no/such/directory/out.json"));
        }
    }
    if let Out::Over(t) = out {
        std::fs::write(path("out.json"), t).expect("scratch file");
    }
    let f = |n: &str| Stdio::from(std::fs::File::create(path(n)).expect("scratch file"));
    c.stdin(Stdio::null()).stdout(f("stdout")).stderr(f("stderr")).current_dir(&dir);
    c.env("LD_PRELOAD", &cfg.shim).env("VMON_HASH_SEED", seed.to_string()).env("RUST_BACKTRACE", "0");
    unsafe {
        c.pre_exec(|| {
            let l = |r, v| {
                let x = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
                libc::setrlimit(r, &x);
            };
            l(libc::RLIMIT_CPU, 60);
            l(libc::RLIMIT_AS, 4 << 30);
            l(libc::RLIMIT_CORE, 0);
            l(libc::RLIMIT_FSIZE, 256 << 20);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("the program under test");
    log.eval();
    let t0 = std::time::Instant::now();
    let mut nap = 200;
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        if t0.elapsed().as_secs_f64() > 400.0 {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(5000);
    };
    let read = |n: &str| std::fs::read(path(n)).ok().map(|b| String::from_utf8_lossy(&b).into_owned());
    if status.is_none() {
        log.count("inconclusive executions (machine too loaded)", 1);
    }
    Run {
        code: status.and_then(|s| s.code()),
        signal: status.and_then(|s| s.signal()),
        stdout: read("stdout").unwrap_or_default(),
        stderr: read("stderr").unwrap_or_default(),
        file: read("out.json"),
        unknown: status.is_none(),
    }
}
fn why(r: &Run) -> String {
    let e: String = r.stderr.chars().take(300).collect();
    format!("exit code {:?} signal {:?}: {}", r.code, r.signal, e.replace('\n', " "))
}

/// a decimal with at most 8 digits after the point: every reader gets the same double
fn dec(x: f64) -> f64 {
    (x * 1e8).round() / 1e8
}
fn number(x: f64, r: &mut Rng) -> String {
    match r.below(6) {
        0 if x.fract() == 0.0 => format!("{}.0", x),
        1 => format!("{}e0", x),
        2 if x == 0.0 => "-0.0".into(),
        _ => format!("{}", x),
    }
}
fn points(v: &[P], r: &mut Rng) -> String {
    let z = r.chance(0.2);
    let l: Vec<String> = v
        .iter()
        .map(|q| {
            let (x, y) = (number(q.0, r), number(q.1, r));
            match r.below(4) {
                0 if z => format!("{{\"x\":{},\"y\":{},\"z\":{}}}", x, y, r.range(-3, 3)),
                1 => format!("{{\"y\": {}, \"x\": {}}}", y, x),
                _ => format!("{{ \"x\": {}, \"y\": {} }}", x, y),
            }
        })
        .collect();
    format!("[{}]", l.join(","))
}
#[derive(Clone, Debug)]
pub enum Shape {
    Poly(Vec<P>),
    /// center, radius, resolution (100 if none)
    Circle(P, f64, Option<u64>),
}
impl Shape {
    /// the counterclockwise polygon it stands for
    pub fn ring(&self) -> Vec<P> {
        match self {
            Shape::Poly(v) => ccw(v.clone()),
            Shape::Circle(c, rad, n) => {
                let n = n.unwrap_or(100);
                let step = std::f64::consts::PI * 2.0 / n as f64;
                (0..n).map(|i| (c.0 + rad * (step * i as f64).cos(), c.1 + rad * (step * i as f64).sin())).collect()
            }
        }
    }
    fn json(&self, intent: &str, r: &mut Rng) -> String {
        match self {
            Shape::Poly(v) => {
                let mut v = v.clone();
                if r.chance(0.3) {
                    v.reverse();
                }
                let k = r.below(v.len() as u64) as usize;
                v.rotate_left(k);
                if r.chance(0.15) {
                    v.push(v[0]);
                }
                action(intent, "polyline", None, &points(&v, r), None)
            }
            Shape::Circle(c, rad, n) => {
                let s = match n {
                    Some(n) if r.chance(0.3) => format!("[{},{}]", number(*rad, r), *n as f64 + r.pick(&[0.25, -0.25])),
                    Some(n) => format!("[{},{}]", number(*rad, r), n),
                    None => format!("[{}]", number(*rad, r)),
                };
                action(intent, "circle", Some(&s), &points(&[*c], r), None)
            }
        }
    }
}
fn action(intent: &str, geometry: &str, scalars: Option<&str>, points: &str, assemble: Option<&str>) -> String {
    let mut s = format!("{{\"intent\": \"{}\", \"geometry\": \"{}\"", intent, geometry);
    if let Some(x) = scalars {
        s += &format!(", \"scalars\": {}", x);
    }
    s += &format!(", \"points\": {}", points);
    if let Some(x) = assemble {
        s += &format!(", \"assemble\": {}", x);
    }
    s + "}"
}
fn segments(l: &[(P, P)], r: &mut Rng) -> String {
    let l: Vec<(P, P)> = l.iter().map(|s| if r.chance(0.5) { *s } else { (s.1, s.0) }).collect();
    if r.chance(0.5) {
        let v: Vec<P> = l.iter().flat_map(|s| [s.0, s.1]).collect();
        return action("constraint", "segments", None, &points(&v, r), None);
    }
    // shared points, in any order, with some that no segment refers to
    let mut v: Vec<P> = l.iter().flat_map(|s| [s.0, s.1]).collect();
    if r.chance(0.7) {
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
    }
    if r.chance(0.3) {
        v.push((77.0, 77.0));
    }
    r.shuffle(&mut v);
    let at = |q: P| v.iter().position(|x| *x == q).unwrap();
    let a: Vec<String> = l.iter().map(|s| format!("[{}, {}]", at(s.0), at(s.1))).collect();
    action("constraint", "segments", None, &points(&v, r), Some(&format!("[{}]", a.join(", "))))
}
/// an input file
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub id: Option<String>,
    pub name: String,
    pub date: Option<String>,
    pub actions: Vec<String>,
    pub quality: f64,
    pub area: Option<f64>,
}
impl Doc {
    pub fn text(&self, r: &mut Rng) -> String {
        let mut f = vec![format!("\"name\": {}", quote(&self.name)), format!("\"actions\": [{}]", self.actions.join(",\n  "))];
        if let Some(x) = &self.id {
            f.push(format!("\"id\": \"{}\"", x));
        }
        if let Some(x) = &self.date {
            f.push(format!("\"date\": {}", quote(x)));
        }
        let a = self.area.map_or(if r.chance(0.5) { ", \"max_area\": null".into() } else { String::new() }, |a| format!(", \"max_area\": {}", a));
        f.push(format!("\"params\": {{\"quality\": {}{}}}", self.quality, a));
        r.shuffle(&mut f);
        format!("{{{}}}\n", f.join(",\n"))
    }
}
pub fn header(r: &mut Rng) -> Doc {
    let id = format!("{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}", r.below(1 << 32), r.below(1 << 16), r.below(1 << 12), r.below(1 << 12), r.below(1 << 48));
    let names = ["Sample 1", "", "wrench", "\u{fc}nic\u{f6}de \u{1f600}", "quote \" and \\ back", "line\nbreak\ttab", "\u{7f}\u{1}", "a/b"];
    Doc {
        id: if r.chance(0.6) { Some(id) } else { None },
        name: r.pick(&names).to_string(),
        date: if r.chance(0.6) { Some(r.pick(&["2020-09-04T00:00:00.000Z", "yesterday", "", "2020-09-03T00:09:27.591Z"]).to_string()) } else { None },
        quality: 2.0,
        ..Default::default()
    }
}
pub struct Mesh {
    pub v: Vec<P>,
    pub t: Vec<[usize; 3]>,
}
/// reads and checks the shape of the output
pub fn read(doc: &Doc, text: &str) -> Result<Mesh, Vec<String>> {
    let j = match parse(text) {
        Some(j) => j,
        None => return Err(vec![format!("the output is not JSON: {:.200}", text)]),
    };
    let mut bad = vec![];
    let s = |k: &str| j.get(k).and_then(|x| x.str()).map(|x| x.to_string());
    match (s("id"), &doc.id) {
        (Some(a), Some(b)) if a == *b => {}
        (Some(a), None) if a.len() == 36 && a.bytes().enumerate().all(|(i, c)| if [8, 13, 18, 23].contains(&i) { c == b'-' } else { c.is_ascii_hexdigit() }) => {}
        (a, b) => bad.push(format!("id is {:?} instead of {:?}", a, b)),
    }
    if s("name").as_ref() != Some(&doc.name) {
        bad.push(format!("name is {:?} instead of {:?}", s("name"), doc.name));
    }
    match (s("date"), &doc.date) {
        (Some(a), Some(b)) if a == *b => {}
        (Some(a), None) if a.len() >= 20 && a.as_bytes()[4] == b'-' && a.as_bytes()[10] == b'T' => {}
        (a, b) => bad.push(format!("date is {:?} instead of {:?}", a, b)),
    }
    if j.get("tetrahedrons").and_then(|x| x.arr()).map(|x| x.len()) != Some(0) {
        bad.push("tetrahedrons are not an empty list".into());
    }
    let mut v = vec![];
    for c in j.get("coordinates").and_then(|x| x.arr()).unwrap_or(&[]) {
        let n = |k: &str| c.get(k).and_then(|x| x.num());
        match (n("x"), n("y"), n("z")) {
            (Some(x), Some(y), Some(z)) if x.is_finite() && y.is_finite() && z == 0.0 => v.push((x, y)),
            _ => bad.push(format!("coordinate {:?}", c)),
        }
    }
    let mut t = vec![];
    for c in j.get("triangles").and_then(|x| x.arr()).unwrap_or(&[]) {
        let n = |k: &str| c.get(k).and_then(|x| x.num()).filter(|x| *x >= 0.0 && x.fract() == 0.0 && *x < v.len() as f64).map(|x| x as usize);
        match (n("v1"), n("v2"), n("v3")) {
            (Some(a), Some(b), Some(c)) => t.push([a, b, c]),
            _ => bad.push(format!("triangle {:?} of {} coordinates", c, v.len())),
        }
    }
    if v.iter().map(|q| k(*q)).collect::<BTreeSet<K>>().len() != v.len() {
        bad.push("repeated coordinates".into());
    }
    let used: BTreeSet<usize> = t.iter().flatten().cloned().collect();
    if used.len() != v.len() {
        bad.push(format!("triangles refer to {} of {} coordinates", used.len(), v.len()));
    }
    if t.is_empty() {
        bad.push("no triangles".into());
    }
    if bad.is_empty() {
        Ok(Mesh { v, t })
    } else {
        Err(bad)
    }
}
/// a snapshot with the ghosts and the adjacency that belong to the triangles
fn snap_mesh(m: &Mesh) -> Snap {
    let mut s = Snap { tris: m.t.iter().map(|t| [m.v[t[0]], m.v[t[1]], m.v[t[2]]]).collect(), ..Default::default() };
    let mut dir: HashMap<(K, K), ()> = HashMap::new();
    for t in &s.tris {
        for j in 0..3 {
            dir.insert((k(t[j]), k(t[(j + 1) % 3])), ());
        }
    }
    for (a, b) in dir.keys() {
        if !dir.contains_key(&(*b, *a)) {
            s.ghosts.push([Some(unk(*b)), Some(unk(*a)), None]);
        }
    }
    let mut adj: BTreeMap<(Option<K>, Option<K>), [Option<P>; 3]> = BTreeMap::new();
    for t in s.tris.iter().map(|t| t.map(Some)).chain(s.ghosts.iter().cloned()) {
        for j in 0..3 {
            adj.insert((t[j].map(k), t[(j + 1) % 3].map(k)), t);
        }
    }
    s.adj = adj.into_iter().map(|((a, b), t)| ((a.map(unk), b.map(unk)), t)).collect();
    s
}
/// vertices that the program may round differently take the place of the expected ones
fn align(m: &mut Mesh, want: &[P]) {
    let have: BTreeSet<K> = m.v.iter().map(|q| k(*q)).collect();
    let gone: Vec<P> = want.iter().cloned().filter(|q| !have.contains(&k(*q))).collect();
    if gone.is_empty() {
        return;
    }
    let ok: BTreeSet<K> = want.iter().map(|q| k(*q)).collect();
    for q in m.v.iter_mut() {
        if !ok.contains(&k(*q)) {
            if let Some(w) = gone.iter().find(|w| dist(**w, *q) < 1e-13 * (1.0 + w.0.abs().max(w.1.abs()))) {
                *q = *w;
            }
        }
    }
}

fn valid(d: &Domain) -> bool {
    rings_ok(d) && rings_clear(d, 1e-3) && d.segs.iter().all(|s| seg_clear(d, s.0, s.1)) && d.verts.iter().all(|q| d.inside(*q))
}
/// the least distance between two features that don't meet: it bounds the size of the meshes
pub fn gap(d: &Domain) -> f64 {
    let mut edges = d.ring_edges();
    edges.extend(d.segs.iter().cloned());
    let mut pts: Vec<P> = edges.iter().flat_map(|e| vec![e.0, e.1]).collect();
    pts.extend(d.verts.iter().cloned());
    let mut g = f64::INFINITY;
    for (i, q) in pts.iter().enumerate() {
        for (a, b) in &edges {
            let x = dist_point_segment(*a, *b, *q);
            if x > 0.0 && a != q && b != q {
                g = g.min(x);
            }
        }
        for p in &pts[..i] {
            if p != q {
                g = g.min((p.0 - q.0).hypot(p.1 - q.1));
            }
        }
    }
    g
}
/// a domain, and the shapes of its rings
fn case(i: u64, r: &mut Rng, wide: bool) -> (Domain, Vec<Shape>) {
    loop {
        let c = any_case(i, r, wide);
        if gap(&c.0) > 4e-3 {
            return c;
        }
    }
}
fn any_case(i: u64, r: &mut Rng, wide: bool) -> (Domain, Vec<Shape>) {
    loop {
        let o = Opts { transforms: false, ..refine_opts(i) };
        if r.chance(0.3) {
            // rings that are circles
            let circle = |r: &mut Rng, lim: f64, rad: (f64, f64)| {
                let n = match r.below(4) {
                    0 => None,
                    1 => Some(r.range(3, 8) as u64),
                    _ => Some(r.range(8, 60) as u64),
                };
                Shape::Circle((dec(r.uniform(-lim, lim)), dec(r.uniform(-lim, lim))), dec(r.uniform(rad.0, rad.1)), n)
            };
            let max_segs = if r.chance(0.5) { 0 } else { 3 };
            let mut d = some_domain(r, Opts { max_segs, ..o }).map(|q| (dec(q.0), dec(q.1)));
            let mut shapes: Vec<Shape> = d.rings().map(|h| Shape::Poly(h.clone())).collect();
            if r.chance(0.6) {
                let s = circle(r, 1.0, (4.5, 6.0));
                d.boundary = s.ring();
                shapes[0] = s;
            }
            for j in 0..d.holes.len() {
                if r.chance(0.6) {
                    let s = circle(r, 3.0, (0.3, 1.0));
                    d.holes[j] = s.ring();
                    shapes[j + 1] = s;
                }
            }
            let d0 = d.clone();
            d.segs.retain(|s| seg_clear(&d0, s.0, s.1));
            d.verts.retain(|q| d0.inside(*q) && d0.ring_edges().iter().all(|(a, b)| dist_point_segment(*a, *b, *q) > 1e-3));
            d.class = "circles".into();
            if valid(&d) && (!wide || d.min_angle() >= 60.0) {
                return (d, shapes);
            }
            continue;
        }
        let d = some_domain(r, o).map(|q| (dec(q.0), dec(q.1)));
        if valid(&d) && (!wide || d.min_angle() >= 60.0 - 1e-9) {
            let s = d.rings().map(|h| Shape::Poly(h.clone())).collect();
            return (d, s);
        }
    }
}
fn groups<T: Clone>(v: &[T], r: &mut Rng) -> Vec<Vec<T>> {
    let mut g: Vec<Vec<T>> = vec![vec![]; 1 + r.below(3) as usize];
    for x in v {
        let i = r.below(g.len() as u64) as usize;
        g[i].push(x.clone());
    }
    g.retain(|x| !x.is_empty());
    g
}
/// C01, C04, C05
pub fn mesh(cfg: &Cfg, id: &str, i: u64, r: &mut Rng, log: &mut Log) {
    let wide = id == "C05" && i % 4 != 0;
    let (d, shapes) = case(i, r, wide);
    let mut doc = header(r);
    doc.quality = *r.pick(&[2.0, 1.5, 3.0, 10.0]);
    if r.chance(if id == "C05" { 0.7 } else { 0.3 }) {
        doc.area = Some(dec(d.area() / r.uniform(8.0, if id == "C05" { 300.0 } else { 40.0 })));
    }
    if id == "C05" {
        doc.quality = *r.pick(&[1.4143, 1.5, 2.0, 3.0, 10.0, 1.7]);
    }
    for (j, s) in shapes.iter().enumerate() {
        doc.actions.push(s.json(if j == 0 { "include" } else { "remove" }, r));
    }
    for g in groups(&d.segs, r) {
        doc.actions.push(segments(&g, r));
    }
    for g in groups(&d.verts, r) {
        doc.actions.push(action("constraint", "vertices", None, &points(&g, r), None));
    }
    r.shuffle(&mut doc.actions);
    let text = doc.text(r);
    let out = match r.below(3) {
        0 => Out::Stdout,
        1 => Out::Over("x".repeat(r.below(3) as usize * 40_000)),
        _ => Out::File,
    };
    let seed = r.next();
    let run = cli(cfg, seed, &In::Text(text.clone()), &out, log);
    if run.unknown {
        return;
    }
    let input = || format!("hash_seed={} {} json={}", seed, d.text(), text.replace('\n', " "));
    let key = "random";
    if run.code != Some(0) {
        return log.violation(key, format!("valid input is refused: {}", why(&run)), input());
    }
    let got = match &out {
        Out::Stdout => run.stdout.clone(),
        _ => match &run.file {
            Some(t) => t.clone(),
            None => return log.violation(key, "no output file".into(), input()),
        },
    };
    log.count(if matches!(out, Out::Stdout) { "outputs to stdout" } else { "outputs to a file" }, 1);
    let mut m = match read(&doc, &got) {
        Ok(m) => m,
        Err(e) => {
            // the other properties need a readable mesh
            return log.violation(key, e[0].clone(), input());
        }
    };
    let want: Vec<P> = wanted(&d).into_iter().map(unk).collect();
    align(&mut m, &want);
    let s = snap_mesh(&m);
    let w = judge(&d, &s, true);
    note(log, &d, &w);
    log.distinct_in("meshes", hash_mesh(&s));
    let bad: Vec<String> = match id {
        "C01" => [pick("R01", &w), pick("R05", &w)].concat(),
        "C04" => [w.cover.clone(), w.verts.clone(), w.cons.clone()].concat(),
        _ => {
            let q = quality(&s, &w);
            let mut bad = vec![];
            if wide {
                log.count("triangles whose ratio was tested", w.n_tris);
                if q.worst_ratio > doc.quality * (1.0 + 1e-6) {
                    bad.push(format!("triangle {:?} has ratio {} > {}", q.worst, q.worst_ratio, doc.quality));
                }
            }
            if let Some(a) = doc.area {
                log.count("triangles whose area was tested", w.n_tris);
                if q.max_area > a * (1.0 + 1e-9) {
                    bad.push(format!("a triangle has area {} > {}", q.max_area, a));
                }
            }
            bad
        }
    };
    if let Some(b) = bad.first() {
        return log.violation(key, b.clone(), input());
    }
    log.sample(|| text.clone());
}

/// shapes that overlap, touch, share edges, enclose
fn shape(r: &mut Rng, mode: u64) -> Shape {
    match mode {
        0 => {
            let b = grid_polygon(r);
            Shape::Poly(shifted(&b, (r.range(-3, 3) as f64, r.range(-3, 3) as f64)))
        }
        1 if r.chance(0.4) => {
            let n = if r.chance(0.2) { None } else { Some(r.range(3, 24) as u64) };
            Shape::Circle((dec(r.uniform(-4., 4.)), dec(r.uniform(-4., 4.))), dec(r.uniform(0.5, 4.0)), n)
        }
        _ => {
            let b = ccw(polygon(r).0);
            let s = *r.pick(&[1.0, 0.5, 0.25, 0.25]);
            let d = point(r, Coord::Float, 4.0);
            Shape::Poly(b.iter().map(|q| (dec(q.0 * s + d.0), dec(q.1 * s + d.1))).collect())
        }
    }
}
/// C02: which region the includes and removals make up
pub fn compose(cfg: &Cfg, r: &mut Rng, log: &mut Log) {
    let mode = r.below(3);
    let (inc, rem) = loop {
        let ni = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let nr = *r.pick(&[0, 1, 1, 2, 2, 3]);
        if ni + nr < 2 {
            continue;
        }
        let inc: Vec<Shape> = (0..ni).map(|_| shape(r, mode)).collect();
        let rem: Vec<Shape> = (0..nr).map(|_| shape(r, mode)).collect();
        let rings: Vec<Vec<P>> = inc.iter().chain(rem.iter()).map(|s| s.ring()).collect();
        if !rings.iter().all(|h| is_simple(h) && area2_ex(h).sign() > 0) || !well_separated(&rings, 1e-3) {
            continue;
        }
        // mostly inputs that make one domain
        let u: Vec<Vec<P>> = inc.iter().map(|s| s.ring()).collect();
        if r.chance(0.9) && parts(&u, &|b| b.iter().any(|x| *x)).areas.len() != 1 {
            continue;
        }
        if r.chance(0.85) && nr > 0 {
            let n = ni as usize;
            let l = parts(&rings, &|b| b[..n].iter().any(|x| *x) && !b[n..].iter().any(|x| *x)).areas;
            if l.len() != 1 {
                continue;
            }
        }
        break (inc, rem);
    };
    let class = ["grid", "with circles", "general"][mode as usize];
    composed(cfg, "random", class, inc, rem, None, r, log);
}
/// four bars that frame a pocket, in any order
pub fn frame(cfg: &Cfg, r: &mut Rng, log: &mut Log) {
    let (w, h) = (r.range(6, 12) as f64, r.range(6, 12) as f64);
    let t = r.range(1, 2) as f64;
    let d = point(r, Coord::Float, 4.0);
    let d = ((d.0 * 4.0).round() / 4.0, (d.1 * 4.0).round() / 4.0);
    let bar = |a: f64, b: f64, c: f64, e: f64| Shape::Poly(vec![(d.0 + a, d.1 + b), (d.0 + c, d.1 + b), (d.0 + c, d.1 + e), (d.0 + a, d.1 + e)]);
    let mut inc = vec![bar(0., 0., w, t), bar(0., h - t, w, h), bar(0., 0., t, h), bar(w - t, 0., w, h)];
    let k = r.below(4) as usize;
    inc.rotate_left(k);
    composed(cfg, "frames", "frame", inc, vec![], None, r, log);
}
pub fn composed(cfg: &Cfg, key: &str, class: &str, inc: Vec<Shape>, rem: Vec<Shape>, given: Option<String>, r: &mut Rng, log: &mut Log) {
    let rings: Vec<Vec<P>> = inc.iter().chain(rem.iter()).map(|s| s.ring()).collect();
    let n = inc.len();
    let u = &rings[..n];
    let mut doc = header(r);
    doc.quality = 3.0;
    for (i, s) in inc.iter().chain(rem.iter()).enumerate() {
        doc.actions.push(s.json(if i < n { "include" } else { "remove" }, r));
    }
    // the order of the removals among themselves stays
    if r.chance(0.5) {
        let k = r.below(doc.actions.len() as u64) as usize;
        doc.actions.rotate_left(k);
    }
    let text = given.clone().unwrap_or_else(|| doc.text(r));
    // judged by the model only where the order of the operations doesn't matter
    let tot: f64 = rings.iter().map(|h| area2_ex(h).approx() / 2.0).sum();
    let mut known = true;
    for mask in 1u32..1 << n {
        let s: Vec<Vec<P>> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| u[i].clone()).collect();
        known &= !pinched(&s, &|b| b.iter().any(|x| *x));
    }
    if !known {
        log.count("compositions left out (touching at a vertex)", 1);
        return;
    }
    let any = |b: &[bool]| b.iter().any(|x| *x);
    let ui = parts(u, &any);
    let mut accept = ui.areas.len() == 1;
    let mut refuse = !accept;
    // a union that encloses pockets is filled by the program; judged apart
    let pocket = !ui.pockets.is_empty();
    let m = rem.len();
    if accept {
        for mask in 0u32..1 << m {
            let mut s = u.to_vec();
            s.extend((0..m).filter(|i| mask >> i & 1 == 1).map(|i| rings[n + i].clone()));
            let f = |b: &[bool]| any(&b[..n]) && !any(&b[n..]);
            if pinched(&s, &f) {
                log.count("compositions left out (touching at a vertex)", 1);
                return;
            }
            accept &= parts(&s, &f).areas.len() == 1;
        }
    }
    let f = move |b: &[bool]| any(&b[..n]) && !any(&b[n..]);
    let p = parts(&rings, &f);
    if ui.areas.len() == 1 && m == 1 && p.areas.len() != 1 {
        refuse = true;
    }
    if p.areas.is_empty() {
        refuse = true;
    }
    if pocket && m > 0 {
        log.count("compositions left out (pockets and removals)", 1);
        return;
    }
    if !accept && !refuse {
        log.count("compositions left out (order of the removals matters)", 1);
        return;
    }
    let seed = r.next();
    let run = cli(cfg, seed, &In::Text(text.clone()), &Out::File, log);
    if run.unknown {
        return;
    }
    let input = || format!("class={} hash_seed={} includes={:?} removes={:?} json={}", class, seed, inc, rem, text.replace('\n', " "));
    log.nontrivial(rings.iter().flatten().fold(n as u64, |h, q| (h ^ q.0.to_bits()).wrapping_mul(0x100000001b3) ^ q.1.to_bits().rotate_left(23)));
    log.count(&format!("compositions: {}", class), 1);
    log.count(if refuse { "compositions to be refused" } else { "compositions to be meshed" }, 1);
    if refuse {
        if run.code == Some(0) {
            log.violation(key, format!("accepted, though {} include parts, {} parts remain", ui.areas.len(), p.areas.len()), input());
        }
        return;
    }
    if run.code != Some(0) {
        return log.violation(key, format!("valid input is refused: {}", why(&run)), input());
    }
    let t = match parse(run.file.as_deref().unwrap_or("")).and_then(|j| raw_mesh(&j)) {
        Some(t) => t,
        None => return log.violation(key, "no readable output".into(), input()),
    };
    let mut sum = 0.0;
    for t in &t {
        let a = area2_ex(&t[..]).approx() / 2.0;
        if a <= 0.0 {
            return log.violation(key, format!("triangle {:?} is not counterclockwise", t), input());
        }
        sum += a;
    }
    let tol = 1e-7 * tot;
    // what the program makes of pockets: the outer boundary of the includes
    let is_filled = pocket && (sum - p.area() - ui.pockets.iter().sum::<f64>()).abs() <= tol;
    if (sum - p.area()).abs() > tol && !is_filled {
        return log.violation(key, format!("the triangles cover {} instead of {}", sum, p.area()), input());
    }
    if !ui.pockets.is_empty() {
        log.count("includes that enclose pockets", 1);
    }
    for _ in 0..40 {
        let h = r.pick(&rings).clone();
        let e = *r.pick(&h);
        let q = (e.0 + r.uniform(-0.4, 0.4), e.1 + r.uniform(-0.4, 0.4));
        if rings.iter().any(|h| poly_edges(h).any(|(a, b)| dist_point_segment(a, b, q) < 1e-4)) {
            continue;
        }
        let b: Vec<bool> = rings.iter().map(|h| locate(h, q) == Loc::In).collect();
        let got = t.iter().filter(|t| locate(&t[..], q) != Loc::Out).count();
        let on = t.iter().any(|t| locate(&t[..], q) == Loc::On);
        let want = f(&b);
        log.count("membership probes", 1);
        if is_filled && !any(&b[..n]) {
            continue;
        }
        if (got > 0) != want || (got > 1 && !on) {
            return log.violation(key, format!("{:?} is covered by {} triangles, though it should{} be", q, got, if want { "" } else { " not" }), input());
        }
    }
    if is_filled {
        log.violation("pocket", "the region that includes enclose without containing it is meshed".into(), input());
    }
    log.sample(|| text.clone());
}
fn raw_mesh(j: &J) -> Option<Vec<[P; 3]>> {
    let v: Vec<P> = j.get("coordinates")?.arr()?.iter().map(|c| Some((c.get("x")?.num()?, c.get("y")?.num()?))).collect::<Option<_>>()?;
    j.get("triangles")?
        .arr()?
        .iter()
        .map(|t| {
            let g = |k: &str| v.get(t.get(k)?.num()? as usize).cloned();
            Some([g("v1")?, g("v2")?, g("v3")?])
        })
        .collect()
}

/// C02 over the example files of the repository
pub fn examples(cfg: &Cfg, i: u64, r: &mut Rng, log: &mut Log) {
    let mut names: Vec<String> = std::fs::read_dir("/repo/example")
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path().display().to_string()).filter(|n| n.ends_with(".json") && !n.ends_with("_out.json")).collect())
        .unwrap_or_default();
    names.sort();
    if names.is_empty() {
        return;
    }
    let name = &names[i as usize % names.len()];
    let text = match std::fs::read_to_string(name) {
        Ok(t) => t,
        Err(_) => return,
    };
    let j = match parse(&text) {
        Some(j) => j,
        None => return,
    };
    let (mut inc, mut rem) = (vec![], vec![]);
    for a in j.get("actions").and_then(|x| x.arr()).unwrap_or(&[]) {
        let s = |k: &str| a.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
        let v: Vec<P> = a.get("points").and_then(|x| x.arr()).unwrap_or(&[]).iter().filter_map(|c| Some((c.get("x")?.num()?, c.get("y")?.num()?))).collect();
        let n: Vec<f64> = a.get("scalars").and_then(|x| x.arr()).unwrap_or(&[]).iter().filter_map(|x| x.num()).collect();
        let shape = match s("geometry").as_str() {
            "polyline" => Shape::Poly(v),
            "circle" if !v.is_empty() && !n.is_empty() => Shape::Circle(v[0], n[0], n.get(1).map(|x| x.round() as u64)),
            _ => return,
        };
        match s("intent").as_str() {
            "include" => inc.push(shape),
            "remove" => rem.push(shape),
            _ => return,
        }
    }
    log.count(&format!("runs of {}", name), 1);
    composed(cfg, "examples", "example", inc, rem, Some(text), r, log);
}

/// C03: invalid inputs
pub fn invalid(cfg: &Cfg, i: u64, r: &mut Rng, log: &mut Log) {
    let (d, shapes) = case(i, r, false);
    let mut doc = header(r);
    doc.quality = 3.0;
    let mut acts: Vec<String> = vec![];
    for (j, s) in shapes.iter().enumerate() {
        acts.push(s.json(if j == 0 { "include" } else { "remove" }, r));
    }
    if !d.segs.is_empty() {
        acts.push(segments(&d.segs, r));
    }
    if !d.verts.is_empty() {
        acts.push(action("constraint", "vertices", None, &points(&d.verts, r), None));
    }
    let far: f64 = 50.0;
    let sq = |x: f64, y: f64, w: f64| vec![(x, y), (x + w, y), (x + w, y + w), (x, y + w)];
    let lo = d.boundary.iter().fold((f64::MAX, f64::MAX), |m, q| (m.0.min(q.0), m.1.min(q.1)));
    let hi = d.boundary.iter().fold((f64::MIN, f64::MIN), |m, q| (m.0.max(q.0), m.1.max(q.1)));
    let mut out = match r.below(3) {
        0 => Out::Stdout,
        1 => Out::Over("untouched".into()),
        _ => Out::File,
    };
    let mut input = None;
    let e = *r.pick(&d.ring_edges());
    let mid = ((e.0 .0 + e.1 .0) / 2.0, (e.0 .1 + e.1 .1) / 2.0);
    let ins: P = loop {
        let q = (dec(r.uniform(lo.0, hi.0)), dec(r.uniform(lo.1, hi.1)));
        if d.inside(q) && d.ring_edges().iter().all(|(a, b)| dist_point_segment(*a, *b, q) > 1e-3) {
            break q;
        }
    };
    let vertices = |v: &[P], r: &mut Rng| action("constraint", "vertices", None, &points(v, r), None);
    let kind = r.below(37);
    let what = match kind {
        0 => {
            let t = { doc.actions = acts.clone(); doc.text(r) };
            let n = t.trim_end().chars().count();
            let c = r.below(n as u64) as usize;
            input = Some(In::Text(t.chars().take(c).collect()));
            "truncated file"
        }
        1 => {
            let t = { doc.actions = acts.clone(); doc.text(r) };
            input = Some(In::Text(format!("{}{}", t, r.pick(&["}", "{}", "x", "]", "1"]))));
            "trailing garbage"
        }
        2 => {
            input = Some(if r.chance(0.5) { In::Missing } else { In::Dir });
            "unreadable file"
        }
        3 | 4 => {
            doc.actions = acts.clone();
            let t = doc.text(r);
            let k = *r.pick(&["name", "actions", "params", "quality", "intent", "geometry"]);
            let t2 = t.replacen(&format!("\"{}\"", k), &format!("\"{}_\"", k), 1);
            if t2 == t {
                return;
            }
            input = Some(In::Text(t2));
            "missing field"
        }
        5 => {
            doc.actions = acts.clone();
            let t = doc.text(r);
            let (a, b) = *r.pick(&[("\"quality\": 3", "\"quality\": \"3\""), ("\"points\": [", "\"points\": [[], "), ("\"actions\": [", "\"actions\": [0, "), ("\"x\"", "\"u\""), ("\"intent\": \"include\"", "\"intent\": 1")]);
            let t2 = t.replacen(a, b, 1);
            if t2 == t {
                return;
            }
            input = Some(In::Text(t2));
            "wrong type"
        }
        6 => {
            let g = *r.pick(&["spline", "Polyline", "", "polygon", "circles", "vertex"]);
            acts.push(action(r.pick(&["include", "remove", "constraint"]), g, Some("[1]"), &points(&[ins], r), None));
            "unknown geometry"
        }
        7 => {
            let t = *r.pick(&["Include", "", "add", "subtract", "constraint"]);
            let g = if r.chance(0.5) { "polyline" } else { "circle" };
            acts.push(if g == "polyline" { action(t, g, None, &points(&sq(ins.0, ins.1, 1e-3), r), None) } else { action(t, g, Some("[0.001]"), &points(&[ins], r), None) });
            "intent that the geometry doesn't have"
        }
        8 => {
            let t = *r.pick(&["include", "remove", "constraints", ""]);
            acts.push(if r.chance(0.5) { action(t, "vertices", None, &points(&[ins], r), None) } else { action(t, "segments", None, &points(&[ins, (ins.0 + 1e-3, ins.1)], r), None) });
            "intent that the geometry doesn't have"
        }
        9 => {
            let n = r.below(3) as usize;
            let v: Vec<P> = sq(ins.0, ins.1, 1e-3)[..n].to_vec();
            acts.push(action(r.pick(&["include", "remove"]), "polyline", None, &points(&v, r), None));
            "polyline of less than three points"
        }
        10 => {
            // two vertices of a convex polygon trade places
            let mut v = convex(r, Coord::Dyadic, 12, 4.0);
            if v.len() < 4 {
                return;
            }
            let k = r.below(v.len() as u64 - 1) as usize;
            v.swap(k, k + 1);
            acts[0] = Shape::Poly(v).json("include", r);
            acts.truncate(1);
            "polyline that crosses itself"
        }
        11 => {
            // a vertex on another edge
            let k = r.range(-3, 3) as f64;
            let v = vec![(-4., -4.), (4., -4.), (4., 4.), (k, -4.), (-4., 4.)];
            acts = vec![Shape::Poly(v).json("include", r)];
            "polyline that touches itself"
        }
        12 => {
            let n = r.below(3) as usize + 2;
            let v = if r.chance(0.5) { vec![] } else { vec![ins; n] };
            acts.push(action("remove", "circle", Some("[0.001]"), &points(&v, r), None));
            "circle without one center"
        }
        13 => {
            let s = *r.pick(&["[]", "[0]", "[0.0, 12]", "[0.001, 2]", "[0.001, 0]", "[0.001, -5]", "[0.001, 1.4]"]);
            acts.push(action("remove", "circle", Some(s), &points(&[ins], r), None));
            "circle without radius or resolution"
        }
        14 => {
            let v: Vec<P> = (0..2 * r.below(3) + 1).map(|j| (ins.0 + j as f64 * 1e-4, ins.1)).collect();
            acts.push(action("constraint", "segments", None, &points(&v, r), None));
            "odd number of segment ends"
        }
        15 => {
            let a = *r.pick(&["[[0, 2]]", "[[2, 0]]", "[[0, 1], [0, 7]]", "[[0]]", "[[0, 1], []]", "[[1, 99999999]]"]);
            acts.push(action("constraint", "segments", None, &points(&[ins, (ins.0 + 1e-4, ins.1)], r), Some(a)));
            "segments between points that are not there"
        }
        16 => {
            acts.remove(0);
            "no include"
        }
        17 => {
            acts.push(Shape::Poly(sq(far, far, 1.0)).json("include", r));
            "separate include"
        }
        18 => {
            acts.push(Shape::Poly(sq(lo.0 - 1.0, lo.1 - 1.0, 20.0)).json("remove", r));
            "removal of everything"
        }
        19 => {
            acts = vec![Shape::Poly(d.boundary.clone()).json("include", r), Shape::Poly(d.boundary.clone()).json("remove", r)];
            if !matches!(shapes[0], Shape::Poly(_)) {
                return;
            }
            "removal of exactly everything"
        }
        20 => {
            // a strip across a convex domain
            let (x, w) = (r.range(-20, 20) as f64 / 8.0, r.range(1, 4) as f64 / 8.0);
            let strip = vec![(x, -9.0), (x + w, -9.0), (x + w, 9.0), (x, 9.0)];
            acts = vec![Shape::Poly(rect(-4., -4., 4., 4.)).json("include", r), Shape::Poly(strip).json("remove", r)];
            "removal that splits the domain"
        }
        21 => {
            let q = if r.chance(0.5) { (far, ins.1) } else { (dec(hi.0 + r.uniform(1e-3, 2.0)), ins.1) };
            let mut v = d.verts.clone();
            v.insert(r.below(v.len() as u64 + 1) as usize, q);
            acts.push(vertices(&v, r));
            "vertex outside"
        }
        22 => {
            if d.holes.is_empty() {
                return;
            }
            let h = r.pick(&d.holes).clone();
            let c = (h.iter().map(|q| q.0).sum::<f64>() / h.len() as f64, h.iter().map(|q| q.1).sum::<f64>() / h.len() as f64);
            let c = (dec(c.0), dec(c.1));
            if locate(&h, c) != Loc::In {
                return;
            }
            acts.push(vertices(&[c], r));
            "vertex in a hole"
        }
        23 => {
            if !on_segment(e.0, e.1, mid) || dec(mid.0) != mid.0 || dec(mid.1) != mid.1 {
                return;
            }
            acts.push(vertices(&[mid], r));
            "vertex on a boundary"
        }
        24 => {
            acts.push(segments(&[(ins, (far, dec(r.uniform(-3., 3.))))], r));
            "segment that leaves the domain"
        }
        25 => {
            acts.push(segments(&[((far, 1.0), (far, 2.0))], r));
            "segment outside"
        }
        26 => {
            if d.holes.is_empty() {
                return;
            }
            let h = r.pick(&d.holes).clone();
            let c = (h.iter().map(|q| q.0).sum::<f64>() / h.len() as f64, h.iter().map(|q| q.1).sum::<f64>() / h.len() as f64);
            let (a, b) = (ins, (dec(2.0 * c.0 - ins.0), dec(2.0 * c.1 - ins.1)));
            if !poly_edges(&h).any(|(x, y)| segments_cross(a, b, x, y)) {
                return;
            }
            acts.push(segments(&[(a, b)], r));
            "segment through a hole"
        }
        27 => {
            let q = *r.pick(&d.boundary);
            if dec(q.0) != q.0 || dec(q.1) != q.1 {
                return;
            }
            acts.push(segments(&[(ins, q)], r));
            "segment that ends at the boundary"
        }
        28 => {
            let h = r.pick(&d.boundary).clone();
            if dec(h.0) != h.0 || dec(h.1) != h.1 {
                return;
            }
            acts.push(vertices(&[h], r));
            "vertex at a boundary vertex"
        }
        29 => {
            if d.segs.is_empty() {
                return;
            }
            let s = *r.pick(&d.segs);
            let m = ((s.0 .0 + s.1 .0) / 2.0, (s.0 .1 + s.1 .1) / 2.0);
            let w = 0.02;
            acts.push(Shape::Poly(vec![(dec(m.0 - w), dec(m.1 - w)), (dec(m.0 + w), dec(m.1 - w)), (dec(m.0 + w), dec(m.1 + w)), (dec(m.0 - w), dec(m.1 + w))]).json("remove", r));
            "removal over a segment"
        }
        30 => {
            if d.verts.is_empty() {
                return;
            }
            let m = *r.pick(&d.verts);
            let w = 0.005;
            acts.push(Shape::Poly(vec![(dec(m.0 - w), dec(m.1 - w)), (dec(m.0 + w), dec(m.1 - w)), (dec(m.0 + w), dec(m.1 + w)), (dec(m.0 - w), dec(m.1 + w))]).json("remove", r));
            "removal over a vertex"
        }
        31 => {
            // the input itself is valid
            out = Out::Unwritable;
            "output that can't be written"
        }
        32 => {
            acts.clear();
            "no actions"
        }
        33 => {
            // a vertex follows, from which it comes back the same way, on either side
            let (x, y, w) = (ins.0, ins.1, 1e-3);
            let mut v: Vec<P> = sq(x, y, w).iter().map(|q| (dec(q.0), dec(q.1))).collect();
            let remove = r.chance(0.5);
            if !remove {
                v = vec![(-4., -4.), (4., -4.), (4., 4.), (-4., 4.)];
            }
            let k = r.below(4) as usize;
            let (a, c) = (v[k], v[(k + 2) % 4]);
            let f = *r.pick(&[0.25, 0.5, -0.5]);
            let q = (dec(a.0 + (c.0 - a.0) * f), dec(a.1 + (c.1 - a.1) * f));
            v.insert(k + 1, q);
            if r.chance(0.5) {
                // around a loop at the end of the way
                let g = |s: f64, t: f64| (dec(q.0 + (c.0 - a.0) * s), dec(q.1 + (c.1 - a.1) * t));
                v.insert(k + 2, g(0.125, 0.0625));
                v.insert(k + 3, g(0.0625, 0.125));
                v.insert(k + 4, q);
                v.insert(k + 5, a);
            } else {
                v.insert(k + 2, a);
            }
            if r.chance(0.5) {
                v.reverse();
            }
            let t = r.below(v.len() as u64) as usize;
            v.rotate_left(t);
            let p = action(if remove { "remove" } else { "include" }, "polyline", None, &points(&v, r), None);
            if remove {
                acts.push(p);
            } else {
                acts = vec![p];
            }
            "polyline that runs back over itself"
        }
        34 | 35 => {
            doc.area = Some(*r.pick(&[0.0, -0.0, -1.0, -1e-300, -1e9, -1e-3]));
            "maximum area that no triangle meets"
        }
        _ => {
            let n = r.below(60) as usize;
            let t: String = (0..n).map(|_| *r.pick(&['{', '}', '[', ']', '"', ':', ',', '1', 'a', ' ', '\\', '\u{e9}'])).collect();
            input = Some(In::Text(t));
            "noise"
        }
    };
    // mostly in random order: the offending action must not depend on its place
    r.shuffle(&mut acts);
    doc.actions = acts;
    let text = doc.text(r);
    let input = input.unwrap_or(In::Text(text));
    let seed = r.next();
    let run = cli(cfg, seed, &input, &out, log);
    if run.unknown {
        return;
    }
    log.count(what, 1);
    log.nontrivial(run.stderr.len() as u64 ^ d.key().rotate_left(kind as u32));
    let describe = || format!("kind={} out={:?} hash_seed={} input={:?}", what, out, seed, input);
    if run.code == Some(0) {
        return log.violation("random", format!("accepted: {}", what), describe());
    }
    if run.code.is_none() {
        return log.violation("random", format!("{}: {}", what, why(&run)), describe());
    }
    if matches!(out, Out::Unwritable) {
        return;
    }
    if !run.stdout.trim().is_empty() {
        return log.violation("random", format!("{}: refused, but with output {:.100}", what, run.stdout), describe());
    }
    let ok = match &out {
        Out::Over(t) => run.file.as_ref() == Some(t),
        _ => run.file.is_none(),
    };
    if !ok {
        return log.violation("random", format!("{}: refused, but with an output file", what), describe());
    }
    log.sample(|| format!("{}: {:?}", what, input));
}
