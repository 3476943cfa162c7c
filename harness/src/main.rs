//! vmon: runs the workload of one property against the code under test and lets the monitors judge
//! every execution.  vmon ID --tier quick|thorough --seed N --out DIR [--stage S --case I]
mod boolean;
mod ctx;
mod domain;
mod exact;
mod gen;
mod mesh;
mod json;
mod props_bool;
mod props_cli;
mod props_elem;
mod props_inc;
mod region;
mod props_ins;
mod props_pred;
mod props_tri;
mod registry;
mod rng;
mod sched;
use ctx::*;
use serde_json::json;
use std::io::Write;
use std::time::Instant;

#[global_allocator]
static A: sched::Counting = sched::Counting;

/// keys of the known findings of a property
fn known(id: &str, path: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(path).unwrap_or_default();
    let want = format!("property={}", id);
    txt.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.split_whitespace().any(|w| w == want))
        .filter_map(|l| {
            let k = l.split_whitespace().find_map(|w| w.strip_prefix("key="))?;
            let rest = l.splitn(3, ' ').nth(2).unwrap_or("");
            Some((k.to_string(), rest.to_string()))
        })
        .collect()
}

fn main() {
    sched::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if args.len() < 2 || args[1] == "list" {
        for id in registry::IDS {
            println!("{}", id);
        }
        return;
    }
    let env = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
    let tier = get("--tier").or_else(|| env("VERIF_TIER")).unwrap_or("quick".into());
    let seed = get("--seed").or_else(|| env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
    let wall_default = if tier == "thorough" { 3000.0 } else { 300.0 };
    let cfg = Cfg {
        id: args[1].clone(),
        tier: tier.clone(),
        seed,
        out: get("--out").unwrap_or("/verif/evidence".into()),
        only: get("--case").and_then(|s| s.parse().ok()),
        stage: get("--stage"),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        bin: get("--bin").unwrap_or_default(),
        shim: get("--shim").unwrap_or_default(),
        t0: Instant::now(),
        wall: get("--wall").and_then(|s| s.parse().ok()).unwrap_or(wall_default),
    };
    let knowns = known(&cfg.id, &get("--known").unwrap_or("/verif/KNOWN_FINDINGS.txt".into()));
    let _ = KNOWN.set(knowns.iter().map(|(k, _)| k.clone()).collect());
    let mut log = Log::default();
    let ran = registry::run(&cfg, &mut log);
    let _ = std::fs::remove_dir_all(props_cli::scratch());
    let rule = match ran {
        Some(r) => r,
        None => {
            eprintln!("unknown property {}", cfg.id);
            std::process::exit(3);
        }
    };
    let fresh: Vec<&Violation> = log.violations.iter().collect();
    for (k, what) in knowns.iter().filter(|(k, _)| log.findings.contains_key(k)) {
        println!("KNOWN-FINDING: property={} {} [{}]", cfg.id, what, k);
    }
    for (k, what) in &knowns {
        if !log.findings.contains_key(k) && cfg.only.is_none() {
            println!("note: the known finding {} was not observed in this run ({})", k, what);
        }
    }
    println!("{}: {} executions, {} distinct non-trivial, {:.1} s", cfg.id, log.evals, log.distinct.len(), cfg.t0.elapsed().as_secs_f64());
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(log.evals));
    cov.insert("distinct_nontrivial".into(), json!(log.distinct.len()));
    cov.insert("rule".into(), json!(rule));
    cov.insert("samples".into(), json!(log.samples));
    let mut obs = serde_json::Map::new();
    for (k, v) in &log.counters {
        println!("  {}: {}", k, v);
        obs.insert(k.clone(), json!(v));
    }
    for (k, v) in &log.sets {
        println!("  distinct {}: {}", k, v.len());
        obs.insert(format!("distinct {}", k), json!(v.len()));
    }
    cov.insert("observed".into(), serde_json::Value::Object(obs));
    let ev = json!({
        "property": cfg.id, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": cov, "wall_s": cfg.t0.elapsed().as_secs_f64(), "violations": fresh.len(), "known_findings_observed": log.findings.keys().collect::<Vec<_>>(),
        "assumptions": ["held on the executions counted here; nothing is said about inputs outside the generated classes"],
    });
    if cfg.only.is_none() {
        let _ = std::fs::create_dir_all(&cfg.out);
        if let Err(e) = std::fs::write(format!("{}/{}.json", cfg.out, cfg.id), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write the evidence: {}", e);
            std::process::exit(4);
        }
    }
    if let Some(v) = fresh.first() {
        let dir = format!("{}/replays", cfg.out);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.txt", dir, cfg.id, cfg.tier, cfg.seed);
        if let Ok(mut f) = std::fs::File::create(&path) {
            for v in fresh.iter().take(10) {
                let _ = writeln!(
                    f,
                    "replay: bash /verif/check.sh {} --tier {} --seed {} --stage {} --case {}\nwhat: {}\ninput: {}\n",
                    cfg.id, cfg.tier, cfg.seed, v.stage, v.case, v.what, v.input
                );
            }
        }
        println!("what: {}", v.what);
        println!("input: {:.3000}", v.input);
        println!("VIOLATION property={} replay={}", cfg.id, path);
        std::process::exit(1);
    }
    if log.evals == 0 && cfg.only.is_none() {
        eprintln!("the monitors observed nothing");
        std::process::exit(5);
    }
}
