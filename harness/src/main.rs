mod world;
#[macro_use]
mod explore;
mod airdrop;
mod core;
mod periph;
#[cfg(feature = "math")]
mod math;

use explore::*;
use std::io::Write;
use std::os::fd::FromRawFd;

fn usage() -> ! {
    eprintln!("usage: mc check <property> | mc replay <file>");
    std::process::exit(2)
}

fn run(rep: &mut Report) -> bool {
    let p = rep.property.clone();
    core::run(&p, rep) || airdrop::run(&p, rep) || periph::run(&p, rep) || math_run(&p, rep)
}

#[cfg(feature = "math")]
fn math_run(p: &str, rep: &mut Report) -> bool {
    math::run(p, rep)
}
#[cfg(not(feature = "math"))]
fn math_run(_: &str, _: &mut Report) -> bool {
    false
}

fn load_known(path: &str, prop: &str) -> std::collections::BTreeMap<String, String> {
    let mut m = std::collections::BTreeMap::new();
    let Ok(s) = std::fs::read_to_string(path) else { return m };
    for l in s.lines() {
        // finding: property=<id> key=<key> <description>
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a == format!("property={prop}") {
                if let Some(k) = b.strip_prefix("key=") {
                    m.insert(k.to_string(), c.to_string());
                }
            }
        }
    }
    m
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        usage()
    }
    std::panic::set_hook(Box::new(|i| {
        // panics inside contract code are transaction failures; engine panics are reported on exit
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let t0 = std::time::Instant::now();
    let home = std::env::var("VERIF_HOME").unwrap_or("/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap: u64 = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 420 });
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let (property, replay) = match args[1].as_str() {
        "check" => (args[2].clone(), None),
        "replay" => {
            let s = std::fs::read_to_string(&args[2]).unwrap_or_else(|_| usage());
            let j: serde_json::Value = serde_json::from_str(&s).unwrap_or_else(|_| usage());
            let ops = j["ops"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            (
                j["property"].as_str().unwrap().to_string(),
                Some((j["model"].as_str().unwrap().to_string(), j["start"].as_str().unwrap_or("").to_string(), ops)),
            )
        }
        _ => usage(),
    };
    let is_replay = replay.is_some();
    let mut rep = Report {
        property: property.clone(),
        thorough: tier == "thorough",
        states: 0,
        transitions: 0,
        validated: 0,
        exhaustive: true,
        outcomes: Default::default(),
        samples: vec![],
        models: vec![],
        found: vec![],
        known: load_known(&format!("{home}/known_findings.txt"), &property),
        known_hit: Default::default(),
        deadline: deadline(cap),
        replay,
        replay_seen: false,
        engine_error: None,
        threads,
        only: std::env::var("MC_ONLY").ok(),
    };
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut rep)));
    match ok {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("unknown property {property}");
            std::process::exit(2)
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("engine panic: {m:?}");
            std::process::exit(2)
        }
    }
    // fd 3 is the caller's stdout (contract code prints to stdout)
    let mut out = unsafe { std::fs::File::from_raw_fd(3) };
    if is_replay {
        if !rep.replay_seen {
            eprintln!("replay: no such model");
            std::process::exit(2)
        }
        if let Some(e) = rep.engine_error {
            eprintln!("{e}");
            std::process::exit(2)
        }
        match rep.found.first() {
            Some(f) => {
                let _ = writeln!(out, "REPRODUCED property={property}: {}", f.v.msg);
                std::process::exit(1)
            }
            None => {
                let _ = writeln!(out, "not reproduced");
                std::process::exit(0)
            }
        }
    }
    if let Some(e) = &rep.engine_error {
        eprintln!("engine error: {e}");
        std::process::exit(2)
    }
    let ev = serde_json::json!({
        "property": property, "tier": if rep.thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": rep.states, "transitions": rep.transitions,
            "traces_validated_against_impl": rep.validated,
            "exhaustive": rep.exhaustive,
            "models": rep.models, "outcomes": rep.outcomes,
            "known_findings_hit": rep.known_hit.iter().map(|(k, x)| serde_json::json!({"key": k, "occurrences": x.0, "first": x.1})).collect::<Vec<_>>(),
            "samples": rep.samples,
            "rule": "every operation sequence over the listed alphabet up to the depth bound, from every start state; every transition is executed by the repository's own contract code"
        },
        "assumptions": ["chain simulator rules in DESIGN.md", "data values outside the enumerated alphabets are not covered"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": rep.found.len()
    });
    let _ = std::fs::create_dir_all(format!("{home}/evidence"));
    if let Err(e) = std::fs::write(format!("{home}/evidence/{property}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2)
    }
    for (k, d) in &rep.known {
        if let Some((n, _)) = rep.known_hit.get(k) {
            let _ = writeln!(out, "KNOWN-FINDING: property={property} {k}: {d} ({n} occurrences)");
        }
    }
    if let Some(f) = rep.found.first() {
        let dir = format!("{home}/target/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{property}.json");
        let j = serde_json::json!({"property": property, "model": f.model, "start": f.init, "ops": f.ops, "violation": f.v.msg, "key": f.v.key});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        let _ = writeln!(out, "{}\n  model: {}\n  start: {}\n  ops:\n    {}", f.v.msg, f.model, f.init, f.ops.join("\n    "));
        let _ = writeln!(out, "VIOLATION property={property} replay={path}");
        std::process::exit(1)
    }
    let _ = writeln!(
        out,
        "OK property={property} states={} transitions={} validated={} exhaustive={} wall={:.1}s",
        rep.states, rep.transitions, rep.validated, rep.exhaustive, t0.elapsed().as_secs_f64()
    );
}
