//! Command line: check a property, run one scenario, replay a schedule.
use crate::kit::Scn;
use mcrt::explore::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

struct Known {
    prop: String,
    scenario: String,
    failure: String,
}

/// `known: property=P.. scenario=.. failure=<exact text> :: description`
fn known_findings() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (prop, l) = l.split_once(" scenario=")?;
            let (scenario, l) = l.split_once(" failure=")?;
            let failure = l.split_once(" :: ").map(|x| x.0).unwrap_or(l);
            Some(Known { prop: prop.into(), scenario: scenario.into(), failure: failure.trim().into() })
        })
        .collect()
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    // executions (in forked processes) report their panics themselves
    let me = std::process::id();
    std::panic::set_hook(Box::new(move |i| {
        if std::process::id() == me {
            use std::io::Write;
            let _ = writeln!(std::io::stderr(), "engine panic: {i}");
        }
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args),
        Some("check") => check(&args[2]),
        Some("replay") => replay_file(&args[2]),
        Some("list") => {
            for s in crate::scn::all() {
                println!("{} {} quick={} thorough={} : {}", s.prop, s.name, s.quick, s.thorough, s.about);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> | run <scenario> [bound [secs [outcomes]]] | replay <file> | list");
            2
        }
    }
}

fn run(args: &[String]) -> i32 {
    let name = &args[2];
    let secs: f64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(60.0);
    let mut bad = 0;
    for s in crate::scn::all().into_iter().filter(|s| s.name == name.as_str() || s.prop == name || name == "all") {
        let bound: u32 = match args.get(3).map(|s| s.as_str()) {
            None | Some("q") => s.quick,
            Some("t") => s.thorough,
            Some(x) => x.parse().unwrap(),
        };
        let r = explore(&config(&s, bound, secs, vec![], 1), &*s.make);
        println!("{} {}: {}", s.prop, s.name, brief(&r));
        for (k, n) in r.outcomes.iter().take(args.get(5).map(|s| s.parse().unwrap()).unwrap_or(0)) {
            println!("    {n} x {k}");
        }
        if let Some((f, c)) = r.failures.first() {
            bad = 1;
            println!("FAIL {f}\n  {c:?}");
            match replay(&s.opts, 1, c.clone(), &*s.make) {
                Ok(e) => println!("{}\n{:?}", e.trace.join("\n"), e.failures),
                Err(e) => println!("replay: {e}"),
            }
        }
        if let Some(e) = &r.engine_error {
            bad = 2;
            println!("ENGINE {e}");
        }
    }
    bad
}

fn config(s: &Scn, bound: u32, secs: f64, known: Vec<String>, seed: u64) -> Config {
    Config {
        opts: s.opts.clone(),
        bound,
        deadline: Instant::now() + Duration::from_secs_f64(secs),
        max_execs: u64::MAX,
        workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16),
        hash_seed: seed,
        is_new: Box::new(move |f| !known.iter().any(|k| k == f)),
        validate_every: 200,
    }
}

pub fn brief(r: &Report) -> String {
    format!(
        "execs {} states {} trans {} finals {} outcomes {} maxpts {} bound {} exhausted {} capped {} validated {} fails {} known {:?} stalls {} {:.1}s",
        r.executions, r.states, r.transitions, r.final_states, r.distinct_outcomes, r.max_points, r.bound_completed, r.exhausted, r.capped, r.validated, r.failures.len(), r.known, r.stalls, r.wall
    )
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 840.0 } else { 75.0 });
    let scns: Vec<Scn> = crate::scn::all().into_iter().filter(|s| s.prop == prop && (thorough || s.quick != crate::kit::SKIP)).collect();
    if scns.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    let known = known_findings();
    let mut code = 0;
    let (mut execs, mut states, mut trans, mut finals, mut validated, mut outcomes, mut violations) = (0, 0, 0, 0, 0, 0, 0);
    let mut per: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut all_exhaustive = true;
    let mut known_seen: Vec<(String, String)> = vec![];
    let n = scns.len();
    for (i, s) in scns.iter().enumerate() {
        let left = budget - t0.elapsed().as_secs_f64();
        // what is left is shared, and a scenario may use twice its share
        let share = (left / (n - i) as f64 * if i + 1 == n { 1.0 } else { 2.0 }).clamp(2.0, left.max(2.0));
        let mine: Vec<String> = known.iter().filter(|k| k.prop == prop && k.scenario == s.name).map(|k| k.failure.clone()).collect();
        let bound = if thorough { s.thorough } else { s.quick };
        let r = explore(&config(s, bound, share, mine, seed), &*s.make);
        println!("{prop} {}: {}", s.name, brief(&r));
        execs += r.executions;
        states += r.states;
        trans += r.transitions;
        finals += r.final_states;
        validated += r.validated;
        outcomes += r.distinct_outcomes;
        all_exhaustive &= r.exhausted;
        per.push(json!({
            "scenario": s.name, "about": s.about, "executions": r.executions, "states": r.states, "transitions": r.transitions,
            "distinct_final_histories": r.final_states, "distinct_outcomes": r.distinct_outcomes, "max_choice_points": r.max_points,
            "deviation_bound": bound, "deviation_bound_completed": r.bound_completed, "whole_space_exhausted": r.exhausted,
            "time_capped": r.capped, "replays_compared": r.validated, "wall_s": r.wall,
        }));
        for (k, c) in r.outcomes.iter().take(2) {
            samples.push(json!({"scenario": s.name, "executions_with_this_outcome": c, "outcome": k}));
        }
        for (k, c) in &r.known {
            known_seen.push((s.name.into(), k.clone()));
            println!("({c} executions)");
        }
        if let Some((f, c)) = r.failures.first() {
            violations += 1;
            let path = save_replay(prop, s, f, c, seed);
            println!("scenario {}: {f}", s.name);
            println!("VIOLATION property={prop} replay={path}");
            code = 1;
            break;
        }
        if let Some(e) = &r.engine_error {
            eprintln!("ENGINE ERROR in {}: {e}", s.name);
            code = 2;
            break;
        }
    }
    for k in known.iter().filter(|k| k.prop == prop) {
        if known_seen.iter().any(|(s, f)| *s == k.scenario && *f == k.failure) {
            println!("KNOWN-FINDING: property={prop} scenario {}: {}", k.scenario, k.failure);
        }
    }
    let e = json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": validated,
            "evaluations": execs, "distinct_nontrivial": finals,
            "rule": "every execution runs the real kameo code under the controlled scheduler along one schedule; two executions are distinct when their happens-before histories differ at the end; states are distinct happens-before states at choice points; transitions are scheduler steps; traces_validated_against_impl counts schedules that were executed again and gave the identical history",
            "distinct_outcomes": outcomes, "exhaustive": all_exhaustive, "scenarios": per, "samples": samples,
        },
        "assumptions": [
            "sequentially consistent interleavings at tokio synchronisation operations (channels, semaphores, mutexes, timers, task joins), waker calls and OS-blocking futex waits",
            "64-bit fingerprints of happens-before histories do not collide",
            "tokio's channels themselves are correct: the shim adds scheduling points around the real tokio implementations"
        ],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap()).is_err() {
        return 2;
    }
    println!("{prop}: {execs} executions, {states} states, {trans} transitions, {violations} violations, {:.1}s", t0.elapsed().as_secs_f64());
    code
}

fn save_replay(prop: &str, s: &Scn, failure: &str, choices: &[u8], seed: u64) -> String {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{}.json", s.name));
    let trace = match replay(&s.opts, seed, choices.to_vec(), &*s.make) {
        Ok(e) => e.trace,
        Err(e) => vec![e],
    };
    let v = json!({"property": prop, "scenario": s.name, "failure": failure, "seed": seed, "choices": choices, "trace": trace,
        "replay_with": format!("/verif/target/release/{} replay {}", exe(), p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p.display().to_string()
}

fn exe() -> String {
    std::env::current_exe().ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default()
}

fn replay_file(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let choices: Vec<u8> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let s = crate::scn::all().into_iter().find(|s| s.name == v["scenario"].as_str().unwrap() && s.prop == v["property"].as_str().unwrap()).expect("scenario");
    match replay(&s.opts, v["seed"].as_u64().unwrap_or(1), choices, &*s.make) {
        Ok(e) => {
            println!("{}", e.trace.join("\n"));
            for f in &e.failures {
                println!("FAILURE: {f}");
            }
            !e.failures.is_empty() as i32
        }
        Err(e) => {
            println!("{e}");
            1
        }
    }
}
