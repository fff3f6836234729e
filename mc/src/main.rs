mod engine;
mod guard;
mod model;
mod obits;
mod props;
mod real;
mod step;
mod text;
mod wire;
mod work;

use engine::{Fail, Tier};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: guard::CountingAlloc = guard::CountingAlloc;

const WORKERS: usize = 8;

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

/// ids of the findings listed for a property: lines `finding: property=<id> key=<key> ...`
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("finding: property={prop} key="))?;
            let (key, what) = rest.split_once(' ')?;
            Some((key.to_string(), what.to_string()))
        })
        .collect()
}

fn tier_of(s: Option<&String>) -> Tier {
    let t = s.cloned().or_else(|| std::env::var("VERIF_TIER").ok());
    match t.as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick { "quick" } else { "thorough" }
}
fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn write_evidence(prop: &str, v: &Value) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{prop}.tmp"));
    if let Err(e) = std::fs::write(&tmp, serde_json::to_vec_pretty(v).unwrap())
        .and_then(|_| std::fs::rename(&tmp, dir.join(format!("{prop}.json"))))
    {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
}

fn write_replay(prop: &str, scenario: &str, tier: Tier, choices: &[u16], msg: &str, notes: &[String], input: &[u8]) -> PathBuf {
    let dir = verif().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let h = engine::hash(&(scenario, choices));
    let base = dir.join(format!("{prop}-{h:016x}.json"));
    let mut v = json!({
        "property": prop, "scenario": scenario, "tier": tier_name(tier), "choices": choices,
        "message": msg, "history": notes,
        "how_to_replay": format!("{}/run.sh replay {}", verif().display(), base.display()),
    });
    if !input.is_empty() {
        let mvd = base.with_extension("mvd");
        let _ = std::fs::write(&mvd, input);
        v["input_file"] = json!(mvd.display().to_string());
        v["input_bytes"] = json!(input.len());
    }
    let _ = std::fs::write(&base, serde_json::to_vec_pretty(&v).unwrap());
    base
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => supervise(&args[1], tier_of(args.get(2))),
        Some("worker") => worker(&args[1], tier_of(args.get(2)), &args[3]),
        Some("exec1") => exec1(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("list") => {
            for id in props::IDS {
                println!("{id}");
            }
        }
        Some("dump") => props::calls::dump(&args[1..]),
        Some("probe") => props::probe(&args[1..]),
        _ => {
            eprintln!("usage: mc run|replay|list ...");
            exit(2)
        }
    }
}

/// Runs the exploration in a child, so that an abort, a stack overflow, a segmentation fault or a
/// hang of the code under test is a finding and not the end of the check.
fn supervise(prop: &str, tier: Tier) {
    let t0 = Instant::now();
    if !props::IDS.contains(&prop) {
        eprintln!("unknown property {prop}");
        exit(2);
    }
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let slots = dir.join("slots");
    guard::map_slots(slots.to_str().unwrap(), true).expect("slots");
    let me = std::env::current_exe().unwrap();
    let status = Command::new(&me)
        .args(["worker", prop, tier_name(tier), slots.to_str().unwrap()])
        .env("MC_SCRATCH", &dir)
        .env("RUST_BACKTRACE", "0") // errors would otherwise queue up for a process-wide lock
        .status()
        .expect("worker");
    let code = match status.code() {
        Some(c @ 0..=2) => c,
        other => {
            // died: find the execution that kills it
            let hang = other == Some(guard::EXIT_HANG);
            eprintln!("worker ended with {status}; confirming");
            let p = props::get(prop, tier);
            let mut code = 2;
            for (si, choices) in guard::busy_slots() {
                let list = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
                let (died, how) = confirm(&me, prop, tier, si, &list);
                if died {
                    let msg = format!("{}: {how}", if hang { "call does not return" } else { "process dies" });
                    let path = write_replay(prop, p.scenarios[si].name, tier, &choices, &msg, &[], &[]);
                    println!("{msg} in scenario {}", p.scenarios[si].name);
                    println!("VIOLATION property={prop} replay={}", path.display());
                    let n = guard::slot_executions();
                    write_evidence(prop, &json!({
                        "property": prop, "tier": tier_name(tier), "seed": seed(), "level": p.level,
                        "coverage": {"executions": n, "samples": [msg], "exhaustive": false,
                                     "states": 0, "transitions": 0, "traces_validated_against_impl": n,
                                     "evaluations": n, "distinct_nontrivial": 0, "rule": p.rule},
                        "wall_s": t0.elapsed().as_secs_f64(), "violations": 1
                    }));
                    code = 1;
                    break;
                }
            }
            if code == 2 {
                eprintln!("the worker's death could not be reproduced");
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    exit(code);
}

fn confirm(me: &Path, prop: &str, tier: Tier, si: usize, list: &str) -> (bool, String) {
    let mut ch = Command::new(me)
        .args(["exec1", prop, tier_name(tier), &si.to_string(), list])
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .expect("exec1");
    let t = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(s) if matches!(s.code(), Some(0..=2)) => return (false, String::new()),
            Some(s) if s.code() == Some(guard::EXIT_HANG) => {
                return (true, format!("no answer within {} ms", guard::HANG_MS))
            }
            Some(s) => return (true, format!("{s}")),
            None if t.elapsed() > Duration::from_millis(4 * guard::HANG_MS) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return (true, "no answer".into());
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn exec1(a: &[String]) {
    let tier = tier_of(a.get(1));
    let si: usize = a[2].parse().unwrap();
    let choices: Vec<u16> = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    guard::install_panic_hook();
    guard::start_watchdog();
    let p = props::get(&a[0], tier);
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        guard::use_slot(0);
        let (r, ..) = engine::replay(&p.scenarios[si], si, tier, &choices);
        match r {
            Ok(Ok(())) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 2,
        }
    });
    exit(h.unwrap().join().unwrap_or(2));
}

/// Re-executes a failing choice sequence in fresh threads (first with the default hash seed, then
/// with others) and returns its message, history and input.
fn reexecute(p: &props::Prop, si: usize, tier: Tier, choices: &[u16]) -> Option<(String, Vec<String>, Vec<u8>)> {
    for seed in 1..=64u64 {
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(s, || {
                    guard::use_slot(WORKERS);
                    guard::set_seed(seed);
                    engine::replay(&p.scenarios[si], si, tier, choices)
                })
                .unwrap()
                .join()
        });
        if let Ok((Ok(Err(Fail::Violation(m))), notes, input)) = r {
            return Some((m, notes, input));
        }
    }
    None
}

fn worker(prop: &str, tier: Tier, slots: &str) {
    let t0 = Instant::now();
    guard::map_slots(slots, false).expect("slots");
    guard::install_panic_hook();
    guard::start_watchdog();
    let p = props::get(prop, tier);
    let cap = if tier == Tier::Quick { 400 } else { 800 };
    let deadline = t0 + Duration::from_secs(std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(cap));
    let rep = engine::explore(&p.scenarios, tier, p.workers.unwrap_or(WORKERS), deadline);
    if let Some(e) = &rep.harness_error {
        if rep.found.is_empty() {
            eprintln!("ERROR {e}");
            exit(2);
        }
    }
    let listed = known_findings(prop);
    let mut violations = 0;
    let mut code = 0;
    for (k, n) in &rep.known {
        match listed.iter().find(|(key, _)| key == k) {
            Some((_, what)) => println!("KNOWN-FINDING: property={prop} {k}: {what} ({n} explored histories)"),
            None => {
                let path = write_replay(prop, "-", tier, &[], &format!("finding {k} is not listed"), &[], &[]);
                println!("VIOLATION property={prop} replay={}", path.display());
                violations += 1;
                code = 1;
            }
        }
    }
    let mut samples = rep.samples.clone();
    let mut found = rep.found.len();
    for f in rep.found.iter().take(1) {
        let sc = &p.scenarios[f.scenario];
        let again = reexecute(&p, f.scenario, tier, &f.choices);
        if again.is_none() && f.msg.contains("does not return") {
            // it does, given the time
            eprintln!("scenario {}: {} (not so when run again)", sc.name, f.msg);
            found = 0;
            break;
        }
        let (msg, notes, input) = again.unwrap_or_else(|| (format!("{} (seen once; depends on something outside the recorded choices)", f.msg), vec![], vec![]));
        let path = write_replay(prop, sc.name, tier, &f.choices, &msg, &notes, &input);
        println!("scenario {}: {}", sc.name, msg);
        for n in &notes {
            println!("  {n}");
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        samples.push(format!("VIOLATION {}: {}", sc.name, msg));
        code = 1;
    }
    violations += found;
    let exhaustive = rep.found.is_empty() && rep.scenarios.iter().all(|s| s.3);
    let mut cov = json!({
        "distinct_outcomes": rep.local.outcomes.len(),
        "max_choice_depth": rep.max_depth,
        "exhaustive": exhaustive,
        "samples": samples,
        "scenarios": rep.scenarios.iter().map(|(n, e, d, x)| json!({"name": n, "executions": e, "deviation_bound_completed": d, "completed": x})).collect::<Vec<_>>(),
    });
    let l = &rep.local;
    for (k, v) in &l.counters {
        cov[*k] = json!(v);
    }
    if p.level == "fault_enumeration" {
        cov["evaluations"] = json!(l.compared);
        cov["distinct_nontrivial"] = json!(l.inputs.len());
        cov["rule"] = json!(p.rule);
    } else {
        cov["executions"] = json!(rep.executions);
        cov["states"] = json!(l.states.len() as u64 + l.more_states);
        cov["transitions"] = json!(l.transitions.len() as u64 + l.more_transitions);
        cov["traces_validated_against_impl"] = json!(l.compared);
    }
    write_evidence(prop, &json!({
        "property": prop, "tier": tier_name(tier), "seed": seed(), "level": p.level,
        "coverage": cov, "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    }));
    println!(
        "{prop} {}: {} executions, {} states, {} transitions, {} compared, {} outcomes, {:.1}s{}",
        tier_name(tier), rep.executions, l.states.len() as u64 + l.more_states, l.transitions.len() as u64 + l.more_transitions, l.compared, l.outcomes.len(),
        t0.elapsed().as_secs_f64(), if exhaustive { "" } else { " (not exhaustive)" }
    );
    exit(code);
}

fn replay(path: &str) {
    guard::install_panic_hook();
    guard::start_watchdog();
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let prop = v["property"].as_str().unwrap().to_string();
    let tier = tier_of(v["tier"].as_str().map(|s| s.to_string()).as_ref());
    let choices: Vec<u16> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect();
    let p = props::get(&prop, tier);
    let Some(si) = p.scenarios.iter().position(|s| s.name == v["scenario"].as_str().unwrap()) else {
        eprintln!("no such scenario");
        exit(2)
    };
    match reexecute(&p, si, tier, &choices) {
        Some((m, notes, _)) => {
            for n in notes {
                println!("  {n}");
            }
            println!("reproduced: {m}");
            exit(1)
        }
        None => {
            println!("not reproduced");
            exit(0)
        }
    }
}
