//! Bounded exhaustive exploration of the scribe crate. See /verif/DESIGN.md.

mod arith;
mod big;
mod create;
mod dated;
mod deep;
mod edits;
mod engine;
mod faults;
mod io;
mod life;
mod model;
mod names;
mod strings;
mod sys;
mod text;
mod ws;

use engine::{Harness, Outcome, Report};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use syntect::parsing::SyntaxSet;

pub fn syntaxes() -> &'static SyntaxSet {
    static SET: OnceLock<SyntaxSet> = OnceLock::new();
    SET.get_or_init(SyntaxSet::load_defaults_newlines)
}

fn harnesses(prop: &str, thorough: bool) -> Option<Vec<Harness>> {
    Some(match prop {
        "C01" => edits::c01(thorough),
        "C02" => edits::c02(thorough),
        "C03" => edits::c03(thorough),
        "C04" => edits::c04(thorough),
        "C05" => edits::c05(thorough),
        "C06" => io::c06(thorough),
        "C07" => io::c07(thorough),
        "C08" => edits::c08(thorough),
        "C09" => edits::c09(thorough),
        "C10" => edits::c10(thorough),
        "C11" => edits::c11(thorough),
        "C12" => text::c12(thorough),
        "C13" => text::c13(thorough),
        "C14" => text::c14(thorough),
        "C15" => text::c15(thorough),
        "C16" => ws::c16(thorough),
        "C17" => ws::c17(thorough),
        "C18" => ws::c18(thorough),
        "C19" => ws::c19(thorough),
        "C20" => arith::c20(thorough),
        "C21" => arith::c21(thorough),
        "C22" => arith::c22(thorough),
        "C23" => create::c23(thorough),
        _ => return None,
    })
}

/// Where evidence, replays and known findings live: /verif, next to this crate.
fn home() -> PathBuf {
    std::env::var_os("MC_HOME")
        .map(PathBuf::from)
        .unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

/// A scratch directory that goes away with this value.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = engine::scratch_root();
        std::fs::create_dir_all(&p).expect("cannot create the scratch directory");
        let p = p.canonicalize().unwrap();
        names::home(&p);
        let temporary = p.join("tmp");
        std::fs::create_dir_all(&temporary).unwrap();
        std::env::set_var("TMPDIR", temporary);
        engine::few_handles(life::HANDLES);
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn usage() -> i32 {
    eprintln!("usage: mc check <property> [--tier quick|thorough] | mc replay <file> | mc list");
    2
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = args
        .iter()
        .position(|a| a == "--tier")
        .and_then(|i| args.get(i + 1).cloned())
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, ..] => check(prop, &tier),
        ["child", prop, out, ..] => child(prop, &tier, Path::new(out)),
        ["again", prop, harness, choices, ..] => again(prop, &tier, harness, choices),
        ["replay", file] => replay_file(Path::new(file)),
        ["list", ..] => {
            for i in 1..=23 {
                let p = format!("C{:02}", i);
                for h in harnesses(&p, tier == "thorough").unwrap() {
                    println!("{} {}: {}", p, h.name, h.bounds);
                }
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

fn parse_choices(s: &str) -> Vec<u16> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Executes one sequence of decisions; used to confirm crashes and to replay counterexamples.
fn again(prop: &str, tier: &str, harness: &str, choices: &str) -> i32 {
    engine::install_crash_handler();
    let Some(hs) = harnesses(prop, tier == "thorough") else { return usage() };
    let Some(h) = hs.iter().find(|h| h.name == harness) else {
        eprintln!("no harness {}", harness);
        return 2;
    };
    let scratch = Scratch::new();
    let w = scratch.0.join("w0");
    std::fs::create_dir_all(&w).unwrap();
    // On a thread of its own, with the same stack size as during exploration.
    let choices = parse_choices(choices);
    let (o, t) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || engine::replay(h, &choices, &w, true))
            .unwrap()
            .join()
            .unwrap()
    });
    for l in &t {
        println!("  {}", l);
    }
    match o {
        Outcome::Pass => {
            println!("held");
            0
        }
        Outcome::Violation(m) => {
            println!("violated: {}", m);
            1
        }
        Outcome::EngineError(m) | Outcome::Diverged(m) => {
            println!("no verdict: {}", m);
            2
        }
    }
}

fn replay_file(file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("cannot read the replay file")).expect("not JSON");
    if v["sequential"].as_bool() == Some(true) {
        let (prop, harness) = (v["property"].as_str().unwrap(), v["harness"].as_str().unwrap());
        let out = file.with_extension("raw");
        return match in_sequence(prop, v["tier"].as_str().unwrap(), harness, &out) {
            Some(w) => {
                println!("violated: {}", w["message"].as_str().unwrap_or(""));
                1
            }
            None => {
                println!("held");
                0
            }
        };
    }
    let choices: Vec<String> = v["choices"].as_array().unwrap().iter().map(|c| c.to_string()).collect();
    again(
        v["property"].as_str().unwrap(),
        v["tier"].as_str().unwrap(),
        v["harness"].as_str().unwrap(),
        &choices.join(","),
    )
}

/// Wall-clock allowance for one property; running out is reported as incomplete coverage.
fn allowance(tier: &str) -> Duration {
    Duration::from_secs(
        std::env::var("MC_SECONDS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { 700 } else { 400 }),
    )
}

fn report_json(r: &Report) -> Value {
    json!({
        "harness": r.name,
        "bounds": r.bounds,
        "executions": r.executions,
        "transitions": r.transitions,
        "states": r.states,
        "states_capped": r.states_capped,
        "max_decisions": r.max_points,
        "outcomes": r.counts,
        "diverged": r.diverged,
        "abandoned_because_another_property_failed": r.foreign,
        "complete": r.complete,
        "wall_s": (r.wall_s * 1000.0).round() / 1000.0,
    })
}

/// Explores every harness of a property and writes the raw results to `out`.
fn child(prop: &str, tier: &str, out: &Path) -> i32 {
    engine::install_crash_handler();
    let Some(hs) = harnesses(prop, tier == "thorough") else { return usage() };
    let scratch = Scratch::new();
    let deadline = Instant::now() + allowance(tier);
    let only = std::env::var("MC_ONLY").ok();
    let mut reports = Vec::new();
    let mut samples = Vec::new();
    let mut violation = Value::Null;
    let mut error = Value::Null;
    let mut unconfirmed = Value::Null;
    for (i, h) in hs.iter().enumerate() {
        if only.as_ref().map_or(false, |o| o != h.name) {
            continue;
        }
        let r = engine::explore(h, i, &scratch.0, deadline);
        eprintln!(
            "{} {}: {} executions, {} transitions, {} states, {:.1}s{}{}{:?}",
            prop,
            r.name,
            r.executions,
            r.transitions,
            r.states,
            r.wall_s,
            if r.complete { " complete " } else { " INCOMPLETE " },
            if r.foreign > 0 { format!("abandoned {} ", r.foreign) } else { String::new() },
            r.counts
        );
        for (c, t) in &r.samples {
            samples.push(json!({"harness": r.name, "decisions": c, "steps": t.iter().take(40).collect::<Vec<_>>()}));
        }
        if let Some(v) = &r.violation {
            violation = json!({"harness": r.name, "choices": v.choices, "message": v.message, "trace": v.trace});
        }
        if let Some(e) = &r.engine_error {
            error = json!(format!("{}: {}", r.name, e));
            if r.unconfirmed {
                unconfirmed = json!(r.name);
            }
        }
        reports.push(report_json(&r));
        if !violation.is_null() || !error.is_null() {
            break;
        }
    }
    let v = json!({"reports": reports, "samples": samples, "violation": violation, "error": error, "unconfirmed": unconfirmed});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    0
}

fn spawn_child(prop: &str, tier: &str, args: &[&str], limit: Duration) -> (Option<i32>, String, String) {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(args).arg("--tier").arg(tier).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let _ = prop;
    let mut c = cmd.spawn().expect("cannot start the exploring process");
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let to = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let te = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = std::io::Read::read_to_end(&mut se, &mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let status = loop {
        match c.try_wait().unwrap() {
            Some(s) => break s.code(),
            None if start.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    // The child's scratch directory is its own to remove, unless it died.
    let _ = std::fs::remove_dir_all(format!("/dev/shm/scribe-mc-{}", c.id()));
    (status, to.join().unwrap(), te.join().unwrap())
}

/// Explores one harness in a single thread of a new process; yields the violation it ends with.
fn in_sequence(prop: &str, tier: &str, harness: &str, out: &Path) -> Option<Value> {
    std::env::set_var("MC_SEQUENTIAL", "1");
    std::env::set_var("MC_ONLY", harness);
    std::env::set_var("MC_SECONDS", "200");
    let (_, _, err) = spawn_child(prop, tier, &["child", prop, out.to_str().unwrap()], Duration::from_secs(220));
    for v in ["MC_SEQUENTIAL", "MC_ONLY", "MC_SECONDS"] {
        std::env::remove_var(v);
    }
    eprint!("{}", err);
    let raw: Value = std::fs::read(out).ok().and_then(|b| serde_json::from_slice(&b).ok())?;
    let _ = std::fs::remove_file(out);
    if raw["violation"].is_null() {
        None
    } else {
        Some(raw["violation"].clone())
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let thorough = tier == "thorough";
    let Some(hs) = harnesses(prop, thorough) else { return usage() };
    let home = home();
    for d in ["evidence", "replays"] {
        std::fs::create_dir_all(home.join(d)).unwrap();
    }
    let out = home.join("replays").join(format!(".{}.{}.raw", prop, std::process::id()));
    let limit = allowance(tier) + Duration::from_secs(120);
    let (status, _, err) = spawn_child(prop, tier, &["child", prop, out.to_str().unwrap()], limit);
    eprint!("{}", err);
    let raw: Value = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
    let _ = std::fs::remove_file(&out);
    let mut violation = raw["violation"].clone();
    let mut error = raw["error"].clone();
    if status != Some(0) || raw.is_null() {
        // The exploring process died: a crash or a call that does not return. Confirm it.
        let line = err.lines().find(|l| l.starts_with("MC-CRASH") || l.starts_with("MC-HANG"));
        error = json!(format!("the exploring process ended with {:?}", status));
        if let Some(line) = line {
            let f: Vec<&str> = line.split_whitespace().collect();
            let idx: usize = f[2].parse().unwrap_or(usize::MAX);
            let n: usize = f[3].parse().unwrap_or(99999);
            if idx < hs.len() && n < 90000 {
                let choices = f[4..].join(",");
                let mut again = 0;
                let mut trace = String::new();
                for _ in 0..2 {
                    let (s, o, e) = spawn_child(prop, tier, &["again", prop, hs[idx].name, &choices], Duration::from_secs(90));
                    if s != Some(0) && s != Some(2) {
                        again += 1;
                        trace = format!("{}{}", o, e);
                    }
                }
                if again > 0 {
                    error = Value::Null;
                    violation = json!({
                        "harness": hs[idx].name,
                        "choices": parse_choices(&choices),
                        "message": if f[0] == "MC-HANG" { "a call did not return".to_string() } else { format!("the process was ended by signal {}", f[1]) },
                        "trace": trace.lines().take(60).collect::<Vec<_>>(),
                    });
                }
            }
        }
    }
    let mut sequential = false;
    if let Some(name) = raw["unconfirmed"].as_str() {
        // A violation that depends on what the process did before, as when the code keeps
        // something across calls: explore that harness in one thread of a new process, where
        // everything that happens is a function of the order of exploration.
        if let Some(v) = in_sequence(prop, tier, name, &out) {
            if in_sequence(prop, tier, name, &out).map_or(false, |w| w["choices"] == v["choices"]) {
                sequential = true;
                error = Value::Null;
                violation = v;
            }
        }
    }
    let reports = raw["reports"].as_array().cloned().unwrap_or_default();
    let sum = |k: &str| reports.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let complete = !reports.is_empty()
        && reports.len() == hs.len()
        && reports.iter().all(|r| r["complete"].as_bool() == Some(true));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum("states"),
            "transitions": sum("transitions"),
            "traces_validated_against_impl": sum("executions"),
            "samples": raw["samples"].as_array().cloned().unwrap_or_default(),
            "exhaustive": complete && violation.is_null(),
            "harnesses": reports,
            "explanation": "states: distinct observed states (a lower bound where states_capped); transitions: real scribe calls executed in a new context; traces_validated_against_impl: complete executions of the real code, each compared step by step with the reference model",
        },
        "assumptions": [
            "deterministic single-threaded library: every execution is a function of the decisions taken",
            "bounds as stated per harness",
            "the reference model in mc/src/model.rs states the intended behaviour"
        ],
        "wall_s": (start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": if violation.is_null() { 0 } else { 1 },
    });
    std::fs::write(
        home.join("evidence").join(format!("{}.json", prop)),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .unwrap();
    if !violation.is_null() {
        let replay = home.join("replays").join(format!("{}-{}.json", prop, violation["harness"].as_str().unwrap_or("x")));
        let doc = json!({
            "property": prop,
            "tier": if thorough { "thorough" } else { "quick" },
            "harness": violation["harness"],
            "choices": violation["choices"],
            "message": violation["message"],
            "trace": violation["trace"],
            "sequential": sequential,
        });
        std::fs::write(&replay, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
        for l in violation["trace"].as_array().cloned().unwrap_or_default() {
            println!("  {}", l.as_str().unwrap_or(""));
        }
        println!("{} {}: {}", prop, violation["harness"].as_str().unwrap_or(""), violation["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop, replay.display());
        return 1;
    }
    if !error.is_null() {
        println!("no verdict: {}", error);
        return 2;
    }
    println!(
        "{} held: {} executions, {} transitions, {} states, {}",
        prop,
        sum("executions"),
        sum("transitions"),
        sum("states"),
        if complete { "bounded space covered completely" } else { "time allowance used up" }
    );
    0
}
