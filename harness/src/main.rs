mod alloc;
mod engine;
mod expr;
mod hashseed;
mod linear;
mod props;
mod util;

use engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;

const CASE_LIMIT: Duration = Duration::from_secs(40);
const HANG_EXIT: i32 = 77;
const MEMORY: u64 = 14 << 30;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("NGV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn find(id: &str) -> &'static PropDef {
    props::ALL.iter().find(|d| d.id == id).unwrap_or_else(|| {
        eprintln!("no check for {id}");
        std::process::exit(2)
    })
}

fn workers() -> usize {
    std::env::var("NGV_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8))
}

fn failure_json(ran: &Ran) -> Value {
    let f = ran.result.as_ref().err().cloned().unwrap_or(Failure { key: String::new(), msg: "?".into() });
    json!({ "hash_seed": ran.json["hash_seed"], "case": ran.json["case"], "message": f.msg, "key": f.key, "choices": ran.choices })
}

/// Known findings: lines "known: property=<id> key=<key> <what fails>"
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut w = rest.splitn(3, ' ');
            let (p, k, what) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            if p == format!("property={id}") {
                if let Some(k) = k.strip_prefix("key=") {
                    m.insert(k.to_string(), what.to_string());
                }
            }
        }
    }
    m
}

// child ID SEED CASES SECONDS CRUMBS OUT
fn child(a: &[String]) -> ExitCode {
    let def = find(&a[0]);
    let (seed, cases, secs): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let n = workers();
    let crumbs: &'static Crumbs = Box::leak(Box::new(Crumbs::create(&a[4], n)));
    crumbs.watch(CASE_LIMIT, HANG_EXIT);
    let known: Vec<String> = known_findings(def.id).into_keys().collect();
    let deadline = (secs > 0).then(|| Instant::now() + Duration::from_secs(secs));
    let o = run_many(def, seed, cases, deadline, &known, n, crumbs);
    let mut out = json!({
        "evaluations": o.evaluations, "distinct": o.distinct, "labels": o.labels, "samples": o.samples, "known": o.known,
    });
    if let Some((i, ran)) = &o.failure {
        out["index"] = json!(i);
        out["failure"] = failure_json(ran);
        std::fs::write(&a[5], out.to_string()).unwrap();
        if !ran.choices.is_empty() {
            let known2 = known.clone();
            let keep = |r: &Ran| matches!(&r.result, Err(f) if f.key.is_empty() || !known2.contains(&f.key));
            let (best, tries) = shrink(def, ran.choices.clone(), keep, Duration::from_secs(45), 4000);
            let small = (def.run)(Origin::Choices(best), None);
            if small.result.is_err() {
                out["failure"] = failure_json(&small);
                out["failure"]["shrink_tries"] = json!(tries);
            }
        }
    }
    std::fs::write(&a[5], out.to_string()).unwrap();
    ExitCode::SUCCESS
}

// one ID (seed SEED INDEX | choices FILE | json FILE) OUT : runs one case, writing it to OUT before it runs
fn one(a: &[String]) -> ExitCode {
    let def = find(&a[0]);
    let (o, out) = match a[1].as_str() {
        "seed" => (origin(def, a[2].parse().unwrap(), a[3].parse().unwrap()), &a[4]),
        "choices" => (Origin::Choices(serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap()), &a[3]),
        "json" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            (Origin::Json(v["case"].clone(), v["hash_seed"].as_u64().unwrap_or(0)), &a[3])
        }
        _ => return ExitCode::from(2),
    };
    let out = out.clone();
    let announce = move |v: &Value| std::fs::write(&out, v.to_string()).unwrap();
    let ran = (def.run)(o, Some(&announce));
    match ran.result {
        Ok(info) => {
            println!("holds {:?}", info);
            ExitCode::SUCCESS
        }
        Err(f) => {
            println!("{}", f.msg);
            ExitCode::from(1)
        }
    }
}

enum Ended {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn spawn_self(args: &[String], limit: Duration) -> Ended {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::null());
    if std::env::var("NGV_STDERR").is_err() {
        c.stderr(Stdio::null());
    }
    unsafe {
        c.pre_exec(|| {
            let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut r);
            r.rlim_cur = MEMORY.min(r.rlim_max);
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut p = c.spawn().expect("cannot start the worker process");
    let t0 = Instant::now();
    loop {
        if let Some(s) = p.try_wait().unwrap() {
            return match s.code() {
                Some(c) => Ended::Code(c),
                None => Ended::Signal(s.signal().unwrap_or(0)),
            };
        }
        if t0.elapsed() > limit {
            let _ = p.kill();
            let _ = p.wait();
            return Ended::Timeout;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 300 { 3 } else { 30 }));
    }
}

fn check(id: &str) -> ExitCode {
    let def = find(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut cases = if thorough { def.quick.saturating_mul(40) } else { def.quick };
    if let Ok(n) = std::env::var("NGV_CASES") {
        cases = n.parse().unwrap();
    }
    let secs: u64 = if thorough { 600 } else { 0 };
    let dir = root().join("target").join("run").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let s = |p: &Path| p.to_str().unwrap().to_string();
    let (crumbs, out) = (dir.join("crumbs"), dir.join("out.json"));
    let ended = spawn_self(
        &["child".into(), id.into(), seed.to_string(), cases.to_string(), secs.to_string(), s(&crumbs), s(&out)],
        Duration::from_secs(820),
    );
    let mut result: Option<Value> = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok());
    let mut error: Option<String> = None;
    let crashed = !matches!(ended, Ended::Code(0));
    if crashed && result.as_ref().is_none_or(|r| r.get("failure").is_none()) {
        // find the case that ended the worker, by running each candidate alone
        let what = match &ended {
            Ended::Code(c) if *c == HANG_EXIT => "hang".to_string(),
            Ended::Code(c) => format!("exit code {c}"),
            Ended::Signal(n) => format!("signal {n}"),
            Ended::Timeout => "timeout".into(),
        };
        let mut r = json!({ "evaluations": 0, "distinct": 0, "labels": {}, "samples": [], "known": {} });
        let candidates = Crumbs::read(&s(&crumbs));
        r["evaluations"] = json!(candidates.iter().max().copied().unwrap_or(0));
        let mut found = false;
        for i in candidates {
            let case = dir.join("case.json");
            let _ = std::fs::remove_file(&case);
            let e = spawn_self(&["one".into(), id.into(), "seed".into(), seed.to_string(), i.to_string(), s(&case)], CASE_LIMIT * 2);
            let msg = match e {
                Ended::Code(0) => continue,
                Ended::Code(1) => "the property fails".to_string(),
                Ended::Code(c) => format!("the process ended with code {c}"),
                Ended::Signal(n) => format!("the process was ended by signal {n} (stack overflow, abort or memory corruption)"),
                Ended::Timeout => format!("no answer within {} s", CASE_LIMIT.as_secs() * 2),
            };
            let hang = matches!(e, Ended::Timeout);
            let Some(mut v) = std::fs::read_to_string(&case).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
            // shrink crashes (not hangs) in separate processes
            if !hang {
                if let Origin::Seed(sd) = origin(def, seed, i) {
                    if let Some(small) = shrink_crash(id, def, sd, &dir) {
                        v = small;
                    }
                }
            }
            r["failure"] = json!({ "hash_seed": v["hash_seed"], "case": v["case"], "message": msg, "key": "", "choices": [] });
            found = true;
            break;
        }
        if !found {
            error = Some(format!("the worker process ended ({what}) and no single case explains it"));
        }
        result = Some(r);
    }
    let Some(r) = result else {
        eprintln!("no result of the worker process");
        return ExitCode::from(3);
    };
    if let Some(e) = &error {
        eprintln!("{e}");
        return ExitCode::from(3);
    }
    let violated = r.get("failure").is_some();
    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": r["evaluations"],
            "distinct_nontrivial": r["distinct"],
            "rule": def.rule,
            "samples": r["samples"],
            "labels": r["labels"],
            "known_findings_seen": r["known"],
        },
        "assumptions": def.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": if violated { 1 } else { 0 },
    });
    let ev = root().join("evidence");
    std::fs::create_dir_all(&ev).unwrap();
    std::fs::write(ev.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    for (k, what) in known_findings(id) {
        // a listed finding is reported on every run, seen or not by this run's cases
        let _ = k;
        println!("KNOWN-FINDING: property={id} {what}");
    }
    if violated {
        let f = &r["failure"];
        let replays = root().join("replays");
        std::fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{id}.json"));
        let replay = json!({ "property": id, "hash_seed": f["hash_seed"], "case": f["case"], "message": f["message"] });
        std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).unwrap();
        println!("{}", f["message"].as_str().unwrap_or(""));
        println!("case: {}", f["case"]);
        println!("VIOLATION property={id} replay={}", path.display());
        return ExitCode::from(1);
    }
    println!("{id}: {} cases, {} distinct non-trivial, {:.1} s", r["evaluations"], r["distinct"], t0.elapsed().as_secs_f64());
    ExitCode::SUCCESS
}

fn shrink_crash(id: &str, def: &'static PropDef, seed: u64, dir: &Path) -> Option<Value> {
    // the recorded choices of the crashing case, without running it
    let log = choices_of(def, seed);
    let s = |p: &Path| p.to_str().unwrap().to_string();
    let t0 = Instant::now();
    let mut best = log;
    let mut best_case = None;
    let try_one = |c: &Vec<u64>| -> Option<Value> {
        let f = dir.join("choices.json");
        let o = dir.join("small.json");
        let _ = std::fs::remove_file(&o);
        std::fs::write(&f, serde_json::to_string(c).unwrap()).ok()?;
        match spawn_self(&["one".into(), id.into(), "choices".into(), s(&f), s(&o)], Duration::from_secs(10)) {
            Ended::Signal(_) => std::fs::read_to_string(&o).ok().and_then(|t| serde_json::from_str(&t).ok()),
            _ => None,
        }
    };
    let mut k = (best.len() / 2).max(1);
    while k >= 1 && t0.elapsed() < Duration::from_secs(45) {
        let mut i = 0;
        while i + k <= best.len() && t0.elapsed() < Duration::from_secs(45) {
            let mut c = best.clone();
            c.drain(i..i + k);
            if let Some(v) = try_one(&c) {
                best = c;
                best_case = Some(v);
            } else {
                i += k;
            }
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    best_case
}

fn choices_of(def: &'static PropDef, seed: u64) -> Vec<u64> {
    let mut got = vec![];
    (def.log)(seed, &mut got);
    got
}

fn replay(path: &str) -> ExitCode {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("cannot read the replay file")).expect("not a replay file");
    let id = v["property"].as_str().expect("no property in the replay file").to_string();
    let tmp = std::env::temp_dir().join(format!("ngv-replay-{}.json", std::process::id()));
    std::env::set_var("NGV_STDERR", "1");
    let e = {
        let args: Vec<String> = vec!["one".into(), id.clone(), "json".into(), path.into(), tmp.to_str().unwrap().into()];
        spawn_self(&args, CASE_LIMIT * 2)
    };
    let code = match e {
        Ended::Code(0) => {
            println!("{id}: holds on this case");
            0
        }
        Ended::Code(1) => {
            // run again in this process for the message
            one(&[id.clone(), "json".into(), path.into(), tmp.to_str().unwrap().into()]);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Ended::Code(c) => {
            println!("ended with code {c}");
            1
        }
        Ended::Signal(n) => {
            println!("ended by signal {n}\nVIOLATION property={id} replay={path}");
            1
        }
        Ended::Timeout => {
            println!("no answer\nVIOLATION property={id} replay={path}");
            1
        }
    };
    let _ = std::fs::remove_file(tmp);
    ExitCode::from(code)
}

fn main() -> ExitCode {
    // errors of the code under test need no backtraces
    std::env::set_var("RUST_BACKTRACE", "0");
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(String::as_str) {
        Some("check") => check(&a[1]),
        Some("child") => child(&a[1..]),
        Some("one") => one(&a[1..]),
        Some("replay") => replay(&a[1]),
        Some("list") => {
            for d in props::ALL {
                println!("{}", d.id);
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: ngv check ID | replay FILE | list");
            ExitCode::from(2)
        }
    }
}
