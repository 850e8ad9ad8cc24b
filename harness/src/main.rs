mod fw;
mod gen;
mod models;
mod props;

use fw::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};

fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn usage() -> ! {
    eprintln!("usage: vcheck-props list | run <PROPERTY> [--tier quick|thorough] [--section NAME] | replay <FILE> | subject <KIND> ...");
    exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
                for s in (p.sections)() {
                    println!("    {}", s.name);
                }
            }
        }
        Some("run") => supervise(&args[1..]),
        Some("run-child") => run_child(&args[1..]),
        Some("replay") => {
            if args.len() < 2 {
                usage()
            }
            replay(Path::new(&args[1]))
        }
        Some("subject") => props::subject(&args[1..]),
        _ => usage(),
    }
}

/// The parent only watches: a child that dies of a fatal signal (stack overflow, abort) or in which
/// a case does not end is re-run writing each case down first, so that this also yields a replay
/// file. It is a violation only if the case alone, in a fresh process, crashes or hangs again.
fn supervise(args: &[String]) {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let prop = args.first().cloned().unwrap_or_else(|| usage());
    let spawn = |trace: Option<&Path>| {
        let mut c = Command::new(&exe);
        c.arg("run-child").args(args);
        if let Some(dir) = trace {
            c.env("VHARNESS_TRACE", dir).stdout(std::process::Stdio::null());
        }
        let mut child = c.spawn().expect("spawn");
        let st = child.wait().expect("wait");
        props::bm::remove_scratch(child.id());
        st
    };
    let st = spawn(None);
    match st.code() {
        Some(STALLED) => eprintln!("a case does not end; tracing to find it"),
        Some(code) => exit(code),
        None => {
            let sig = st.signal().unwrap_or(0);
            // SIGABRT, SIGSEGV, SIGBUS, SIGILL: a crash of the code; anything else is an error of the run.
            if ![6, 11, 7, 4].contains(&sig) {
                eprintln!("child ended by signal {sig}: no answer");
                exit(2);
            }
            eprintln!("child died of signal {sig}; tracing to find the case");
        }
    }
    let dir = std::env::temp_dir().join(format!("vharness-trace-{}-{}", prop, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let _ = spawn(Some(&dir));
    for shard in 0..SHARDS {
        let f = dir.join(format!("shard-{shard}.json"));
        if !f.exists() {
            continue;
        }
        let Ok(mut child) = Command::new(&exe)
            .arg("replay")
            .arg(&f)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
        else {
            continue;
        };
        let start = std::time::Instant::now();
        let what = loop {
            match child.try_wait() {
                Ok(Some(st)) => {
                    break st.signal().filter(|s| [6, 11, 7, 4].contains(s)).map(|s| {
                        format!("the process dies of signal {s} (stack overflow, abort or exhausted memory)")
                    });
                }
                Ok(None)
                    if cpu_ms(&format!("/proc/{}/stat", child.id())).is_some_and(|t| t > STALL_CPU_MS)
                        || start.elapsed().as_millis() as u64 > STALL_WALL_MS =>
                {
                    let _ = child.kill();
                    let _ = child.wait();
                    break Some(format!("the call does not end within {} s of processor time", STALL_CPU_MS / 1000));
                }
                Ok(None) => std::thread::sleep(std::time::Duration::from_millis(50)),
                Err(_) => break None,
            }
        };
        props::bm::remove_scratch(child.id());
        if let Some(what) = what {
            let replays = verif_root().join("replays");
            let _ = std::fs::create_dir_all(&replays);
            let dest = replays.join(format!("{prop}-crash.json"));
            let mut v: Value = std::fs::read_to_string(&f)
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok())
                .unwrap_or(Value::Null);
            v["message"] = json!(what);
            let _ = std::fs::write(&dest, serde_json::to_string_pretty(&v).unwrap_or_default());
            println!("property {prop}: {what}");
            println!("  case: {}", v["case"].to_string().chars().take(2000).collect::<String>());
            println!("VIOLATION property={prop} replay={}", dest.display());
            write_crash_evidence(&prop, &v);
            let _ = std::fs::remove_dir_all(&dir);
            exit(1);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    eprintln!("crash not reproduced from a single case: no answer");
    exit(2);
}

/// Processor time a single case may take before it counts as endless (they take well under a
/// second), and time it may take in all.
const STALL_CPU_MS: u64 = 30_000;
const STALL_WALL_MS: u64 = 200_000;

fn write_crash_evidence(prop: &str, v: &Value) {
    let ev = json!({
        "property": prop, "tier": tier_of(&[]).name(), "seed": seed(), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
            "rule": "run ended early: the code under test crashed the process on the sample below",
            "samples": [v]},
        "wall_s": 0.0, "violations": 1
    });
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap_or_default());
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map(|v| v as u64)
        .unwrap_or(1)
}

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .map(|s| s.as_str())
}

fn tier_of(args: &[String]) -> Tier {
    let t = opt(args, "--tier")
        .map(|s| s.to_string())
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    if t == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn run_child(args: &[String]) {
    install_panic_hook();
    let id = args.first().cloned().unwrap_or_else(|| usage());
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        exit(2)
    };
    spawn_stall_watch(STALL_CPU_MS, STALL_WALL_MS);
    // A run that does not end is no answer, never a violation.
    let limit = if tier_of(args) == Tier::Quick { 840 } else { 4 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: run did not end in {limit}s: no answer");
        exit(3);
    });
    let root = verif_root();
    let ctx = Ctx {
        seed: seed(),
        tier: tier_of(args),
        property: id.clone(),
        trace: std::env::var_os("VHARNESS_TRACE").map(PathBuf::from),
        known: load_known(&root, &id),
        scale: std::env::var("VHARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    let only = opt(args, "--section").map(|s| s.to_string());
    let start = std::time::Instant::now();
    let mut reports = vec![];
    for s in (p.sections)() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let r = s.run(&ctx);
        eprintln!(
            "[{id}] {:<32} cases={:<9} evals={:<9} nontrivial={:<9} distinct={:<9} {:.1}s{}",
            r.name, r.cases, r.evaluations, r.nontrivial, r.distinct_nontrivial, r.wall_s,
            if r.failure.is_some() { "  FAILED" } else { "" }
        );
        if std::env::var_os("VHARNESS_LABELS").is_some() {
            for (k, v) in &r.labels {
                eprintln!("      {k}: {v}");
            }
        }
        reports.push(r);
    }
    let wall = start.elapsed().as_secs_f64();
    let failures: Vec<&SectionReport> = reports.iter().filter(|r| r.failure.is_some()).collect();
    let violations = failures
        .iter()
        .filter(|r| !r.failure.as_ref().map(|f| f.internal).unwrap_or(false))
        .count();

    let sections: Vec<Value> = reports
        .iter()
        .map(|r| {
            json!({
                "name": r.name, "rule": r.rule, "exhaustive": r.exhaustive, "cases": r.cases,
                "evaluations": r.evaluations, "nontrivial": r.nontrivial,
                "distinct_nontrivial": r.distinct_nontrivial, "classes": r.labels,
                "wall_s": (r.wall_s * 1000.0).round() / 1000.0,
            })
        })
        .collect();
    let samples: Vec<Value> = reports
        .iter()
        .flat_map(|r| r.samples.iter().map(move |s| json!({"section": r.name, "case": s})))
        .collect();
    let rule = reports
        .iter()
        .map(|r| format!("{}: {}", r.name, r.rule))
        .collect::<Vec<_>>()
        .join(" | ");
    let known: std::collections::BTreeMap<String, u64> = reports.iter().fold(Default::default(), |mut m, r| {
        for (k, v) in &r.known {
            *m.entry(k.clone()).or_insert(0) += v;
        }
        m
    });
    let evidence = json!({
        "property": id,
        "tier": ctx.tier.name(),
        "seed": ctx.seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct_nontrivial).sum::<u64>(),
            "rule": rule,
            "samples": samples,
            "sections": sections,
            "known_findings_hit": known,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(
        evdir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&evidence).unwrap_or_default(),
    ) {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
    for k in &ctx.known {
        println!("KNOWN-FINDING: property={} {}", id, k.what);
    }
    let mut code = 0;
    for r in failures {
        let Some(f) = &r.failure else { continue };
        let replays = root.join("replays");
        let _ = std::fs::create_dir_all(&replays);
        let path = replays.join(format!("{id}-{}.json", r.name));
        let v = json!({"property": id, "section": r.name, "case": f.case, "message": f.message, "seed": ctx.seed as i64});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
        println!("property {id}, section {}: {}", r.name, f.message);
        println!("  case: {}", f.debug.chars().take(2000).collect::<String>());
        if f.internal {
            println!("HARNESS-ERROR property={id} replay={}", path.display());
            if code == 0 {
                code = 2;
            }
        } else {
            println!("VIOLATION property={id} replay={}", path.display());
            code = 1;
        }
    }
    if code == 0 {
        println!("OK property={id} tier={} seed={} wall={:.1}s", ctx.tier.name(), ctx.seed, wall);
    }
    exit(code);
}

fn replay(file: &Path) {
    install_panic_hook();
    let txt = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{e}");
        exit(2)
    });
    let v: Value = serde_json::from_str(&txt).unwrap_or_else(|e| {
        eprintln!("{e}");
        exit(2)
    });
    let id = v["property"].as_str().unwrap_or("");
    let sec = v["section"].as_str().unwrap_or("");
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        exit(2)
    };
    for s in (p.sections)() {
        if s.name == sec {
            let case = v["case"].clone();
            // same stack as in a run
            let r = std::thread::scope(|scope| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, || s.replay(&case))
                    .expect("spawn")
                    .join()
                    .expect("join")
            });
            props::bm::remove_scratch(std::process::id());
            match r {
                Err(e) => {
                    eprintln!("cannot decode case: {e}");
                    exit(2);
                }
                Ok(Ok(())) => {
                    println!("replay passes: {}", case);
                    exit(0);
                }
                Ok(Err(f)) => {
                    println!("{}", f.message);
                    if f.internal {
                        exit(2);
                    }
                    println!("VIOLATION property={id} replay={}", file.display());
                    exit(1);
                }
            }
        }
    }
    eprintln!("unknown section {sec}");
    exit(2);
}
