// A build with some of the features only leaves code unused.
#![cfg_attr(not(feature = "sanitized"), allow(dead_code, unused_imports))]

mod alloc;
mod checks;
mod ctx;
mod gen;
#[cfg(any(feature = "server", feature = "session"))]
mod hooks;
mod idle;
#[cfg(any(feature = "server", feature = "session"))]
mod lsp;
mod panics;
mod reflex;
mod refparse;
mod rng;
#[cfg(feature = "sanitized")]
mod sanitize;
#[cfg(any(feature = "parsing", feature = "analysis", feature = "sanitized"))]
mod tree;

use ctx::{work_dir, Ctx, Record, Tier, Violation};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|v| !v.is_empty())
}
fn seed() -> u64 {
    env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn tier_of(s: Option<&str>) -> Tier {
    match s.map(|s| s.to_string()).or_else(|| env("VERIF_TIER")).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], tier_of(args.get(3).map(|s| s.as_str()))),
        #[cfg(feature = "project")]
        Some("emit") => checks::project::emit(&std::fs::read_to_string(&args[2]).unwrap()),
        #[cfg(feature = "helpers")]
        Some("contexts") => checks::helpers::panic_contexts(&std::fs::read_to_string(&args[2]).unwrap()),
        Some("shard") => shard(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("list") => {
            for s in checks::ALL {
                println!("{}", s.id);
            }
        }
        _ => {
            eprintln!("usage: harness check ID [quick|thorough] | replay FILE | list");
            exit(2)
        }
    }
}

fn spec(id: &str) -> &'static checks::Spec {
    match checks::ALL.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("no check {}", id);
            exit(2)
        }
    }
}

/// ID TIER SEED SHARD SHARDS OUT TRACE BUDGET [TAG CASE]
fn shard(a: &[String]) {
    panics::install();
    let only = a.get(8).map(|t| (t.clone(), a[9].parse().unwrap()));
    let mut ctx = Ctx::new(
        &a[0],
        tier_of(Some(&a[1])),
        a[2].parse().unwrap(),
        a[3].parse().unwrap(),
        a[4].parse().unwrap(),
        only,
        Path::new(&a[5]),
        Path::new(&a[6]),
        Duration::from_secs(a[7].parse().unwrap()),
    );
    (spec(&a[0]).run)(&mut ctx);
    let _ = std::fs::write(&ctx.out, ctx.rec.to_json().to_string());
    // not through destructors of threads that may still run
    #[cfg(miri)]
    exit(0);
    #[cfg(not(miri))]
    unsafe {
        libc::_exit(0)
    }
}

struct Shard {
    child: std::process::Child,
    out: PathBuf,
    trace: PathBuf,
}

fn start_shard(s: &checks::Spec, tier: Tier, seed: u64, i: u64, k: u64, only: Option<(&str, u64)>) -> Shard {
    let dir = work_dir().join(s.id);
    std::fs::create_dir_all(&dir).unwrap();
    let name = if only.is_some() { "only".to_string() } else { i.to_string() };
    let out = dir.join(format!("{}.json", name));
    let trace = dir.join(format!("{}.trace", name));
    let _ = std::fs::remove_file(&out);
    let budget = if tier == Tier::Quick { s.budget.0 } else { s.budget.1 };
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("shard").arg(s.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(seed.to_string()).arg(i.to_string()).arg(k.to_string());
    c.arg(&out).arg(&trace).arg(budget.to_string());
    if let Some((t, n)) = only {
        c.arg(t).arg(n.to_string());
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    Shard { child: c.spawn().expect("cannot start a shard"), out, trace }
}

/// Waits for a shard and adds what it saw to `rec`.
fn collect(s: &checks::Spec, tier: Tier, seed: u64, mut sh: Shard, rec: &mut Record, confirm: bool) {
    use std::os::unix::process::ExitStatusExt;
    let status = sh.child.wait().unwrap();
    match std::fs::read_to_string(&sh.out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        Some(v) if status.success() => rec.merge(&v),
        _ => {
            let t = std::fs::read_to_string(&sh.trace).unwrap_or_default();
            let mut w = t.split_whitespace();
            let (tag, n) = match (w.next(), w.next().and_then(|n| n.parse::<u64>().ok())) {
                (Some(tag), Some(n)) => (tag.to_string(), n),
                _ => {
                    rec.errors.push(format!("a shard ended before its first case: {:?}", status));
                    return;
                }
            };
            match status.signal() {
                Some(sig) if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) => {
                    let mut again = String::new();
                    if confirm {
                        let mut sh = start_shard(s, tier, seed, 0, 1, Some((&tag, n)));
                        let st = sh.child.wait().unwrap();
                        again = format!("; run alone: {:?}", st);
                    }
                    rec.evaluations += 1;
                    rec.violations.push(Violation {
                        tag,
                        case: n,
                        what: format!("the process died of signal {}{}", sig, again),
                        input: String::new(),
                    });
                }
                _ => rec.errors.push(format!("shard ended with {:?} in {} {}", status, tag, n)),
            }
        }
    }
}

fn known(prop: &str, what: &str) -> Option<String> {
    let text = std::fs::read_to_string(checks::KNOWN_FINDINGS).unwrap_or_default();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let Some((id, sig)) = rest.split_once(' ') else { continue };
        if id == prop && what.contains(sig.trim()) {
            return Some(sig.trim().to_string());
        }
    }
    None
}

fn check(id: &str, tier: Tier) {
    let s = spec(id);
    let seed = seed();
    let start = Instant::now();
    #[cfg(feature = "sanitized")]
    if id == "P23" {
        return finish(s, tier, seed, start, sanitize::check(tier, seed));
    }
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get() as u64);
    let k = cores.min(s.max_shards).max(1);
    let shards: Vec<Shard> = (0..k).map(|i| start_shard(s, tier, seed, i, k, None)).collect();
    let mut rec = Record::default();
    for sh in shards {
        collect(s, tier, seed, sh, &mut rec, true);
    }
    finish(s, tier, seed, start, rec)
}

fn finish(s: &checks::Spec, tier: Tier, seed: u64, start: Instant, mut rec: Record) {
    let dir = work_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    rec.samples.truncate(6);
    let mut failing = vec![];
    let mut known_seen = vec![];
    for v in &rec.violations {
        match known(s.id, &v.what) {
            Some(k) => known_seen.push(k),
            None => failing.push(v.clone()),
        }
    }
    known_seen.sort();
    known_seen.dedup();
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let sets: serde_json::Map<String, Value> = rec
        .sets
        .iter()
        .map(|(k, v)| {
            let few: Vec<_> = v.iter().take(40).collect();
            (k.clone(), json!({"different": v.len(), "some": few}))
        })
        .collect();
    let mut coverage = json!({
        "evaluations": rec.evaluations,
        "distinct_nontrivial": rec.distinct.len(),
        "rule": s.rule,
        "samples": rec.samples,
        "observed": rec.counters,
        "seen": sets,
        "cases_not_run_for_lack_of_time": rec.skipped_for_time,
        "harness_errors": rec.errors,
    });
    if !known_seen.is_empty() {
        coverage["known_findings_seen"] = json!(known_seen);
    }
    let evidence = json!({
        "property": s.id,
        "tier": tier_name,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": s.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failing.len(),
    });
    let evdir = PathBuf::from(env("VERIF_EVIDENCE").unwrap_or_else(|| "/verif/evidence".into()));
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{}.json", s.id)), format!("{:#}\n", evidence)).unwrap();
    println!(
        "{}: {} cases, {} distinct, {} not run for lack of time, {:.1} s",
        s.id,
        rec.evaluations,
        rec.distinct.len(),
        rec.skipped_for_time,
        start.elapsed().as_secs_f64()
    );
    for k in &known_seen {
        println!("KNOWN-FINDING: property={} {}", s.id, k);
    }
    for v in failing.iter().take(5) {
        let file = dir.join(format!("{}-{}-{}.json", s.id, v.tag, v.case));
        let r = json!({"property": s.id, "tier": tier_name, "seed": seed, "tag": v.tag, "case": v.case,
            "what": v.what, "input": v.input,
            "replay": format!("bash /verif/run.sh replay {}", file.display())});
        std::fs::write(&file, format!("{:#}\n", r)).unwrap();
        println!("  {} {}: {}", v.tag, v.case, ctx::short(&v.what, 1500).replace('\n', "\\n"));
        println!("VIOLATION property={} replay={}", s.id, file.display());
    }
    if !failing.is_empty() {
        exit(1)
    }
    for e in rec.errors.iter().take(5) {
        println!("error: {}", ctx::short(e, 1500));
    }
    if !rec.errors.is_empty() {
        exit(3)
    }
    if (rec.distinct.len() as u64) < s.at_least {
        println!("error: only {} distinct non-trivial cases: nothing was decided", rec.distinct.len());
        exit(3)
    }
}

fn replay(file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let s = spec(v["property"].as_str().unwrap());
    let tier = tier_of(v["tier"].as_str());
    let seed = v["seed"].as_u64().unwrap();
    let (tag, case) = (v["tag"].as_str().unwrap(), v["case"].as_u64().unwrap());
    let mut rec = Record::default();
    if s.id == "P23" {
        #[cfg(feature = "sanitized")]
        sanitize::replay(tier, seed, tag, case, &mut rec);
    } else {
        let sh = start_shard(s, tier, seed, 0, 1, Some((tag, case)));
        collect(s, tier, seed, sh, &mut rec, false);
    }
    for x in &rec.violations {
        println!("{} {}: {}\n--- input ---\n{}", x.tag, x.case, x.what, x.input);
    }
    for e in &rec.errors {
        println!("error: {}", e);
    }
    println!("{} case(s) run, {} violation(s)", rec.evaluations, rec.violations.len());
    exit(if rec.violations.is_empty() { 0 } else { 1 })
}
