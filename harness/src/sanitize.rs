//! P23: the workloads of other checks, run under sanitizers.
//!
//! `run.sh` builds this harness three more times: with AddressSanitizer, with
//! ThreadSanitizer (and a standard library built with it), and for Miri. What decides is
//! a report of one of them (or of the checks of debug builds against invalid values and
//! unsafe preconditions); what the oracles of the other checks say does not count here.
use crate::checks::{self, Spec};
use crate::ctx::{short, work_dir, Ctx, Record, Tier, Violation};
use serde_json::Value;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

pub const P23: Spec = Spec {
    id: "P23",
    run,
    rule: "The cases of the checks of the parser, the edits, the server, the files, the incremental database and child \
           processes, fewer of them, run with AddressSanitizer and ThreadSanitizer; small cases of the parser, texts, paths, \
           files, the database and server sessions interpreted by Miri with different schedules. A report of one of them is a \
           violation. Non-trivial: as for the check a case is from.",
    assumptions: &[
        "races and invalid accesses are seen only on paths that the cases run",
        "Miri runs without its aliasing model, which rowan does not follow",
        "leaks are judged by P24",
    ],
    budget: (150, 700),
    max_shards: 8,
    at_least: 500,
};

const ASAN: &[(&str, u64)] = &[
    ("P08", 15),
    ("P02", 30),
    ("P13", 15),
    ("P07", 30),
    ("P15", 20),
    ("P16", 20),
    ("P17", 20),
    ("P18", 20),
    ("P19", 30),
    ("P20", 10),
    ("P21", 10),
    ("P22", 5),
    ("P09", 20),
];
const TSAN: &[(&str, u64)] = &[("P10", 12), ("P09", 12), ("P20", 6), ("P12", 12), ("P22", 10), ("P13", 20), ("P08", 50)];

fn run(ctx: &mut Ctx) {
    let part = std::env::var("VERIF_PART").unwrap_or_default();
    let list = match part.as_str() {
        "asan" => ASAN,
        "tsan" => TSAN,
        "miri" => return crate::checks::miri(ctx),
        _ => return ctx.rec.errors.push(format!("no part {:?} of P23", part)),
    };
    let only = std::env::var("VERIF_ONLY").ok();
    for (id, divisor) in list {
        if only.as_ref().map_or(false, |o| o != id) {
            continue;
        }
        let s = checks::ALL.iter().find(|s| s.id == *id).unwrap();
        ctx.group = format!("{}:{}:", part, id);
        // the thorough numbers are some 30 times those of quick runs
        ctx.divisor = *divisor * ctx.scaled(1, if only.is_some() { 1 } else { 5 });
        let before = (ctx.rec.evaluations, ctx.rec.distinct.len());
        (s.run)(ctx);
        let c = &mut ctx.rec.counters;
        *c.entry(format!("{}: cases of {}", part, id)).or_default() += ctx.rec.evaluations - before.0;
        *c.entry(format!("{}: violations of other properties, not judged here", part)).or_default() +=
            ctx.rec.violations.len() as u64;
        ctx.rec.violations.clear();
    }
    ctx.group = format!("{}:P23:", part);
    ctx.divisor = 1;
    let n = ctx.scaled(if part == "asan" { 400 } else { 80 }, 20_000);
    ctx.cases("rough", n, |r, c| checks::server::rough_session(r, c, 12));
    ctx.rec.violations.clear();
    ctx.group.clear();
}

struct Part {
    name: &'static str,
    child: Child,
    i: u64,
}

fn out(part: &str, i: &str, ext: &str) -> PathBuf {
    work_dir().join("P23").join(format!("{}-{}.{}", part, i, ext))
}

fn command(part: &str) -> Command {
    let base = std::env::var("VERIF_SAN").unwrap_or_else(|_| "/verif/target/san".into());
    let mut c;
    if part == "miri" {
        c = Command::new("cargo");
        c.args(["miri", "run", "-q", "--offline", "--"]);
        c.current_dir(std::env::var("VERIF_MIRI").unwrap_or_else(|_| "/verif/miri".into()));
        c.env("CARGO_TARGET_DIR", format!("{}/miri", base));
    } else {
        c = Command::new(format!("{}/{}/x86_64-unknown-linux-gnu/debug/harness", base, part));
    }
    c
}

fn start(part: &'static str, tier: Tier, seed: u64, i: u64, k: u64, only: Option<(&str, u64)>) -> Part {
    std::fs::create_dir_all(work_dir().join("P23")).unwrap();
    let name = if only.is_some() { "only".to_string() } else { i.to_string() };
    let _ = std::fs::remove_file(out(part, &name, "json"));
    let err = std::fs::File::create(out(part, &name, "err")).unwrap();
    let mut c = command(part);
    let budget = if tier == Tier::Quick { P23.budget.0 } else { P23.budget.1 };
    c.arg("shard").arg("P23").arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(seed.to_string()).arg(i.to_string()).arg(k.to_string());
    c.arg(out(part, &name, "json")).arg(out(part, &name, "trace")).arg(budget.to_string());
    if let Some((t, n)) = only {
        c.arg(t).arg(n.to_string());
    }
    c.env("VERIF_PART", part);
    c.env("ASAN_OPTIONS", "exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1");
    c.env("TSAN_OPTIONS", "exitcode=86:halt_on_error=1:second_deadlock_stack=1:history_size=4");
    c.env(
        "MIRIFLAGS",
        format!("-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-seed={}", seed * 64 + i),
    );
    c.env("RUSTUP_TOOLCHAIN", "nightly");
    c.env("XDG_CACHE_HOME", "/verif/target/cache");
    c.env("RUST_BACKTRACE", "0");
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    Part { name: part, child: c.spawn().expect("cannot start a part of P23"), i }
}

/// The report of a sanitizer, if there is one.
fn report(err: &str) -> Option<String> {
    const SIGNS: &[&str] = &[
        "ERROR: AddressSanitizer",
        "WARNING: ThreadSanitizer: data race",
        "WARNING: ThreadSanitizer: heap-use-after-free",
        "WARNING: ThreadSanitizer: lock-order-inversion",
        "WARNING: ThreadSanitizer",
        "error: Undefined Behavior",
        "unsafe precondition(s) violated",
        "construct an enum from an invalid value",
        "misaligned pointer dereference",
        "null pointer dereference occurred",
    ];
    let at = SIGNS.iter().filter_map(|s| err.find(s)).min()?;
    let lines: Vec<&str> = err[at..].lines().take(40).collect();
    Some(lines.join("\n"))
}

fn collect(mut p: Part, rec: &mut Record, name: &str) {
    use std::os::unix::process::ExitStatusExt;
    let status = p.child.wait().unwrap();
    let err = String::from_utf8_lossy(&std::fs::read(out(p.name, name, "err")).unwrap_or_default()).to_string();
    let trace = std::fs::read_to_string(out(p.name, name, "trace")).unwrap_or_default();
    let mut w = trace.split_whitespace();
    let tag = w.next().unwrap_or(p.name).to_string();
    let case = w.next().and_then(|n| n.parse().ok()).unwrap_or(0);
    let found = report(&err);
    if let Some(what) = found.filter(|w| !w.contains("stack-overflow")) {
        rec.evaluations += 1;
        rec.violations.push(Violation { tag, case, what, input: short(&err, 15_000).to_string() });
        return;
    }
    let json = std::fs::read_to_string(out(p.name, name, "json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
    match json {
        Some(mut v) if status.success() => {
            // the watchdog's violations are those of other properties
            v["violations"] = serde_json::json!([]);
            rec.merge(&v);
            *rec.counters.entry(format!("{}: processes without a report", p.name)).or_default() += 1;
        }
        _ if status.signal().is_some() => {
            // frames of instrumented code are larger: the stack is P01's
            rec.errors.push(format!("{} {} ended with {:?} in {} {}: {}", p.name, p.i, status, tag, case, short(&err, 600)))
        }
        _ => rec.errors.push(format!("{} {} ended with {:?} in {} {}: {}", p.name, p.i, status, tag, case, short(&err, 600))),
    }
}

pub fn check(tier: Tier, seed: u64) -> Record {
    let mut rec = Record::default();
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get() as u64);
    let k = cores.clamp(1, 8);
    // one kind after the other: each uses all cores
    for part in ["asan", "tsan", "miri"] {
        if std::env::var("VERIF_PARTS").map_or(false, |p| !p.contains(part)) {
            continue;
        }
        let parts: Vec<Part> = (0..k).map(|i| start(part, tier, seed, i, k, None)).collect();
        for p in parts {
            let name = p.i.to_string();
            collect(p, &mut rec, &name);
        }
    }
    rec
}

pub fn replay(tier: Tier, seed: u64, tag: &str, case: u64, rec: &mut Record) {
    for part in ["asan", "tsan", "miri"] {
        if tag.starts_with(part) {
            let p = start(part, tier, seed, 0, 1, Some((tag, case)));
            collect(p, rec, "only");
        }
    }
}
