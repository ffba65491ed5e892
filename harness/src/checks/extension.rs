//! The extension of the editor, run by node in a world of our own (see editor/).
use super::scratch::Scratch;
use super::Spec;
use crate::ctx::{work_dir, Case, Ctx};
use serde_json::{json, Value};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const P26: Spec = Spec {
    id: "P26",
    run: |ctx| run(ctx, "bootstrap", 300, 6000),
    rule: "The extension is activated on a random platform with a random release, random failures of requests (refused, bad \
           status, bad JSON, a connection cut at any byte), random answers of the user, executables that are there already or \
           set explicitly, a disk that is full or refuses, one window or two, a window killed at a random moment and opened again. At each turn of the event \
           loop the storage is looked at. Non-trivial: a new sequence of requests, dialogs and starts.",
    assumptions: &[
        "the editor, node-fetch and the language client are stand-ins with the documented behaviour",
        "a body that is cut ends with an error, as node's does",
    ],
    budget: (120, 500),
    max_shards: 8,
    at_least: 500,
};

pub const P27: Spec = Spec {
    id: "P27",
    run: |ctx| run(ctx, "session", 160, 2500),
    rule: "Sessions of the extension: editors switched, documents and manifests saved, created, deleted, settings changed, \
           reloads, dove missing for a while, single or in bursts; the output of dove comes in random pieces. When all is \
           quiet the servers that run are compared with a model of the session. Non-trivial: a new sequence of steps.",
    assumptions: &[
        "the editor and the language client are stand-ins with the documented behaviour",
        "what happens at once may leave any of the states some order leads to; after the next reload the model is exact again",
    ],
    budget: (150, 500),
    max_shards: 8,
    at_least: 300,
};

const BATCH: u64 = 8;

fn run(ctx: &mut Ctx, kind: &'static str, quick: u64, thorough: u64) {
    let seed = ctx.seed;
    let n = ctx.scaled(quick, thorough);
    ctx.cases(kind, n, |_, case| batch(case, kind, seed));
}

fn batch(case: &mut Case, kind: &str, seed: u64) -> Result<(), String> {
    let scratch = Scratch::new(kind);
    let from = case.n * BATCH;
    let mut child = Command::new("node")
        .arg("/verif/editor/driver.js")
        .arg(work_dir().join("extension.js"))
        .args([kind, &seed.to_string(), &from.to_string(), &BATCH.to_string()])
        .arg(&scratch.0)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("ERROR node does not run: {}", e))?;
    let mut out = child.stdout.take().unwrap();
    let mut err = child.stderr.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let err = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = err.read_to_string(&mut s);
        s
    });
    let start = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if start.elapsed() < Duration::from_secs(120) => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("ERROR scenarios {}.. of {} take too long", from, kind));
            }
        }
    };
    let (out, err) = (out.join().unwrap(), err.join().unwrap());
    let mut ran = 0;
    for l in out.lines() {
        let v: Value = serde_json::from_str(l).map_err(|e| format!("ERROR the driver wrote {:?}: {}", l, e))?;
        ran += 1;
        let input = v["input"].as_str().unwrap_or("");
        if let Some(what) = v["violation"].as_str() {
            case.input(&format!("scenario {}: {}", v["n"], input));
            return Err(what.to_string());
        }
        if let Some(e) = v["error"].as_str() {
            return Err(format!("ERROR scenario {}: {}", v["n"], e));
        }
        for k in ["turns", "states", "requests", "faults", "disk", "killed", "clients", "reloads", "steps", "told"] {
            if let Some(n) = v[k].as_u64() {
                case.count(k, n);
            }
        }
        case.count("scenarios", 1);
        if let Some(k) = v["key"].as_str() {
            case.also_nontrivial(k);
        }
        if !input.is_empty() && case.rec.samples.len() < 2 {
            let s: Value = serde_json::from_str(input).unwrap_or(json!(input));
            case.sample(s);
        }
    }
    if ran != BATCH || !status.success() {
        return Err(format!("ERROR {} of {} scenarios, {:?}: {}", ran, BATCH, status, err));
    }
    Ok(())
}
