//! What a long session leaves behind.
use super::Spec;
use crate::alloc;
use crate::ctx::{cpu_time, Case, Ctx};
use crate::gen;
use crate::hooks::{self, Hooks};
use crate::lsp::{caps_utf16, Client};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const P24: Spec = Spec {
    id: "P24",
    run: p24,
    rule: "Sessions of thousands of rounds; each round does the same kinds of things (whole and ranged changes, opening and \
           closing, opening twice, requests, cancellations, odd notifications, errors that come and go) with texts from a \
           small pool, and ends in the same state. The bytes in use, counted by the allocator, after the last round are \
           compared with those after the rounds of warming up; threads and bytes after the end of the session with those \
           after the end of an equal one. Non-trivial: a new combination of kinds and texts.",
    assumptions: &[
        "a leak of less than 2 bytes in a round is not seen",
        "documents that are never named again may keep their entries (file ids are for ever)",
    ],
    budget: (100, 500),
    max_shards: 8,
    at_least: 20,
};

const KINDS: &[&str] = &[
    "full change", "ranged change", "close and open", "open again", "request", "cancel", "unknown notification",
    "change of a document that is not open", "response", "errors come and go", "clean text", "several documents", "no change",
];

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

/// Bytes in use once nothing is going on any more.
fn settled(hooks: &Arc<Hooks>, cl: &mut Client) -> Result<i64, String> {
    cl.barrier()?;
    cl.wait("tasks are not done", |_| {
        let (s, d) = hooks.counts();
        s == d
    })?;
    cl.barrier()?;
    // a result may be on its way
    let mut last = i64::MAX;
    for _ in 0..200 {
        forget(cl);
        let now = alloc::in_use() as i64;
        if now == last {
            return Ok(now);
        }
        last = now;
        std::thread::sleep(Duration::from_millis(2));
        cl.barrier()?;
    }
    Ok(last)
}

/// The client keeps nothing.
fn forget(cl: &mut Client) {
    cl.drain();
    cl.publishes = vec![];
    cl.responses = vec![];
    cl.other = vec![];
    cl.server_requests = vec![];
    cl.view.clear();
    cl.forget_questions();
}

struct Plan {
    kinds: Vec<usize>,
    texts: Vec<String>,
    docs: usize,
}

fn round(r: &mut Rng, cl: &mut Client, p: &Plan, version: &mut i64) -> Result<(), String> {
    let uri = |i: usize| format!("file:///long/d{}.move", i);
    let mut next = || {
        *version += 1;
        *version
    };
    for &k in &p.kinds {
        let d = r.below(p.docs);
        let t = r.pick(&p.texts).clone();
        match k {
            0 | 12 => {
                if k == 12 {
                    cl.change(&uri(d), next(), vec![]);
                } else {
                    cl.change_full(&uri(d), next(), &t);
                }
            }
            1 => {
                cl.change_full(&uri(d), next(), &t);
                let at = json!({"line": 0, "character": 0});
                let e = json!([{"range": {"start": at, "end": at}, "text": "x\r\n"}, {"range": {"start": at, "end": at}, "text": "é "}]);
                cl.change(&uri(d), next(), e.as_array().unwrap().clone());
            }
            2 => {
                cl.close(&uri(d));
                cl.open(&uri(d), next(), &t);
            }
            3 => {
                cl.open(&uri(d), next(), &t);
            }
            4 => {
                for m in ["textDocument/hover", "foo/bar"] {
                    cl.request(m, json!({"textDocument": {"uri": uri(d)}}));
                }
            }
            5 => {
                let id = cl.request("textDocument/completion", Value::Null);
                let id = serde_json::to_value(&id).unwrap();
                cl.notify("$/cancelRequest", json!({ "id": id }));
                cl.notify("$/cancelRequest", json!({"id": "nobody"}));
            }
            6 => {
                cl.notify("$/whatever", json!({"a": t.len()}));
                cl.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(d)}}));
                cl.notify("workspace/didChangeConfiguration", json!({"settings": null}));
            }
            7 => {
                cl.change_full("file:///long/never-open.move", next(), &t);
                cl.close("file:///long/never-open.move");
            }
            8 => {
                cl.send(lsp_server::Message::Response(lsp_server::Response {
                    id: 77.into(),
                    result: Some(json!(1)),
                    error: None,
                }));
            }
            9 => {
                cl.change_full(&uri(d), next(), "# $ module {");
                if r.bool() {
                    cl.barrier()?;
                }
                cl.change_full(&uri(d), next(), "");
            }
            10 => {
                cl.change_full(&uri(d), next(), "module M { fun f() { } }");
            }
            _ => {
                for i in 0..p.docs {
                    cl.change_full(&uri(i), next(), &t);
                }
            }
        }
    }
    Ok(())
}

/// The same state after each block of rounds.
fn rest(cl: &mut Client, p: &Plan, version: &mut i64) {
    for i in 0..p.docs {
        *version += 1;
        cl.change_full(&format!("file:///long/d{}.move", i), *version, &p.texts[i % p.texts.len()]);
    }
}

fn session(r: &mut Rng, c: &mut Case, p: &Plan, rounds: usize, judge: bool) -> Result<(), String> {
    let hooks = Hooks::install(1);
    hooks.be_quiet();
    let mut cl = Client::start(caps_utf16());
    let mut version = 0;
    for i in 0..p.docs {
        version += 1;
        cl.open(&format!("file:///long/d{}.move", i), version, &p.texts[i % p.texts.len()]);
    }
    let mut run = |cl: &mut Client, n: usize| -> Result<i64, String> {
        for _ in 0..n {
            round(r, cl, p, &mut version)?;
            cl.barrier()?;
            forget(cl);
        }
        rest(cl, p, &mut version);
        settled(&hooks, cl)
    };
    let first = run(&mut cl, rounds / 4)?;
    let second = run(&mut cl, rounds / 4)?;
    let third = run(&mut cl, rounds)?;
    let (a, b) = (second - first, third - second);
    if c.verbose {
        println!("{} {} {}: {} in {}, {} in {}", first, second, third, a, rounds / 4, b, rounds);
    }
    c.count("rounds", rounds as u64 * 3 / 2);
    c.count("tasks", hooks.counts().0);
    c.seen("growth in the last rounds, in KB", b >> 10);
    // all of it in the last rounds, and steadily
    if judge && b > 2 * rounds as i64 + 2048 {
        let again = run(&mut cl, rounds)? - third;
        if again > 2 * rounds as i64 + 2048 {
            return Err(format!(
                "{} more bytes are in use after {} more rounds, and {} more after another {}",
                b, rounds, again, rounds
            ));
        }
        c.count("growth that did not go on", 1);
    }
    cl.finish()?;
    hooks::uninstall();
    Ok(())
}

fn p24(ctx: &mut Ctx) {
    let n = ctx.scaled(128, 4000);
    ctx.cases("rounds", n, |r, c| {
        let mut kinds: Vec<usize> = (0..r.range(1, 5)).map(|_| r.below(KINDS.len())).collect();
        // each kind alone, too
        if c.n < KINDS.len() as u64 {
            kinds = vec![c.n as usize];
        }
        let p = Plan {
            kinds,
            texts: (0..r.range(2, 5)).map(|_| gen::any_text(r, 30).replace('\r', "")).collect(),
            docs: r.range(1, 4),
        };
        let names: Vec<&str> = p.kinds.iter().map(|k| KINDS[*k]).collect();
        c.input(&format!("{} documents, each round: {:?}, texts {:?}", p.docs, names, p.texts));
        for k in &names {
            c.seen("kinds", k);
        }
        let rounds = *r.pick(&[800, 1200]);
        session(r, c, &p, rounds, true)?;
        c.nontrivial(&format!("{:?}{:?}{}", p.kinds, p.texts, p.docs));
        c.sample(json!({"each round": names, "documents": p.docs}));
        Ok(())
    });
    // what is left when the session is over
    let n = ctx.scaled(24, 400);
    ctx.cases("ends", n, |r, c| {
        let p = Plan {
            kinds: (0..3).map(|_| r.below(KINDS.len())).collect(),
            texts: (0..3).map(|_| gen::any_text(r, 30).replace('\r', "")).collect(),
            docs: r.range(1, 4),
        };
        c.input(&format!("{} documents, kinds {:?}, texts {:?}", p.docs, p.kinds, p.texts));
        let before = threads();
        let mut used = vec![];
        for _ in 0..4 {
            let mut rr = r.clone();
            for _ in 0..8 {
                session(&mut rr, c, &p, 8, false)?;
            }
            // threads end a little after the session
            let (mut cpu, mut idle) = (cpu_time(), Instant::now());
            while threads() > before {
                std::thread::sleep(Duration::from_millis(2));
                if cpu_time() - cpu > Duration::from_millis(500) {
                    cpu = cpu_time();
                    idle = Instant::now();
                }
                if idle.elapsed() > Duration::from_secs(20) {
                    return Err(format!("{} threads are left of the sessions", threads() - before));
                }
            }
            used.push(alloc::in_use() as i64);
        }
        if c.verbose {
            println!("{:?}", used);
        }
        c.count("sessions ended", 32);
        let steps: Vec<i64> = used.windows(2).map(|w| w[1] - w[0]).collect();
        if steps.iter().all(|s| *s > 8 * 256) {
            return Err(format!("after each 8 sessions more bytes are in use than before: {:?}", steps));
        }
        c.nontrivial(&format!("{:?}{:?}", p.kinds, p.texts));
        Ok(())
    });
}
