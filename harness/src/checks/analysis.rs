//! The incremental database: changes, snapshots, cancellation.
use super::Spec;
use crate::ctx::Ctx;
use crate::gen;
use crate::idle;
use crate::rng::{hash, Rng};
use crate::tree;
use ide::{Analysis, AnalysisHost};
use ide_db::base_db::{Change, FileId, FileSet, SourceDatabase, SourceRoot, SourceRootId, VfsPath};
use ide_db::LineIndex;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn small_text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => gen::any_text(r, 20),
        1 => String::new(),
        _ => gen::token_soup(r, 25),
    }
}

/// What a database that knows nothing but this text says of it.
fn fresh(text: &str) -> String {
    let p = syntax::SourceFile::parse(text);
    let d: Vec<String> = p
        .errors()
        .iter()
        .take(128)
        .map(|e| format!("syntax-error Syntax Error: {} {:?} Error", e, e.range()))
        .collect();
    d.join("\n")
}
fn diags(v: &[ide_diagnostics::Diagnostic]) -> String {
    let d: Vec<String> =
        v.iter().map(|d| format!("{} {} {:?} {:?}", d.code.as_str(), d.message, d.range, d.severity)).collect();
    d.join("\n")
}
fn path(i: u32) -> VfsPath {
    VfsPath::new_virtual_path(format!("/f{}", i))
}

/// Files and roots as they should be.
#[derive(Clone, Default)]
struct Model {
    text: BTreeMap<u32, String>,
    root: BTreeMap<u32, usize>,
    library: Vec<bool>,
}

impl Model {
    fn roots(&self) -> Vec<SourceRoot> {
        let mut sets: Vec<FileSet> = self.library.iter().map(|_| FileSet::default()).collect();
        for (f, i) in &self.root {
            sets[*i].insert(FileId(*f), path(*f));
        }
        sets.into_iter()
            .zip(&self.library)
            .map(|(s, lib)| if *lib { SourceRoot::new_library(s) } else { SourceRoot::new_local(s) })
            .collect()
    }
    fn new_roots(&mut self, r: &mut Rng, files: u32, roots: usize) {
        let n = r.range(1, roots);
        // the number of roots does not go down: those without files stay, empty
        let n = n.max(self.library.len());
        self.library = (0..n).map(|_| r.chance(1, 3)).collect();
        for f in 0..files {
            if r.chance(5, 6) || !self.root.contains_key(&f) {
                self.root.insert(f, r.below(n));
            }
        }
    }
}

// P19 -------------------------------------------------------------------------------

pub const P19: Spec = Spec {
    id: "P19",
    run: p19,
    rule: "Histories of transactions on an AnalysisHost (new texts, removed files, files moved between local and library \
           roots, cancellation requests), on up to 300 files (the parse cache keeps 128), with random queries in between; \
           after each, the diagnostics, syntax trees, line indices and roots of files picked at random, and in the end of \
           all, are compared with ones made from nothing. Non-trivial: a new history in which a file was asked before and \
           after its text or root changed.",
    assumptions: &["a file is assigned to a root not later than it gets its first text"],
    budget: (100, 600),
    max_shards: 8,
    at_least: 200,
};

fn compare(host: &AnalysisHost, a: &Analysis, m: &Model, f: u32) -> Result<(), String> {
    let text = m.text.get(&f).cloned().unwrap_or_default();
    let id = FileId(f);
    let got = a.diagnostics(id).map_err(|_| "a query was cancelled though nothing changes".to_string())?;
    let want = fresh(&text);
    if diags(&got) != want {
        return Err(format!("diagnostics of file {}: {}", f, tree::diff(&diags(&got), &want)));
    }
    let li = a.file_line_index(id).map_err(|_| "a query was cancelled though nothing changes".to_string())?;
    if *li != LineIndex::new(&text) {
        return Err(format!("line index of file {} is not the one of its text", f));
    }
    let db = host.raw_database();
    let got = db.parse(id);
    if got.syntax_node().to_string() != text {
        return Err(format!("the tree of file {} is not one of its text", f));
    }
    let want = syntax::SourceFile::parse(&text);
    if format!("{:#?}", got.syntax_node()) != format!("{:#?}", want.syntax_node()) {
        return Err(format!("the tree of file {} is not the one of its text", f));
    }
    if *db.file_text(id) != text {
        return Err(format!("text of file {}", f));
    }
    let root = db.file_source_root(id);
    if root != SourceRootId(m.root[&f] as u32) {
        return Err(format!("file {} is in root {:?}, not {}", f, root, m.root[&f]));
    }
    let sr = db.source_root(root);
    if sr.is_library != m.library[m.root[&f]] {
        return Err(format!("root {:?}: is_library is {}", root, sr.is_library));
    }
    if sr.path_for_file(&id) != Some(&path(f)) || sr.file_for_path(&path(f)) != Some(&id) {
        return Err(format!("root {:?} does not have file {}", root, f));
    }
    Ok(())
}

fn p19(ctx: &mut Ctx) {
    let n = ctx.scaled(6000, 150_000);
    ctx.cases("history", n, |r, c| {
        let files = match r.below(12) {
            0 => r.range(129, 300) as u32,
            1 => r.range(20, 128) as u32,
            _ => r.range(1, 12) as u32,
        };
        let mut m = Model::default();
        let mut host = AnalysisHost::new();
        let mut log = String::new();
        let mut asked: BTreeSet<u32> = BTreeSet::new();
        let mut stale = 0;
        let steps = r.range(2, if files > 20 { 8 } else { 30 });
        // few texts: a file often gets one back that it, or another, had before
        let pool: Vec<String> = (0..r.range(2, 8)).map(|_| small_text(r)).collect();
        c.input("");
        for step in 0..steps {
            let mut ch = Change::new();
            let mut note = String::new();
            if step == 0 || r.chance(1, 4) {
                m.new_roots(r, files, 4);
                ch.set_roots(m.roots());
                note.push_str(&format!("roots {:?} {:?}; ", m.library, m.root));
                stale += asked.len();
            }
            let all = step == 0;
            let k = if all { files as usize } else { r.range(0, (files as usize).min(6)) };
            let mut which: Vec<u32> = if all { (0..files).collect() } else { (0..k).map(|_| r.below(files as usize) as u32).collect() };
            if all {
                // in any order
                for i in (1..which.len()).rev() {
                    which.swap(i, r.below(i + 1));
                }
            }
            for f in which {
                let t = match r.below(8) {
                    0 => None,
                    1 => Some(small_text(r)),
                    2 => m.text.get(&f).cloned(),
                    _ => Some(r.pick(&pool).clone()),
                };
                note.push_str(&format!("{}={:?}; ", f, t));
                if asked.contains(&f) && m.text.get(&f) != Some(t.as_ref().unwrap_or(&String::new())) {
                    stale += 1;
                }
                m.text.insert(f, t.clone().unwrap_or_default());
                ch.change_file(FileId(f), t.map(Arc::new));
            }
            c.append_input(&format!("\n{}", note));
            log.push_str(&note);
            host.apply_change(ch);
            c.count("transactions", 1);
            if r.chance(1, 6) {
                host.request_cancellation();
                log.push_str("cancel; ");
            }
            // ask some
            let a = host.analysis();
            for _ in 0..r.range(0, if files > 20 { 200 } else { 6 }) {
                let f = r.below(files as usize) as u32;
                compare(&host, &a, &m, f)?;
                asked.insert(f);
                c.count("files compared", 1);
            }
            let db = host.raw_database();
            let (loc, lib) = (db.local_roots(), db.library_roots());
            for (i, is_lib) in m.library.iter().enumerate() {
                let id = SourceRootId(i as u32);
                if loc.contains(&id) == *is_lib || lib.contains(&id) != *is_lib {
                    return Err(format!("root {} is not in the right one of local and library roots", i));
                }
                let root = db.source_root(id);
                let mut have: Vec<u32> = root.iter().map(|f| f.0).collect();
                have.sort_unstable();
                let want: Vec<u32> = (0..files).filter(|f| m.root.get(f) == Some(&i)).collect();
                if have != want || root.is_library != *is_lib {
                    return Err(format!("root {} has the files {:?}, not {:?}", i, have, want));
                }
                c.count("roots compared", 1);
            }
        }
        let a = host.analysis();
        for f in 0..files {
            compare(&host, &a, &m, f)?;
            c.count("files compared", 1);
        }
        c.count("files asked again after a change", stale as u64);
        if files > 128 {
            c.count("histories with more files than the cache holds", 1);
        }
        if stale > 0 {
            c.nontrivial(&log);
        }
        c.sample(json!({"history": log.chars().take(400).collect::<String>()}));
        Ok(())
    });
}

// P20 -------------------------------------------------------------------------------

pub const P20: Spec = Spec {
    id: "P20",
    run: p20,
    rule: "One thread applies transactions while 1..6 others ask snapshots taken at known points, with random pauses; each \
           answer must be the one of the snapshot's state, or Cancelled, and Cancelled only once a later change was begun; \
           applying must end. Non-trivial: a new record (answers, cancellations, per snapshot) in which a query met a \
           change that was under way.",
    assumptions: &["a thread whose query was cancelled gives up its snapshot, as the server does"],
    budget: (100, 600),
    max_shards: 4,
    at_least: 30,
};

struct Job {
    epoch: u64,
    analysis: Analysis,
    want: Arc<Vec<(String, LineIndex)>>,
    seed: u64,
}

fn p20(ctx: &mut Ctx) {
    let n = ctx.scaled(1600, 40_000);
    ctx.cases("snapshots", n, |r, c| {
        let files = r.range(1, 8) as u32;
        let threads = r.range(1, 6);
        let epochs = r.range(3, 25) as u64;
        let big = r.bool();
        let seed = r.next();
        c.input(&format!("{} files, {} threads, {} changes, big {}, seed {}", files, threads, epochs, big, seed));
        let out = idle::run("applying changes", move || scenario(files, threads, epochs, big, seed))?;
        let (record, met, answers, cancelled, texts) = out?;
        c.count("answers compared", answers);
        c.count("queries cancelled", cancelled);
        c.count("queries during a change", met);
        c.count("texts", texts);
        c.seen("records", hash(record.as_bytes()));
        if met > 0 {
            c.nontrivial(&record);
        }
        c.sample(json!({"record (epoch: answers/cancelled per snapshot)": record.chars().take(300).collect::<String>()}));
        Ok(())
    });
}

#[allow(clippy::type_complexity)]
fn scenario(files: u32, threads: usize, epochs: u64, big: bool, seed: u64) -> Result<(String, u64, u64, u64, u64), String> {
    let mut r = Rng::new(seed);
    let pool: Vec<String> =
        (0..6).map(|_| if big { small_text(&mut r).repeat(r.range(1, 60)) } else { small_text(&mut r) }).collect();
    let facts: HashMap<String, (String, LineIndex)> =
        pool.iter().map(|t| (t.clone(), (fresh(t), LineIndex::new(t)))).collect();
    // the last change that was begun
    let begun = Arc::new(AtomicU64::new(0));
    let failed: Arc<Mutex<Option<String>>> = Arc::default();
    let met = Arc::new(AtomicU64::new(0));
    let answers = Arc::new(AtomicU64::new(0));
    let cancels = Arc::new(AtomicU64::new(0));
    let record: Arc<Mutex<Vec<String>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let mut senders: Vec<Sender<Job>> = vec![];
    let mut handles = vec![];
    for _ in 0..threads {
        let (tx, rx) = channel::<Job>();
        senders.push(tx);
        let (begun, failed, met, answers, cancels, record, stop) = (
            begun.clone(),
            failed.clone(),
            met.clone(),
            answers.clone(),
            cancels.clone(),
            record.clone(),
            stop.clone(),
        );
        handles.push(std::thread::spawn(move || {
            for job in rx {
                let mut r = Rng::new(job.seed);
                let (mut ok, mut no) = (0u64, 0u64);
                let patience = r.range(1, 40);
                for _ in 0..patience {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let f = r.below(job.want.len());
                    let id = FileId(f as u32);
                    let res = if r.chance(3, 4) {
                        job.analysis.diagnostics(id).map(|d| diags(&d) == job.want[f].0)
                    } else {
                        job.analysis.file_line_index(id).map(|l| *l == job.want[f].1)
                    };
                    let now = begun.load(SeqCst);
                    if now > job.epoch {
                        met.fetch_add(1, SeqCst);
                    }
                    match res {
                        Ok(true) => ok += 1,
                        Ok(false) => {
                            failed.lock().unwrap().get_or_insert(format!(
                                "the answer for file {} is not the one of state {} (change {} is under way)",
                                f, job.epoch, now
                            ));
                            break;
                        }
                        Err(_) => {
                            no += 1;
                            if now == job.epoch {
                                failed.lock().unwrap().get_or_insert(format!(
                                    "a query on state {} was cancelled, and no change was begun",
                                    job.epoch
                                ));
                            }
                            break;
                        }
                    }
                    match r.below(10) {
                        0 => std::thread::yield_now(),
                        1 => std::thread::sleep(Duration::from_micros(r.next() % 300)),
                        _ => (),
                    }
                }
                answers.fetch_add(ok, SeqCst);
                cancels.fetch_add(no, SeqCst);
                record.lock().unwrap().push(format!("{}:{}/{}", job.epoch, ok, no));
                drop(job);
            }
        }));
    }
    let mut host = AnalysisHost::new();
    let mut m = Model::default();
    m.new_roots(&mut r, files, 3);
    let mut bad = None;
    for e in 1..=epochs {
        let mut ch = Change::new();
        if e == 1 || r.chance(1, 5) {
            if e > 1 {
                m.new_roots(&mut r, files, 3);
            }
            ch.set_roots(m.roots());
        }
        for f in 0..files {
            if e == 1 || r.bool() {
                let t = r.pick(&pool).clone();
                m.text.insert(f, t.clone());
                ch.change_file(FileId(f), Some(Arc::new(t)));
            }
        }
        begun.store(e, SeqCst);
        host.apply_change(ch);
        if r.chance(1, 8) {
            begun.store(e, SeqCst);
            host.request_cancellation();
        }
        let want: Arc<Vec<(String, LineIndex)>> = Arc::new((0..files).map(|f| facts[&m.text[&f]].clone()).collect());
        for tx in &senders {
            for _ in 0..r.below(3) {
                let _ = tx.send(Job { epoch: e, analysis: host.analysis(), want: want.clone(), seed: r.next() });
            }
        }
        match r.below(4) {
            0 => std::thread::sleep(Duration::from_micros(r.next() % 3000)),
            1 => std::thread::sleep(Duration::from_micros(r.next() % 300)),
            _ => (),
        }
        // the owner of the host sees the new state at once
        let f = r.below(files as usize);
        if let Err(e) = compare(&host, &host.analysis(), &m, f as u32) {
            bad = Some(e);
            break;
        }
        if failed.lock().unwrap().is_some() {
            break;
        }
    }
    drop(senders);
    for h in handles {
        if h.join().is_err() {
            bad.get_or_insert("a thread that asked panicked".to_string());
        }
    }
    if let Some(b) = failed.lock().unwrap().take().or(bad) {
        return Err(b);
    }
    let mut rec = record.lock().unwrap().clone();
    rec.sort();
    Ok((rec.join(" "), met.load(SeqCst), answers.load(SeqCst), cancels.load(SeqCst), files as u64 * epochs))
}
