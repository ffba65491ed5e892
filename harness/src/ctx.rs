//! Running the cases of a check and keeping the record of what was observed.
//!
//! A check runs in several processes ("shards"); shard `i` of `k` runs the cases
//! `n % k == i`. Each case has a random stream of its own, made from (seed, tag, n).
//! Before a case starts, (tag, n) is written to the shard's trace file, so that a
//! case which kills the process is known to the parent.
use crate::panics;
use crate::rng::{hash, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub tag: String,
    pub case: u64,
    pub what: String,
    pub input: String,
}

/// Where things are: everything a run writes is below this directory.
pub fn work_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_WORK").unwrap_or_else(|_| "/verif/work".into()))
}

#[derive(Default)]
pub struct Current {
    tag: String,
    n: u64,
    input: String,
    started: Option<(Instant, Duration)>,
    cpu_limit: Duration,
    alloc_limit: usize,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    /// only this case
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub budget: Duration,
    pub out: PathBuf,
    trace: Option<std::fs::File>,
    pub current: Arc<Mutex<Current>>,
    pub rec: Record,
    pub verbose: bool,
    /// the check whose cases are run, when one runs those of others
    pub group: String,
    /// of this many cases, one is run
    pub divisor: u64,
    /// there was a violation which took long to see (a standstill): one is enough
    slow_violation: bool,
}

#[derive(Default)]
pub struct Record {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    /// named sets: how many different values were seen
    pub sets: BTreeMap<String, BTreeSet<String>>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub skipped_for_time: u64,
}

impl Record {
    pub fn to_json(&self) -> Value {
        json!({
            "evaluations": self.evaluations,
            "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "counters": self.counters,
            "sets": self.sets,
            "samples": self.samples,
            "errors": self.errors,
            "skipped_for_time": self.skipped_for_time,
            "violations": self.violations.iter().map(|v| json!({
                "tag": v.tag, "case": v.case, "what": v.what, "input": v.input})).collect::<Vec<_>>(),
        })
    }
    pub fn merge(&mut self, v: &Value) {
        self.evaluations += v["evaluations"].as_u64().unwrap_or(0);
        self.skipped_for_time += v["skipped_for_time"].as_u64().unwrap_or(0);
        self.distinct.extend(v["distinct"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            *self.counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        for (k, n) in v["sets"].as_object().into_iter().flatten() {
            let s = self.sets.entry(k.clone()).or_default();
            s.extend(n.as_array().into_iter().flatten().filter_map(|x| x.as_str()).map(|x| x.to_string()));
        }
        self.samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        for e in v["errors"].as_array().into_iter().flatten() {
            self.errors.push(e.as_str().unwrap_or("?").to_string());
        }
        for x in v["violations"].as_array().into_iter().flatten() {
            self.violations.push(Violation {
                tag: x["tag"].as_str().unwrap_or("").to_string(),
                case: x["case"].as_u64().unwrap_or(0),
                what: x["what"].as_str().unwrap_or("").to_string(),
                input: x["input"].as_str().unwrap_or("").to_string(),
            });
        }
    }
}

pub struct Case<'a> {
    pub rec: &'a mut Record,
    pub tier: Tier,
    pub n: u64,
    pub verbose: bool,
    current: &'a Mutex<Current>,
    nontrivial: Option<u64>,
}

impl<'a> Case<'a> {
    /// The input of this case, for the report.
    pub fn input(&mut self, s: &str) {
        let mut c = self.current.lock().unwrap();
        c.input.clear();
        c.input.push_str(s);
    }
    pub fn append_input(&mut self, s: &str) {
        self.current.lock().unwrap().input.push_str(s);
    }
    /// Processor time this case may take before it counts as not ending.
    pub fn cpu_limit(&mut self, d: Duration) {
        self.current.lock().unwrap().cpu_limit = d;
    }
    /// This case is not trivial, and the same as those with an equal key.
    pub fn nontrivial(&mut self, key: &str) {
        self.nontrivial = Some(hash(key.as_bytes()));
    }
    /// One of several cases within this one is not trivial.
    pub fn also_nontrivial(&mut self, key: &str) {
        self.rec.distinct.insert(hash(key.as_bytes()));
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.rec.counters.entry(what.to_string()).or_default() += n;
    }
    pub fn max(&mut self, what: &str, n: u64) {
        // shards are merged by set union: keep the maximum of each as a value
        let e = self.rec.counters.entry(format!("max over a shard, summed: {}", what)).or_default();
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, set: &str, value: impl ToString) {
        let s = self.rec.sets.entry(set.to_string()).or_default();
        if s.len() < 4000 {
            s.insert(value.to_string());
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.rec.samples.len() < 2 {
            self.rec.samples.push(v);
        }
    }
}

#[cfg(miri)]
pub fn cpu_time() -> Duration {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed()
}
#[cfg(not(miri))]
pub fn cpu_time() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        prop: &str,
        tier: Tier,
        seed: u64,
        shard: u64,
        shards: u64,
        only: Option<(String, u64)>,
        out: &Path,
        trace: &Path,
        budget: Duration,
    ) -> Ctx {
        let ctx = Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            shard,
            shards,
            verbose: only.is_some(),
            only,
            start: Instant::now(),
            budget,
            out: out.to_path_buf(),
            trace: std::fs::File::create(trace).ok(),
            current: Arc::default(),
            rec: Record::default(),
            group: String::new(),
            divisor: 1,
            slow_violation: false,
        };
        // Miri's own clock is all it has
        if !cfg!(miri) {
            ctx.watch();
        }
        ctx
    }

    /// The watchdog: a case which goes on using processor time, or takes far too
    /// much memory, does not end.
    fn watch(&self) {
        let cur = self.current.clone();
        let out = self.out.clone();
        std::thread::Builder::new()
            .name("watchdog".into())
            .spawn(move || loop {
                std::thread::sleep(Duration::from_millis(50));
                let c = cur.lock().unwrap();
                let Some((wall, cpu)) = c.started else { continue };
                let used = cpu_time().saturating_sub(cpu);
                let mem = crate::alloc::in_use();
                let what = if used > c.cpu_limit {
                    format!("does not end: {:?} of processor time used", c.cpu_limit)
                } else if mem > c.alloc_limit {
                    format!("takes more and more memory: {} MB", mem >> 20)
                } else if wall.elapsed() > Duration::from_secs(400) {
                    let v = json!({"errors": [format!("case {} {} is stuck (no verdict)", c.tag, c.n)]});
                    let _ = std::fs::write(&out, v.to_string());
                    unsafe { libc::_exit(0) }
                } else {
                    continue;
                };
                let v = json!({"violations": [{
                    "tag": c.tag, "case": c.n, "what": what, "input": short(&c.input, 20_000)}],
                    "evaluations": 1});
                let _ = std::fs::write(&out, v.to_string());
                unsafe { libc::_exit(0) }
            })
            .unwrap();
    }

    pub fn scaled(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    /// Runs the cases `tag` 0..count which are this shard's.
    pub fn cases(&mut self, tag: &str, count: u64, mut f: impl FnMut(&mut Rng, &mut Case) -> Result<(), String>) {
        let tag = &format!("{}{}", self.group, tag).replace(' ', "_");
        let count = if self.divisor == 1 { count } else { (count / self.divisor).max(count.min(16)) };
        // on a slow machine, something is left for the groups that follow
        let until = self.start.elapsed() + self.budget.saturating_sub(self.start.elapsed()).mul_f64(0.7);
        for n in 0..count {
            match &self.only {
                Some((t, k)) => {
                    if t != tag || *k != n {
                        continue;
                    }
                }
                None => {
                    if n % self.shards != self.shard {
                        continue;
                    }
                }
            }
            if self.rec.violations.len() >= 3 || self.slow_violation {
                return;
            }
            if self.start.elapsed() > until {
                self.rec.skipped_for_time += 1;
                continue;
            }
            {
                let mut c = self.current.lock().unwrap();
                c.tag = tag.to_string();
                c.n = n;
                c.input.clear();
                c.cpu_limit = Duration::from_secs(60);
                c.alloc_limit = 2 << 30;
                c.started = Some((Instant::now(), cpu_time()));
            }
            if let Some(t) = &mut self.trace {
                let line = format!("{:<60} {:>12}\n", tag, n);
                let _ = t.seek(SeekFrom::Start(0));
                let _ = t.write_all(line.as_bytes());
            }
            panics::take();
            let mut rng = Rng::for_case(self.seed, tag, n);
            let mut case = Case {
                rec: &mut self.rec,
                tier: self.tier,
                n,
                verbose: self.verbose,
                current: &self.current,
                nontrivial: None,
            };
            let res = panics::catch(|| f(&mut rng, &mut case));
            let nontrivial = case.nontrivial;
            let fail = match res {
                Ok(Ok(())) => panics::take().into_iter().next().map(|p| format!("panic: {}", p)),
                Ok(Err(what)) => {
                    let p = panics::take();
                    Some(if p.is_empty() { what } else { format!("{}; panics: {}", what, p.join(" | ")) })
                }
                Err(()) => {
                    let p = panics::take();
                    match p.iter().find(|p| p.contains(" at src/")) {
                        Some(p) => {
                            self.rec.errors.push(format!("harness panicked in {} {}: {}", tag, n, p));
                            None
                        }
                        None => Some(format!("panic: {}", p.join(" | "))),
                    }
                }
            };
            let input = {
                let mut c = self.current.lock().unwrap();
                if let (Some(_), Some((t, _))) = (&fail, c.started) {
                    self.slow_violation |= t.elapsed() > Duration::from_secs(10);
                }
                c.started = None;
                std::mem::take(&mut c.input)
            };
            self.rec.evaluations += 1;
            if std::env::var_os("VERIF_TIMES").is_some() {
                eprintln!("{} {} {:?}", tag, n, self.start.elapsed());
            }
            if let Some(h) = nontrivial {
                self.rec.distinct.insert(h);
            }
            if let Some(what) = fail {
                if let Some(e) = what.strip_prefix("ERROR ") {
                    self.rec.errors.push(format!("{} {}: {}", tag, n, e));
                } else {
                    self.rec.violations.push(Violation {
                        tag: tag.to_string(),
                        case: n,
                        what,
                        input: short(&input, 20_000).to_string(),
                    });
                }
            }
        }
    }
}

pub fn short(s: &str, max: usize) -> &str {
    if s.len() <= max {
        return s;
    }
    let mut n = max;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}
