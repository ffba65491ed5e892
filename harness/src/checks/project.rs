//! Finding and loading projects; reading the output of child processes.
use super::scratch::Scratch;
use super::Spec;
use crate::ctx::{Case, Ctx};
use crate::idle;
use crate::rng::Rng;
use paths::{AbsPath, AbsPathBuf};
use project_model::{ProjectManifest, ProjectWorkspace};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

// P21 -------------------------------------------------------------------------------

pub const P21: Spec = Spec {
    id: "P21",
    run: p21,
    rule: "Random directory trees with manifests, look-alikes (other case, other names, a directory of that name, links, \
           broken links) at all depths; discovery from every directory, and from lists of roots with repetitions and missing \
           ones, is compared with a model of the tree; manifests with random valid and broken contents are loaded and \
           compared. Non-trivial: a new tree with two manifests or more.",
    assumptions: &["no Dove.toml lies above the scratch directory"],
    budget: (60, 400),
    max_shards: 8,
    at_least: 100,
};

#[derive(Default, Debug)]
struct Tree {
    dirs: BTreeSet<PathBuf>,
    /// existing Dove.toml (file or directory)
    manifests: BTreeSet<PathBuf>,
}

/// `links` is a directory with a manifest, outside of the tree.
fn grow(r: &mut Rng, t: &mut Tree, dir: &Path, depth: usize, links: &Path) {
    t.dirs.insert(dir.to_path_buf());
    let m = dir.join("Dove.toml");
    match r.below(6) {
        0 | 1 => {
            std::fs::write(&m, "[package]\n").unwrap();
            t.manifests.insert(m);
        }
        2 if r.chance(1, 3) => {
            std::fs::create_dir(&m).unwrap();
            t.dirs.insert(m.clone());
            t.manifests.insert(m);
        }
        2 if r.bool() => {
            let _ = std::os::unix::fs::symlink("nowhere", &m);
        }
        2 => {
            std::fs::write(dir.join("real"), "[package]\n").unwrap();
            std::os::unix::fs::symlink("real", &m).unwrap();
            t.manifests.insert(m);
        }
        _ => (),
    }
    for decoy in ["dove.toml", "Dove.toml.bak", "Move.toml", "Dove.tom", "Dove.lock", "xDove.toml"] {
        if r.chance(1, 6) {
            std::fs::write(dir.join(decoy), "[package]\n").unwrap();
        }
    }
    if depth > 0 {
        for name in ["a", "b c", "é", "Dove"] {
            if r.chance(1, 2) {
                let d = dir.join(name);
                std::fs::create_dir(&d).unwrap();
                grow(r, t, &d, depth - 1, links);
            }
        }
    }
    // directories by another name, and links that lead nowhere
    match r.below(8) {
        0 => {
            let d = dir.join("link");
            std::os::unix::fs::symlink(links, &d).unwrap();
            t.dirs.insert(d.clone());
            t.manifests.insert(d.join("Dove.toml"));
        }
        1 => std::os::unix::fs::symlink("nowhere", dir.join("link")).unwrap(),
        _ => (),
    }
}

fn names(v: &[ProjectManifest]) -> Vec<PathBuf> {
    v.iter()
        .map(|m| match m {
            ProjectManifest::DoveToml(p) => AsRef::<Path>::as_ref(p).to_path_buf(),
        })
        .collect()
}

/// What discovery from `dir` has to find: the nearest manifest above (or at) it, or
/// else those one level below.
fn find(t: &Tree, dir: &Path) -> Option<BTreeSet<PathBuf>> {
    if dir.file_name().map_or(false, |n| n == "Dove.toml") {
        return Some([dir.to_path_buf()].into());
    }
    let mut cur = Some(dir);
    while let Some(d) = cur {
        let m = d.join("Dove.toml");
        if t.manifests.contains(&m) {
            return Some([m].into());
        }
        cur = d.parent();
    }
    if !t.dirs.contains(dir) {
        return None;
    }
    Some(
        t.manifests
            .iter()
            .filter(|m| m.parent().and_then(|p| p.parent()) == Some(dir))
            .cloned()
            .collect(),
    )
}

fn discover(c: &mut Case, t: &Tree, dir: &Path) -> Result<usize, String> {
    let a = AbsPathBuf::assert(dir.to_path_buf());
    let got = ProjectManifest::discover(&a);
    let want = find(t, dir);
    let (g, w) = match (&got, &want) {
        (Err(_), None) => return Ok(0),
        (Ok(g), Some(w)) => (names(g), w),
        _ => return Err(format!("discover {}: {:?}, {:?} expected", dir.display(), got, want)),
    };
    let set: BTreeSet<PathBuf> = g.iter().cloned().collect();
    if set != *w || set.len() != g.len() {
        return Err(format!("discover {}: {:?}, {:?} expected", dir.display(), g, w));
    }
    let single = ProjectManifest::discover_single(&a);
    let ok = match &single {
        Ok(m) => w.len() == 1 && names(&[m.clone()]) == g,
        Err(_) => w.len() != 1,
    };
    if !ok {
        return Err(format!("discover_single {}: {:?}; candidates {:?}", dir.display(), single.is_ok(), w));
    }
    c.count("directories searched from", 1);
    c.seen("manifests found from one directory", w.len());
    Ok(w.len())
}

fn toml_string(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn p21(ctx: &mut Ctx) {
    let n = ctx.scaled(1600, 30_000);
    ctx.cases("discover", n, |r, c| {
        let scratch = Scratch::new("p21");
        for a in scratch.0.ancestors() {
            if a.join("Dove.toml").exists() {
                return Err(format!("ERROR there is a Dove.toml in {}", a.display()));
            }
        }
        let base = scratch.0.join("base");
        std::fs::create_dir(&base).unwrap();
        let mut t = Tree::default();
        let depth = r.range(0, 4);
        let links = scratch.0.join("linked");
        std::fs::create_dir(&links).unwrap();
        std::fs::write(links.join("Dove.toml"), "[package]\n").unwrap();
        grow(r, &mut t, &base, depth, &links);
        c.input(&format!("{:#?}", t));
        let dirs: Vec<PathBuf> = t.dirs.iter().cloned().collect();
        for d in &dirs {
            discover(c, &t, d)?;
            if r.chance(1, 4) {
                discover(c, &t, &d.join("missing"))?;
                discover(c, &t, &d.join("Dove.toml"))?;
            }
        }
        // several roots
        for _ in 0..4 {
            let mut roots: Vec<PathBuf> = (0..r.range(0, 5)).map(|_| r.pick(&dirs).clone()).collect();
            if r.chance(1, 3) {
                roots.push(base.join("missing"));
            }
            if !roots.is_empty() && r.bool() {
                roots.push(roots[0].clone());
            }
            let want: BTreeSet<PathBuf> = roots.iter().filter_map(|d| find(&t, d)).flatten().collect();
            let abs: Vec<AbsPathBuf> = roots.iter().map(|d| AbsPathBuf::assert(d.clone())).collect();
            let got = names(&ProjectManifest::discover_all(&abs));
            let again = names(&ProjectManifest::discover_all(&abs));
            let mut back = abs.clone();
            back.reverse();
            let reversed = names(&ProjectManifest::discover_all(&back));
            if got.iter().cloned().collect::<BTreeSet<_>>() != want || got.len() != want.len() {
                return Err(format!("discover_all {:?}: {:?}, {:?} expected", roots, got, want));
            }
            if got != again || got != reversed {
                return Err(format!("discover_all {:?} is not the same each time: {:?}, {:?}, {:?}", roots, got, again, reversed));
            }
            c.count("lists of roots", 1);
        }
        // manifest names
        for f in ["Dove.toml", "Move.toml", "dove.toml", "x"] {
            let p = AbsPathBuf::assert(base.join(f));
            let got = ProjectManifest::from_manifest_file(p.clone());
            if got.is_ok() != (f == "Dove.toml") || got.ok().map_or(false, |m| names(&[m])[0] != base.join(f)) {
                return Err(format!("from_manifest_file {}", f));
            }
        }
        let _ = AbsPath::assert(&base);
        if ProjectManifest::from_manifest_file(AbsPathBuf::assert("/".into())).is_ok() {
            return Err("the root directory counts as a manifest".into());
        }
        if t.manifests.len() >= 2 {
            c.nontrivial(&format!("{:?}", t.manifests.iter().map(|m| m.strip_prefix(&base)).collect::<Vec<_>>()));
        }
        c.sample(json!({"manifests": t.manifests.iter().take(10).collect::<Vec<_>>()}));
        Ok(())
    });
    // many directories: none is left out
    let n = ctx.scaled(24, 400);
    ctx.cases("many", n, |r, c| {
        let scratch = Scratch::new("p21");
        let base = scratch.0.join("base");
        std::fs::create_dir(&base).unwrap();
        let mut t = Tree::default();
        t.dirs.insert(base.clone());
        let k = r.range(50, 700);
        for i in 0..k {
            let d = base.join(format!("{}{}", r.pick(&["d", "é", ".h", "D "]), i));
            match r.below(8) {
                0 => std::fs::write(&d, "x").unwrap(),
                x => {
                    std::fs::create_dir(&d).unwrap();
                    t.dirs.insert(d.clone());
                    if x < 6 {
                        std::fs::write(d.join("Dove.toml"), "").unwrap();
                        t.manifests.insert(d.join("Dove.toml"));
                    }
                }
            }
        }
        c.input(&format!("{} directories", k));
        c.count("directories in one", k as u64);
        c.nontrivial(&format!("{} {}", k, t.manifests.len()));
        discover(c, &t, &base)?;
        let roots: Vec<AbsPathBuf> = t.dirs.iter().map(|d| AbsPathBuf::assert(d.clone())).collect();
        let got = names(&ProjectManifest::discover_all(&roots));
        if got.iter().cloned().collect::<BTreeSet<_>>() != t.manifests.iter().cloned().collect() || got.len() != t.manifests.len() {
            return Err(format!("discover_all of {} directories: {} found, {} expected", roots.len(), got.len(), t.manifests.len()));
        }
        Ok(())
    });
    let n = ctx.scaled(6000, 100_000);
    ctx.cases("load", n, |r, c| {
        let scratch = Scratch::new("p21");
        let file = scratch.0.join("Dove.toml");
        const KEYS: &[&str] = &["name", "account_address", "dove_version", "dialect"];
        let mut vals: BTreeMap<&str, String> = BTreeMap::new();
        let mut lines: Vec<String> = vec![];
        let mut valid = true;
        let crlf = r.chance(1, 5);
        for k in KEYS {
            if r.chance(3, 4) {
                let v: String = match r.below(4) {
                    0 => r.pick(&["", "0x1", "wallet1abc", "0.11.0", "^1", "pont", "é日本😀"]).to_string(),
                    _ => super::text::wide_text(r, 8).replace('\r', " "),
                };
                let bad = r.chance(1, 25);
                if bad {
                    valid = false;
                    lines.push(format!("{} = {}", k, r.pick(&["1", "true", "[]", "{}", "1.5", "\"unclosed", "bare"])));
                } else {
                    let spaces = if r.bool() { " " } else { "" };
                    let literal = r.bool() && !v.contains(['\'', '\n']) && v.chars().all(|c| c as u32 >= 0x20 && c as u32 != 0x7f);
                    let s = if literal { format!("'{}'", v) } else { toml_string(&v) };
                    lines.push(format!("{}{}={}{}{}", k, spaces, spaces, s, if r.chance(1, 5) { " # é" } else { "" }));
                    vals.insert(k, v);
                }
            }
        }
        for i in (1..lines.len()).rev() {
            lines.swap(i, r.below(i + 1));
        }
        if r.chance(1, 4) {
            lines.push("unknown = [1, 2]".into());
        }
        if r.chance(1, 20) && !lines.is_empty() && vals.len() == lines.len() {
            let l = lines[0].clone();
            lines.push(l);
            valid = false;
        }
        let mut body = match r.below(14) {
            0 => {
                valid = false;
                lines.clone()
            }
            1 => {
                valid = false;
                let mut v = vec!["[packages]".to_string()];
                v.extend(lines.clone());
                v
            }
            _ => {
                let mut v = vec![];
                if r.chance(1, 4) {
                    v.push("# comment é".into());
                }
                if r.chance(1, 5) {
                    v.push("[other]\nx = 1".into());
                }
                v.push((*r.pick(&["[package]", "[ package ]", "[\"package\"]"])).to_string());
                v.extend(lines.clone());
                v
            }
        };
        if r.chance(1, 4) {
            body.push("[layout]\nmodules_dir = \"m\"\n[[dep]]\na = 1".into());
        }
        let nl = if crlf { "\r\n" } else { "\n" };
        let mut bytes = body.join("\n").replace('\n', nl).into_bytes();
        if r.bool() {
            bytes.extend_from_slice(nl.as_bytes());
        }
        if r.chance(1, 20) {
            bytes.push(0xff);
            valid = false;
        }
        let missing = r.chance(1, 20);
        c.input(&String::from_utf8_lossy(&bytes));
        if missing {
            valid = false;
        } else {
            std::fs::write(&file, &bytes).unwrap();
        }
        let m = ProjectManifest::from_manifest_file(AbsPathBuf::assert(file.clone())).map_err(|e| e.to_string())?;
        match ProjectWorkspace::load(m) {
            Ok(ProjectWorkspace::Dove { dove_toml }) => {
                if !valid {
                    return Err("a broken manifest was loaded".into());
                }
                let p = &dove_toml.package;
                let got = [&p.name, &p.account_address, &p.dove_version, &p.dialect];
                for (k, g) in KEYS.iter().zip(got) {
                    if g.as_ref() != vals.get(k) {
                        return Err(format!("{} is {:?}, not {:?}", k, g, vals.get(k)));
                    }
                }
                c.count("manifests loaded", 1);
                if vals.len() >= 2 {
                    c.nontrivial(&format!("{:?}", vals));
                }
            }
            Ok(_) => return Err("a manifest was loaded as something else".into()),
            Err(e) => {
                if valid {
                    return Err(format!("a valid manifest was refused: {:#}", e));
                }
                let text = format!("{:#}", e);
                if !text.contains("Dove.toml") {
                    return Err(format!("the error does not name the file: {}", text));
                }
                c.count("manifests refused", 1);
            }
        }
        Ok(())
    });
}

// P22 -------------------------------------------------------------------------------

pub const P22: Spec = Spec {
    id: "P22",
    run: p22,
    rule: "A child process writes random bytes (lines, long lines, bytes that are not UTF-8, no newline at the end, more \
           than a pipe holds) to both its outputs in random pieces, closes one early or not, and ends with some status; \
           the recorded output, the lines reported on the way and the status must be the child's. Children \
           with an owner, dropped or not, end with it or not. Non-trivial: a new plan \
           which writes to both outputs.",
    assumptions: &["the order of lines of different outputs is not judged"],
    budget: (80, 400),
    max_shards: 8,
    at_least: 100,
};

/// The child: carries out a plan given as lines "1 hex", "2 hex", "sleep us", "close 1", "exit n".
pub fn emit(plan: &str) -> ! {
    for l in plan.lines() {
        let (op, arg) = l.split_once(' ').unwrap();
        match op {
            "1" | "2" => {
                let bytes: Vec<u8> = (0..arg.len() / 2).map(|i| u8::from_str_radix(&arg[2 * i..2 * i + 2], 16).unwrap()).collect();
                let fd = if op == "1" { 1 } else { 2 };
                let mut at = 0;
                while at < bytes.len() {
                    let n = unsafe { libc::write(fd, bytes[at..].as_ptr() as *const libc::c_void, bytes.len() - at) };
                    if n < 0 {
                        unsafe { libc::_exit(99) }
                    }
                    at += n as usize;
                }
            }
            "sleep" => std::thread::sleep(std::time::Duration::from_micros(arg.parse().unwrap())),
            "close" => {
                unsafe { libc::close(arg.parse().unwrap()) };
            }
            "exit" => unsafe { libc::_exit(arg.parse().unwrap()) },
            "kill" => unsafe {
                libc::raise(arg.parse().unwrap());
            },
            _ => unsafe { libc::_exit(98) },
        }
    }
    unsafe { libc::_exit(0) }
}

static INTERRUPTED: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(_: libc::c_int) {
    INTERRUPTED.fetch_add(1, SeqCst);
}

/// Signals, which interrupt system calls, for the thread that starts this until it is dropped.
struct Interrupts(Arc<AtomicBool>, Option<std::thread::JoinHandle<()>>);

impl Interrupts {
    fn start(every_us: u64) -> Interrupts {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
            libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
        }
        let (stop, who) = (Arc::new(AtomicBool::new(false)), unsafe { libc::pthread_self() });
        let s = stop.clone();
        // a limit, so that a reader which does not end is seen to do nothing
        let h = std::thread::spawn(move || {
            for _ in 0..2000 {
                if s.load(SeqCst) {
                    return;
                }
                unsafe { libc::pthread_kill(who, libc::SIGUSR1) };
                std::thread::sleep(std::time::Duration::from_micros(every_us));
            }
        });
        Interrupts(stop, Some(h))
    }
}

impl Drop for Interrupts {
    fn drop(&mut self) {
        self.0.store(true, SeqCst);
        self.1.take().unwrap().join().unwrap();
    }
}

/// A child of ours that has not been waited for.
fn is_child(pid: u32) -> bool {
    let mut status = 0;
    unsafe { libc::waitpid(pid as i32, &mut status, libc::WNOHANG) != -1 }
}

fn emitting(plan: &str, scratch: &Scratch) -> Command {
    let file = scratch.0.join("plan");
    std::fs::write(&file, plan).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("emit").arg(file);
    cmd
}

fn owned_children(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    use std::process::Stdio;
    let scratch = Scratch::new("p22");
    let kind = r.below(4);
    let code = r.range(0, 255) as i32;
    let plan = match kind {
        // ends by itself before, or never
        0 => format!("exit {}\n", code),
        1 => "sleep 3000000000\nexit 3\n".to_string(),
        _ => format!("sleep {}\n1 {}\nexit {}\n", r.below(3000), "6162".repeat(r.range(1, 50)), code),
    };
    c.input(&format!("kind {} {}", kind, plan));
    c.nontrivial(&format!("{} {}", kind, plan));
    let mut cmd = emitting(&plan, &scratch);
    cmd.stdout(Stdio::piped());
    let mut child = stdx::JodChild(cmd.spawn().map_err(|e| e.to_string()).unwrap());
    let pid = child.id();
    c.count("owned children", 1);
    if kind < 2 {
        if r.bool() {
            std::thread::sleep(std::time::Duration::from_micros(r.below(3000) as u64));
        }
        idle::run("dropping a child", move || drop(child))?;
        if is_child(pid) {
            return Err("the child is still there after its owner was dropped".into());
        }
    } else if kind == 2 {
        let mut inner = child.into_inner();
        let status = idle::run("waiting for a child", move || inner.wait())?.map_err(|e| e.to_string())?;
        if status.code() != Some(code) {
            return Err(format!("the child which was taken from its owner ended with {:?}, not {}", status, code));
        }
    } else {
        let status = idle::run("waiting for a child", move || child.wait())?.map_err(|e| e.to_string())?;
        if status.code() != Some(code) {
            return Err(format!("the child ended with {:?}, not {}", status, code));
        }
    }
    Ok(())
}

fn p22(ctx: &mut Ctx) {
    let n = ctx.scaled(1000, 20_000);
    ctx.cases("owned", n, owned_children);
    let n = ctx.scaled(4000, 80_000);
    ctx.cases("output", n, |r, c| {
        let mut plan = String::new();
        let mut all: [Vec<u8>; 2] = [vec![], vec![]];
        let mut closed = [false, false];
        const PIECES: &[&[u8]] = &[
            b"line\n", b"\n", b"\r\n", b"a", b"abc", "é".as_bytes(), b"\xc3", b"\xa9", b"\xff\xfe", "日本\n".as_bytes(), b"x\r",
            b"\0", b"\xf0\x9f", b"\x98\x80\n", b"  \n",
        ];
        for _ in 0..r.range(0, 25) {
            let s = r.below(2);
            match r.below(12) {
                0 => plan.push_str(&format!("sleep {}\n", r.below(1500))),
                1 if r.chance(1, 4) && !closed[s] => {
                    closed[s] = true;
                    plan.push_str(&format!("close {}\n", s + 1));
                }
                _ if closed[s] => (),
                k => {
                    let mut b: Vec<u8> = vec![];
                    if k == 2 && r.chance(1, 3) {
                        // more than a pipe holds
                        let line = *r.pick(&[&b"0123456789\n"[..], b"x", b"\xff", b"\n"]);
                        for _ in 0..r.range(10_000, 120_000) / line.len() {
                            b.extend_from_slice(line);
                        }
                    } else {
                        for _ in 0..r.range(1, 8) {
                            b.extend_from_slice(*r.pick(PIECES));
                        }
                    }
                    plan.push_str(&format!("{} ", s + 1));
                    for x in &b {
                        plan.push_str(&format!("{:02x}", x));
                    }
                    plan.push('\n');
                    all[s].extend_from_slice(&b);
                }
            }
        }
        let (code, signal) = match r.below(6) {
            0 => (Some(r.range(1, 255) as i32), None),
            1 if r.chance(1, 3) => (None, Some(9)),
            _ => (Some(0), None),
        };
        match signal {
            Some(s) => plan.push_str(&format!("kill {}\n", s)),
            None => plan.push_str(&format!("exit {}\n", code.unwrap())),
        }
        c.input(&plan);
        let scratch = Scratch::new("p22");
        let file = scratch.0.join("plan");
        std::fs::File::create(&file).and_then(|mut f| f.write_all(plan.as_bytes())).unwrap();
        let interrupt = if r.chance(1, 3) { Some(r.range(20, 800) as u64) } else { None };
        let before = INTERRUPTED.load(SeqCst);
        let (mut lines, out) = idle::run("reading the output", move || {
            let _interrupts = interrupt.map(Interrupts::start);
            let mut cmd = Command::new(std::env::current_exe().unwrap());
            cmd.arg("emit").arg(&file);
            let lines: std::cell::RefCell<[Vec<String>; 2]> = Default::default();
            let out = stdx::process::streaming_output(
                cmd,
                &mut |l| lines.borrow_mut()[0].push(l.to_string()),
                &mut |l| lines.borrow_mut()[1].push(l.to_string()),
            );
            (lines.into_inner(), out)
        })?;
        c.count("interruptions by signals", INTERRUPTED.load(SeqCst) - before);
        let out = out.map_err(|e| format!("streaming_output failed: {}", e))?;
        for (i, got) in [&out.stdout, &out.stderr].into_iter().enumerate() {
            if *got != all[i] {
                return Err(format!("output {}: {} bytes were read, {} written", i + 1, got.len(), all[i].len()));
            }
            let text = String::from_utf8_lossy(&all[i]).into_owned();
            let want: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            let got = std::mem::take(&mut lines[i]);
            if got != want {
                let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "output {}: {} lines, {} expected; line {} is {:?}, not {:?}",
                    i + 1,
                    got.len(),
                    want.len(),
                    k,
                    got.get(k),
                    want.get(k)
                ));
            }
            c.count("lines", want.len() as u64);
            c.count("bytes", all[i].len() as u64);
        }
        use std::os::unix::process::ExitStatusExt;
        if out.status.code() != code || out.status.signal() != signal {
            return Err(format!("status {:?}, not {:?} {:?}", out.status, code, signal));
        }
        if !all[0].is_empty() && !all[1].is_empty() {
            c.nontrivial(&plan);
        }
        c.sample(json!({"plan": plan.chars().take(300).collect::<String>()}));
        Ok(())
    });
}
