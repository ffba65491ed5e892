//! The real binary over its standard input and output.
use super::scratch::Scratch;
use super::server::{expected, shown};
use super::Spec;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::rng::{hash, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const P14: Spec = Spec {
    id: "P14",
    run: p14,
    rule: "Sessions with the real binary: initialize in many variants (capabilities, roots, folders with good, broken and \
           missing manifests), documents, requests, shutdown and exit; the bytes of the client are cut at random places, \
           with optional header and escaped or plain JSON, or it writes everything and reads later, through a pipe which is full in between; logging is off, on stderr, or in a file. Standard output must be \
           nothing but whole frames with the right length, each answer must come once, diagnostics must be right, and the \
           process must end with status 0. Non-trivial: a new session with five messages or more after initialisation.",
    assumptions: &["the client reads what the server writes", "a server that uses no processor time for 20 s while answering requests has nothing left to do"],
    budget: (150, 600),
    max_shards: 8,
    at_least: 50,
};

pub fn server_binary() -> PathBuf {
    std::env::var("VERIF_SERVER_BIN")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif/target/plain/debug/move_language_server"))
}

#[derive(Default)]
struct Received {
    messages: Vec<Value>,
    /// what was wrong with the bytes
    bad: Option<String>,
    eof: bool,
    bytes: usize,
}

struct Proc {
    child: Child,
    got: Arc<Mutex<Received>>,
    err: Arc<Mutex<String>>,
    readers: Vec<std::thread::JoinHandle<()>>,
    log: String,
}

fn frames(mut out: impl Read, got: Arc<Mutex<Received>>) {
    let mut buf: Vec<u8> = vec![];
    let mut chunk = vec![0u8; 1 << 16];
    let bad = |s: String| {
        let mut g = got.lock().unwrap();
        g.bad.get_or_insert(s);
    };
    loop {
        // whole frames at the front of the buffer
        loop {
            const NAME: &[u8] = b"Content-Length: ";
            let n = buf.len().min(NAME.len());
            if buf[..n] != NAME[..n] {
                bad(format!("not a header: {:?}", String::from_utf8_lossy(&buf[..buf.len().min(200)])));
                return;
            }
            let Some(end) = buf.windows(4).position(|w| w == b"\r\n\r\n") else { break };
            let head = String::from_utf8_lossy(&buf[NAME.len()..end]).into_owned();
            let Ok(len) = head.parse::<usize>() else {
                bad(format!("bad header {:?}", head));
                return;
            };
            if buf.len() < end + 4 + len {
                break;
            }
            let body: Vec<u8> = buf[end + 4..end + 4 + len].to_vec();
            buf.drain(..end + 4 + len);
            match serde_json::from_slice::<Value>(&body) {
                Ok(v) => {
                    let mut g = got.lock().unwrap();
                    g.bytes += body.len();
                    g.messages.push(v);
                }
                Err(e) => {
                    bad(format!("a frame is not JSON: {}: {:?}", e, String::from_utf8_lossy(&body)));
                    return;
                }
            }
        }
        match out.read(&mut chunk) {
            Ok(0) => break,
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
            Err(e) => {
                bad(format!("read error {}", e));
                return;
            }
        }
    }
    if !buf.is_empty() {
        bad(format!("output ends inside a frame: {:?}", String::from_utf8_lossy(&buf)));
    }
    got.lock().unwrap().eof = true;
}

/// Plain JSON, or with everything outside ASCII escaped.
fn to_text(v: &Value, escape: bool, pretty: bool) -> String {
    let s = if pretty { format!("{:#}", v) } else { v.to_string() };
    if !escape {
        return s;
    }
    let mut out = String::new();
    for ch in s.chars() {
        if ch.is_ascii() {
            out.push(ch);
        } else {
            let mut b = [0u16; 2];
            for u in ch.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    out
}

fn framed(r: &mut Rng, v: &Value) -> Vec<u8> {
    let text = to_text(v, r.bool(), r.chance(1, 6));
    let head = match r.below(4) {
        0 => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", text.len()),
        1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", text.len()),
        _ => format!("Content-Length: {}\r\n\r\n", text.len()),
    };
    [head.as_bytes(), text.as_bytes()].concat()
}

/// Processor time of a process so far, in clock ticks.
fn ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

impl Proc {
    /// `deaf`: nobody reads what the server writes to standard error.
    fn start(dir: &Path, log_file: Option<&Path>, filter: Option<&str>, deaf: bool) -> Result<Proc, String> {
        let mut c = Command::new(server_binary());
        c.current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        for k in ["RA_LOG_FILE", "MOVE_LS_LOG", "CHALK_DEBUG", "RUST_BACKTRACE", "RUST_LOG"] {
            c.env_remove(k);
        }
        if let Some(f) = log_file {
            c.env("RA_LOG_FILE", f);
        }
        if let Some(f) = filter {
            c.env("MOVE_LS_LOG", f);
        }
        let mut child = c.spawn().map_err(|e| format!("ERROR cannot start {:?}: {}", server_binary(), e))?;
        let got: Arc<Mutex<Received>> = Arc::default();
        let err: Arc<Mutex<String>> = Arc::default();
        let (out, e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let g = got.clone();
        let r1 = std::thread::spawn(move || frames(out, g));
        let er = err.clone();
        let mut e = Some(e);
        if deaf {
            e = None;
        }
        let r2 = std::thread::spawn(move || {
            let Some(mut e) = e else { return };
            let mut b = [0u8; 4096];
            while let Ok(n) = e.read(&mut b) {
                if n == 0 {
                    break;
                }
                let mut s = er.lock().unwrap();
                if s.len() < 20_000 {
                    s.push_str(&String::from_utf8_lossy(&b[..n]));
                }
            }
        });
        Ok(Proc { child, got, err, readers: vec![r1, r2], log: String::new() })
    }

    fn send(&mut self, r: &mut Rng, c: &mut Case, v: &Value) -> Result<(), String> {
        let bytes = framed(r, v);
        let note = format!("\n--> {}", crate::ctx::short(&v.to_string(), 3000));
        c.append_input(&note);
        self.log.push_str(&note);
        let mut at = 0;
        while at < bytes.len() {
            let n = match r.below(4) {
                0 => r.range(1, 7),
                1 => r.range(1, 200),
                _ => bytes.len(),
            };
            let end = (at + n).min(bytes.len());
            let stdin = self.child.stdin.as_mut().unwrap();
            if stdin.write_all(&bytes[at..end]).and_then(|_| stdin.flush()).is_err() {
                return Err(self.dead("the server does not take input any more"));
            }
            at = end;
            c.count("pieces written", 1);
            if r.chance(1, 12) {
                std::thread::sleep(Duration::from_micros(r.next() % 500));
            }
        }
        Ok(())
    }

    fn dead(&mut self, what: &str) -> String {
        let until = Instant::now() + Duration::from_secs(2);
        let mut st = self.child.try_wait();
        while matches!(st, Ok(None)) && Instant::now() < until {
            std::thread::sleep(Duration::from_millis(10));
            st = self.child.try_wait();
        }
        format!("{}; status {:?}; stderr {:?}", what, st, crate::ctx::short(&self.err.lock().unwrap(), 3000))
    }

    /// Until `f` holds of what was received; Err if it cannot any more.
    fn wait(&mut self, what: &str, mut f: impl FnMut(&Received) -> bool) -> Result<(), String> {
        let pid = self.child.id();
        let (mut cpu, mut n, mut since) = (ticks(pid), 0, Instant::now());
        let start = Instant::now();
        let mut pause = 20;
        loop {
            {
                let g = self.got.lock().unwrap();
                if let Some(b) = &g.bad {
                    return Err(format!("standard output is broken: {}", b));
                }
                if f(&g) {
                    return Ok(());
                }
                if g.eof {
                    drop(g);
                    return Err(self.dead(&format!("{}: the server closed its output", what)));
                }
                if g.messages.len() != n {
                    n = g.messages.len();
                    since = Instant::now();
                }
            }
            let t = ticks(pid);
            if t > cpu + 20 {
                cpu = t;
                since = Instant::now();
            }
            if since.elapsed() > Duration::from_secs(20) {
                return Err(format!("{}: not done, and the server is idle", what));
            }
            if start.elapsed() > Duration::from_secs(250) {
                return Err(format!("ERROR {}: not done after 250 s of work", what));
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 3 / 2).min(5000);
        }
    }

    /// The process has to end; its status.
    fn end(&mut self) -> Result<Option<i32>, String> {
        let pid = self.child.id();
        let (mut cpu, mut since) = (ticks(pid), Instant::now());
        let first = cpu;
        let start = Instant::now();
        loop {
            match self.child.try_wait() {
                Ok(Some(st)) => {
                    for r in self.readers.drain(..) {
                        let _ = r.join();
                    }
                    return Ok(st.code());
                }
                Ok(None) => (),
                Err(e) => return Err(format!("ERROR wait: {}", e)),
            }
            let t = ticks(pid);
            if t > cpu + 50 {
                cpu = t;
                since = Instant::now();
            }
            if since.elapsed() > Duration::from_secs(20) {
                return Err("the process does not end, and is idle".into());
            }
            // hundreds of times what it needs for all of the session
            if t > first + 6000 {
                return Err("the process does not end, and has used a minute of processor time since it had to".into());
            }
            if start.elapsed() > Duration::from_secs(250) {
                return Err("ERROR the process does not end in 250 s".into());
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn view(g: &Received) -> BTreeMap<String, Vec<String>> {
    let mut m = BTreeMap::new();
    for v in &g.messages {
        if v["method"] == "textDocument/publishDiagnostics" {
            let d = v["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
            m.insert(v["params"]["uri"].as_str().unwrap_or("?").to_string(), shown(&d));
        }
    }
    m
}

fn make_folder(r: &mut Rng, dir: &Path, i: usize) -> PathBuf {
    let d = dir.join(format!("ws é{}", i));
    std::fs::create_dir_all(&d).unwrap();
    match r.below(6) {
        0 => std::fs::write(d.join("Dove.toml"), "[package]\nname = \"a\"\n").unwrap(),
        1 => std::fs::write(d.join("Dove.toml"), "[package\nname = ").unwrap(),
        2 => std::fs::write(d.join("Dove.toml"), [0xffu8, 0xfe, 0]).unwrap(),
        3 => std::fs::create_dir_all(d.join("Dove.toml")).unwrap(),
        4 => {
            std::fs::create_dir_all(d.join("sub")).unwrap();
            std::fs::write(d.join("sub/Dove.toml"), "[package]\n").unwrap();
        }
        _ => return d.join("missing"),
    }
    d
}

fn file_uri(p: &Path) -> String {
    lsp_types::Url::from_file_path(p).unwrap().to_string()
}

fn p14(ctx: &mut Ctx) {
    let n = ctx.scaled(5000, 60_000);
    ctx.cases("session", n, |r, c| {
        c.input("");
        let scratch = Scratch::new("p14");
        let dir = scratch.0.clone();
        let log_file = match r.below(3) {
            0 => Some(dir.join("log/sub/ls.log")),
            1 => Some(dir.join("ls.log")),
            _ => None,
        };
        let filter = *r.pick(&[
            None,
            Some(""),
            Some("info"),
            Some("error"),
            Some("move_language_server=trace"),
            Some("debug"),
            Some("trace"),
        ]);
        c.append_input(&format!("log file {:?}, filter {:?}", log_file.is_some(), filter));
        c.seen("logging", format!("{:?} {:?}", log_file.is_some(), filter));
        // an odd filter makes tracing-subscriber complain on standard error, without asking whether it can
        let deaf = r.chance(1, 8) && filter != Some("");
        c.seen("standard error", if deaf { "closed" } else { "read" });
        let mut p = Proc::start(&dir, log_file.as_deref(), filter, deaf)?;
        // initialize
        let offer = r.pick(&[json!(null), json!(["utf-8"]), json!(["utf-16"]), json!(["utf-16", "utf-8"]), json!([])]).clone();
        let utf8 = offer.as_array().into_iter().flatten().any(|x| x == "utf-8");
        let mut caps = json!({});
        if !offer.is_null() {
            caps["offsetEncoding"] = offer;
        }
        let registers = r.chance(1, 3);
        if registers {
            caps["textDocument"] = json!({"synchronization": {"didSave": true, "dynamicRegistration": true}});
        }
        let folders: Value = match r.below(4) {
            0 => json!(null),
            1 => json!([]),
            _ => (0..r.range(1, 3))
                .map(|i| {
                    let uri = match r.below(6) {
                        // not a place on this machine
                        0 => (*r.pick(&["vscode-remote://ssh/home", "untitled:x", "file://host/x", "git:/a", "data:,"])).to_string(),
                        _ => file_uri(&make_folder(r, &dir, i)),
                    };
                    json!({"uri": uri, "name": format!("w{}", i)})
                })
                .collect(),
        };
        let root = match r.below(4) {
            0 => json!(null),
            1 => json!(file_uri(&make_folder(r, &dir, 9))),
            2 => json!(r.pick(&["untitled:x", "file://host/x", "vscode-remote://ssh/home"])),
            _ => json!(file_uri(&dir)),
        };
        let mut params = json!({"processId": r.pick(&[json!(null), json!(1)]), "rootUri": root, "capabilities": caps});
        if r.bool() {
            params["workspaceFolders"] = folders;
        }
        if r.chance(1, 3) {
            params["clientInfo"] = r.pick(&[json!({"name": "é"}), json!({"name": "x", "version": "1"})]).clone();
        }
        if r.chance(1, 3) {
            params["trace"] = json!("verbose");
        }
        if r.chance(1, 3) {
            params["initializationOptions"] = json!({"a": [1, null]});
        }
        let init_id = r.pick(&[json!(0), json!(1), json!("init")]).clone();
        p.send(r, c, &json!({"jsonrpc": "2.0", "id": init_id, "method": "initialize", "params": params}))?;
        p.wait("initialize is not answered", |g| !g.messages.is_empty())?;
        {
            let g = p.got.lock().unwrap();
            let a = &g.messages[0];
            let sync = &a["result"]["capabilities"]["textDocumentSync"];
            if a["id"] != init_id || !a["error"].is_null() {
                return Err(format!("initialize was answered with {}", a));
            }
            if sync["openClose"] != true || sync["change"] != 1 {
                return Err(format!("documents are not said to be synchronised in full: {}", sync));
            }
            let enc = &a["result"]["offsetEncoding"];
            if *enc != (if utf8 { json!("utf-8") } else { json!(null) }) {
                return Err(format!("offset encoding {} was chosen; utf-8 offered: {}", enc, utf8));
            }
            if a["result"]["serverInfo"]["name"] != "move-language-server" {
                return Err(format!("server info {}", a["result"]["serverInfo"]));
            }
        }
        p.send(r, c, &json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}))?;
        // work
        let mut texts: BTreeMap<String, String> = BTreeMap::new();
        let mut ids: Vec<Value> = vec![];
        let mut version = 0;
        let ops = r.range(2, 14);
        for i in 0..ops {
            match r.below(7) {
                0..=3 => {
                    let uri = file_uri(&dir.join(format!("d {}.move", r.below(3))));
                    let t = gen::any_text(r, 30).replace("\r\n", "\n").replace('\r', " ");
                    let t = match r.below(8) {
                        0 => t.replace('\n', "\r\n"),
                        1 => t.repeat(r.range(1, 40)),
                        _ => t,
                    };
                    version += 1;
                    let m = if texts.contains_key(&uri) {
                        json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {
                            "textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": t}]}})
                    } else {
                        json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {
                            "uri": uri, "languageId": "move", "version": version, "text": t}}})
                    };
                    p.send(r, c, &m)?;
                    texts.insert(uri, t);
                    c.count("documents sent", 1);
                }
                4 => {
                    let id = if r.bool() { json!(100 + i) } else { json!(format!("r{}", i)) };
                    ids.push(id.clone());
                    p.send(r, c, &json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/hover", "params": {"é": "日本"}}))?;
                }
                5 => {
                    p.send(r, c, &json!({"jsonrpc": "2.0", "method": "$/setTrace", "params": {"value": "off"}}))?;
                }
                _ => {
                    p.send(r, c, &json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": 100}}))?;
                }
            }
        }
        ids.push(json!("last"));
        p.send(r, c, &json!({"jsonrpc": "2.0", "id": "last", "method": "verif/last"}))?;
        let want: BTreeMap<String, Vec<String>> =
            texts.iter().map(|(u, t)| (u.clone(), expected(t, utf8))).collect();
        p.wait("a request is not answered", |g| g.messages.iter().any(|m| m["id"] == "last"))?;
        let early = r.chance(1, 5);
        if !early {
            let mut seen = usize::MAX;
            let done = p.wait("the diagnostics", |g| {
                let n = g.messages.len();
                n != seen && {
                    seen = n;
                    let v = view(g);
                    want.iter().all(|(u, w)| v.get(u).cloned().unwrap_or_default() == *w)
                }
            });
            if let Err(e) = done {
                let v = view(&p.got.lock().unwrap());
                let bad: Vec<_> = want
                    .iter()
                    .filter(|(u, w)| v.get(*u).cloned().unwrap_or_default() != **w)
                    .map(|(u, w)| format!("{} shows {:?}, not {:?}", u, v.get(u), w))
                    .collect();
                return Err(format!("{}: {}", e, crate::ctx::short(&bad.join("; "), 2000)));
            }
            c.count("documents compared", want.len() as u64);
        }
        p.send(r, c, &json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}))?;
        ids.push(json!("bye"));
        p.wait("shutdown is not answered", |g| g.messages.iter().any(|m| m["id"] == "bye"))?;
        p.send(r, c, &json!({"jsonrpc": "2.0", "method": "exit"}))?;
        if r.bool() {
            drop(p.child.stdin.take());
        }
        let status = p.end()?;
        let err = p.err.lock().unwrap().clone();
        if status != Some(0) {
            return Err(format!("exit status {:?} after shutdown and exit; stderr {:?}", status, crate::ctx::short(&err, 3000)));
        }
        if err.contains("panicked at") {
            return Err(format!("a thread panicked: {}", crate::ctx::short(&err, 3000)));
        }
        let g = p.got.lock().unwrap();
        if let Some(b) = &g.bad {
            return Err(format!("standard output is broken: {}", b));
        }
        let mut regs = 0;
        let mut left = ids.clone();
        for m in &g.messages[1..] {
            if m["jsonrpc"] != "2.0" {
                return Err(format!("message without jsonrpc 2.0: {}", m));
            }
            match (m.get("id"), m.get("method").and_then(|x| x.as_str())) {
                (Some(_), Some("client/registerCapability")) => regs += 1,
                (Some(id), None) => match left.iter().position(|x| x == id) {
                    Some(k) => {
                        left.remove(k);
                        if m.get("error").is_some() == (id == "bye") {
                            return Err(format!("wrong kind of answer: {}", m));
                        }
                    }
                    None => return Err(format!("answer to a request which is not there: {}", m)),
                },
                (None, Some("textDocument/publishDiagnostics")) => {
                    let u = m["params"]["uri"].as_str().unwrap_or("?");
                    if !texts.contains_key(u) {
                        return Err(format!("diagnostics for {}, which was never opened", u));
                    }
                }
                _ => return Err(format!("unexpected message {}", m)),
            }
        }
        if !left.is_empty() {
            return Err(format!("requests without an answer: {:?}", left));
        }
        if regs != registers as usize {
            return Err(format!("{} registrations for didSave; client asks for it: {}", regs, registers));
        }
        if let Some(f) = &log_file {
            if !f.exists() {
                return Err("the log file was not made".into());
            }
        }
        c.count("frames read", g.messages.len() as u64);
        c.count("bytes read", g.bytes as u64);
        c.seen("sessions by logs", hash(p.log.as_bytes()) % 1000);
        if ops >= 5 {
            c.nontrivial(&p.log);
        }
        c.sample(json!({"session": p.log.chars().take(700).collect::<String>()}));
        Ok(())
    });
    // a client that writes first and reads later
    let n = ctx.scaled(1000, 15_000);
    ctx.cases("slow", n, |r, c| {
        c.input("");
        let scratch = Scratch::new("p14s");
        let dir = scratch.0.clone();
        let polite = r.bool();
        let mut all = vec![
            json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {
                "processId": null, "rootUri": file_uri(&dir), "capabilities": {}}}),
            json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}),
        ];
        let mut ids = vec![json!(0)];
        for i in 0..r.range(1, 5) {
            if r.chance(1, 3) {
                ids.push(json!(format!("r{}", i)));
                all.push(json!({"jsonrpc": "2.0", "id": format!("r{}", i), "method": "textDocument/hover", "params": {}}));
            } else {
                let k = *r.pick(&[1, 30, 300, 1000]);
                let text = format!("module M {{ {} }}", "é ) ".repeat(r.range(1, k)));
                all.push(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {
                    "uri": file_uri(&dir.join(format!("{}.move", i))), "languageId": "move", "version": 1, "text": text}}}));
            }
        }
        if polite {
            ids.push(json!("bye"));
            all.push(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
        }
        let first: Vec<u8> = all.iter().flat_map(|v| framed(r, v)).collect();
        let exit = framed(r, &json!({"jsonrpc": "2.0", "method": "exit"}));
        let small = r.chance(3, 4);
        let (before, after) = (r.below(40) as u64, r.below(30) as u64);
        c.input(&format!(
            "small pipe: {}; exit {} ms after the rest, reading begins {} ms after that\n{}",
            small, before, after, String::from_utf8_lossy(&first)
        ));
        let mut cmd = Command::new(server_binary());
        cmd.current_dir(&dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        for k in ["RA_LOG_FILE", "MOVE_LS_LOG", "RUST_BACKTRACE", "RUST_LOG"] {
            cmd.env_remove(k);
        }
        let mut child = cmd.spawn().map_err(|e| format!("ERROR cannot start {:?}: {}", server_binary(), e))?;
        let out = child.stdout.take().unwrap();
        let mut stdin = child.stdin.take().unwrap();
        let mut p = Proc { child, got: Arc::default(), err: Arc::default(), readers: vec![], log: String::new() };
        let fd = std::os::fd::AsRawFd::as_raw_fd(&out);
        if small {
            unsafe { libc::fcntl(fd, libc::F_SETPIPE_SZ, 4096) };
        }
        // a server which does not read must not stop us
        let writer = std::thread::spawn(move || {
            let _ = stdin.write_all(&first);
            std::thread::sleep(Duration::from_millis(before));
            let _ = stdin.write_all(&exit);
            stdin
        });
        std::thread::sleep(Duration::from_millis(before + after));
        let mut waiting: libc::c_int = 0;
        unsafe { libc::ioctl(fd, libc::FIONREAD, &mut waiting) };
        if small && waiting > 3000 {
            c.count("times the pipe was full", 1);
        }
        let got = p.got.clone();
        p.readers.push(std::thread::spawn(move || frames(out, got)));
        let status = p.end();
        if status.is_err() {
            let _ = p.child.kill();
        }
        let kept = writer.join();
        drop(kept);
        let status = status?;
        let g = p.got.lock().unwrap();
        if let Some(b) = &g.bad {
            return Err(format!("standard output is broken: {}", crate::ctx::short(b, 600)));
        }
        if polite && status != Some(0) || status.is_none() {
            return Err(format!("exit status {:?}", status));
        }
        for id in &ids {
            let n = g.messages.iter().filter(|m| m.get("method").is_none() && m["id"] == *id).count();
            if n != 1 {
                return Err(format!("{} answers to request {}", n, id));
            }
        }
        c.count("frames read late", g.messages.len() as u64);
        c.count(if polite { "shutdown and exit" } else { "exit only" }, 1);
        c.nontrivial(&format!("{} {} {} {} {}", all.len(), g.bytes, before, after, small));
        Ok(())
    });
}

pub const P28: Spec = Spec {
    id: "P28",
    run: p28,
    rule: "The real binary is given a session up to a random byte (before, in and after each message, in headers and bodies), \
           and then its client is gone: its input ends, and its output and standard error are not read any more \
           from that moment, from an earlier one, or still are; or it is told to exit, at any point of the session, with its input \
           left open. The process must end by itself, and not by a signal. Non-trivial: a new session, cut and way to be gone.",
    assumptions: &["a server that uses no processor time for 20 s has come to a standstill"],
    budget: (60, 400),
    max_shards: 8,
    at_least: 100,
};

/// A session of whole messages; where each ends.
fn recorded(r: &mut Rng, dir: &Path, exit: bool) -> (Vec<u8>, Vec<usize>, Vec<String>) {
    let mut all: Vec<Value> = vec![];
    let mut caps = json!({});
    if r.chance(1, 3) {
        caps["textDocument"] = json!({"synchronization": {"didSave": true, "dynamicRegistration": true}});
    }
    all.push(json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {
        "processId": null, "rootUri": file_uri(dir), "capabilities": caps}}));
    all.push(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
    let mut opened = [false; 3];
    for i in 0..r.range(0, 12) {
        let d = r.below(3);
        let uri = file_uri(&dir.join(format!("d {}.move", d)));
        let text = gen::any_text(r, 30);
        let text = if r.chance(1, 6) { text.repeat(r.range(2, 60)) } else { text };
        all.push(match r.below(6) {
            0 => json!({"jsonrpc": "2.0", "id": 10 + i, "method": "textDocument/hover", "params": {}}),
            1 if opened[d] => {
                opened[d] = false;
                json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}})
            }
            2 => json!({"jsonrpc": "2.0", "method": "$/setTrace", "params": {"value": "off"}}),
            _ if opened[d] => json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {
                "textDocument": {"uri": uri, "version": i + 2}, "contentChanges": [{"text": text}]}}),
            _ => {
                opened[d] = true;
                json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {
                    "uri": uri, "languageId": "move", "version": 1, "text": text}}})
            }
        });
    }
    if r.chance(1, 3) {
        all.push(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
    }
    if exit {
        // too early, too
        if r.chance(1, 3) {
            all.truncate(r.below(all.len() + 1));
        }
        all.push(json!({"jsonrpc": "2.0", "method": "exit"}));
    }
    let (mut bytes, mut ends, mut names) = (vec![], vec![0], vec![]);
    for v in &all {
        bytes.extend(framed(r, v));
        ends.push(bytes.len());
        names.push(v["method"].as_str().unwrap().to_string());
    }
    (bytes, ends, names)
}

fn p28(ctx: &mut Ctx) {
    let n = ctx.scaled(3000, 60_000);
    ctx.cases("gone", n, |r, c| {
        let scratch = Scratch::new("p28");
        let dir = scratch.0.clone();
        if r.bool() {
            std::fs::write(dir.join("Dove.toml"), "[package]\nname = \"a\"\n").unwrap();
        }
        let told = r.chance(1, 4);
        let (bytes, ends, names) = recorded(r, &dir, told);
        let cut = match r.below(4) {
            _ if told => bytes.len(),
            0 => *r.pick(&ends),
            1 => bytes.len(),
            2 => (*r.pick(&ends) + r.range(0, 40)).min(bytes.len()),
            _ => r.below(bytes.len() + 1),
        };
        let at = ends.iter().rposition(|e| *e <= cut).unwrap();
        let place = match (cut == ends[at], cut < bytes.len()) {
            (true, false) => "after all",
            (true, true) => "between messages",
            _ if bytes[ends[at]..cut].windows(4).any(|w| w == b"\r\n\r\n") => "in a body",
            _ => "in a header",
        };
        // what else is gone, and from which byte on
        let way = r.below(4);
        let deaf_from = match way {
            0 => usize::MAX,
            1 => cut,
            _ => r.below(cut + 1),
        };
        let log_file = if r.chance(1, 4) { Some(dir.join("ls.log")) } else { None };
        let filter = *r.pick(&[None, None, Some("debug"), Some("trace")]);
        c.input(&format!(
            "{} of {} bytes ({}; message {} of {:?}); output closed from byte {}; told to exit: {}; log file {:?}, filter {:?}\n{}",
            cut, bytes.len(), place, at, names, deaf_from as isize, told, log_file.is_some(), filter,
            String::from_utf8_lossy(&bytes)
        ));
        c.seen("cut", format!("{} {}", names.get(at).map_or("", |x| x), place));
        let mut cmd = Command::new(server_binary());
        cmd.current_dir(&dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        for k in ["RA_LOG_FILE", "MOVE_LS_LOG", "RUST_BACKTRACE", "RUST_LOG"] {
            cmd.env_remove(k);
        }
        if let Some(f) = &log_file {
            cmd.env("RA_LOG_FILE", f);
        }
        if let Some(f) = filter {
            cmd.env("MOVE_LS_LOG", f);
        }
        let mut child = cmd.spawn().map_err(|e| format!("ERROR cannot start {:?}: {}", server_binary(), e))?;
        let (out, err) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let (out, err) = (Ends::new(out), Ends::new(err));
        let mut stdin = child.stdin.take().unwrap();
        let mut p = Proc { child, got: Arc::default(), err: Arc::default(), readers: vec![], log: String::new() };
        let pauses = r.bool();
        let mut rr = Rng::new(r.next());
        let (o, e) = (out.clone(), err.clone());
        // a server which does not read must not stop us
        let writer = std::thread::spawn(move || {
            let mut at = 0;
            loop {
                if at >= deaf_from {
                    o.close();
                    e.close();
                }
                if at == cut {
                    break;
                }
                let n = match rr.below(4) {
                    0 => rr.range(1, 50),
                    1 => rr.range(1, 2000),
                    _ => cut,
                };
                let mut end = (at + n).min(cut);
                if at < deaf_from {
                    end = end.min(deaf_from);
                }
                if stdin.write_all(&bytes[at..end]).is_err() {
                    break;
                }
                at = end;
                if pauses && rr.chance(1, 4) {
                    std::thread::sleep(Duration::from_micros(rr.next() % 3000));
                }
            }
            if pauses {
                std::thread::sleep(Duration::from_micros(rr.next() % 20_000));
            }
            // told to exit: the input stays open
            if told { Some(stdin) } else { None }
        });
        let status = p.end();
        if status.is_err() {
            // lets the writer go on
            let _ = p.child.kill();
            out.close();
            err.close();
        }
        let kept = writer.join();
        out.join();
        err.join();
        drop(kept);
        let status = status?;
        let log = err.text();
        if way == 0 && (status.is_none() || log.contains("panicked at")) {
            return Err(format!("status {:?}, though all its output was read; stderr {:?}", status, crate::ctx::short(&log, 3000)));
        }
        c.seen("exit status", format!("{:?}", status));
        c.count("bytes given to the server", cut as u64);
        c.count("bytes read from the server", out.count());
        c.count(if told { "told to exit" } else { "input ended" }, 1);
        c.count(["output still read", "output closed at the same time", "output closed earlier"][way.min(2)], 1);
        c.nontrivial(&format!("{} {} {:?} {} {}", cut, told, deaf_from, hash(place.as_bytes()), names.join(" ")));
        c.sample(json!({"cut": cut, "place": place, "told": told, "status": status}));
        Ok(())
    });
}

/// The reading end of a pipe, read by a thread until it is closed by us.
#[derive(Clone, Default)]
struct Ends {
    stop: Arc<std::sync::atomic::AtomicBool>,
    got: Arc<Mutex<Vec<u8>>>,
    reader: Arc<Mutex<Option<std::thread::JoinHandle<()>>>>,
}

impl Ends {
    fn new(mut pipe: impl Read + std::os::unix::io::AsRawFd + Send + 'static) -> Ends {
        let e = Ends::default();
        let (stop, got) = (e.stop.clone(), e.got.clone());
        let h = std::thread::spawn(move || {
            let mut b = vec![0u8; 1 << 14];
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let mut f = libc::pollfd { fd: pipe.as_raw_fd(), events: libc::POLLIN, revents: 0 };
                if unsafe { libc::poll(&mut f, 1, 2) } > 0 {
                    match pipe.read(&mut b) {
                        Ok(n) if n > 0 => got.lock().unwrap().extend_from_slice(&b[..n]),
                        _ => break,
                    }
                }
            }
        });
        *e.reader.lock().unwrap() = Some(h);
        e
    }
    fn close(&self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    fn join(&self) {
        if let Some(h) = self.reader.lock().unwrap().take() {
            let _ = h.join();
        }
    }
    fn count(&self) -> u64 {
        self.got.lock().unwrap().len() as u64
    }
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.got.lock().unwrap()).into_owned()
    }
}
