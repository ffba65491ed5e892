//! An LSP client that drives the real server (in process, over an in-memory
//! connection, or the real binary over stdio) and keeps the client's view.
use crossbeam_channel::{Receiver, RecvTimeoutError, Sender};
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

use crate::ctx::cpu_time;

use lsp_types::ClientCapabilities;
use move_language_server::config::Config;

/// How long a server that does nothing is waited for.
const IDLE: Duration = Duration::from_secs(20);

pub fn root() -> paths::AbsPathBuf {
    paths::AbsPathBuf::assert(std::path::PathBuf::from("/nonexistent-verif-root"))
}

#[derive(Clone, Debug)]
pub struct Publish {
    pub uri: String,
    pub version: Option<i64>,
    pub diags: Vec<Value>,
    /// number of messages the client had sent when it received this
    pub after_sent: usize,
    /// the server had handled at least this many of them when it sent this
    pub handled: usize,
}

pub struct Client {
    tx: Option<Sender<Message>>,
    rx: Receiver<Message>,
    thread: Option<JoinHandle<Result<(), String>>>,
    next_id: i32,
    pub sent: usize,
    /// messages the server is known to have handled
    pub handled: usize,
    asked: HashMap<RequestId, usize>,
    pub publishes: Vec<Publish>,
    pub view: HashMap<String, Publish>,
    pub responses: Vec<Response>,
    pub server_requests: Vec<Request>,
    pub other: Vec<Notification>,
    pub closed: bool,
}

pub fn caps_utf16() -> ClientCapabilities {
    ClientCapabilities::default()
}
pub fn caps_utf8() -> ClientCapabilities {
    let mut c = ClientCapabilities::default();
    c.offset_encoding = Some(vec!["utf-8".to_string()]);
    c
}

impl Client {
    pub fn start(caps: ClientCapabilities) -> Client {
        Client::start_with(caps, |_| ())
    }
    pub fn start_with(caps: ClientCapabilities, f: impl FnOnce(&mut Config)) -> Client {
        let (server, client) = Connection::memory();
        let mut config = Config::new(root(), caps);
        f(&mut config);
        let thread = std::thread::Builder::new()
            .name("server-main".into())
            .spawn(move || {
                move_language_server::main_loop(config, server).map_err(|e| e.to_string())
            })
            .unwrap();
        Client {
            tx: Some(client.sender),
            rx: client.receiver,
            thread: Some(thread),
            next_id: 0,
            sent: 0,
            handled: 0,
            asked: HashMap::new(),
            publishes: vec![],
            view: HashMap::new(),
            responses: vec![],
            server_requests: vec![],
            other: vec![],
            closed: false,
        }
    }

    /// false if the server is gone
    pub fn send(&mut self, m: Message) -> bool {
        self.sent += 1;
        match &self.tx {
            Some(c) => c.send(m).is_ok(),
            None => false,
        }
    }
    pub fn notify(&mut self, method: &str, params: Value) -> bool {
        self.send(Message::Notification(Notification { method: method.to_string(), params }))
    }
    pub fn request(&mut self, method: &str, params: Value) -> RequestId {
        self.next_id += 1;
        let id = RequestId::from(self.next_id);
        self.asked.insert(id.clone(), self.sent + 1);
        self.send(Message::Request(Request {
            id: id.clone(),
            method: method.to_string(),
            params,
        }));
        id
    }
    pub fn open(&mut self, uri: &str, version: i64, text: &str) -> bool {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "move", "version": version, "text": text}}),
        )
    }
    pub fn change_full(&mut self, uri: &str, version: i64, text: &str) -> bool {
        self.change(uri, version, vec![json!({ "text": text })])
    }
    pub fn change(&mut self, uri: &str, version: i64, changes: Vec<Value>) -> bool {
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}),
        )
    }
    pub fn close(&mut self, uri: &str) -> bool {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}))
    }

    fn take_in(&mut self, m: Message) {
        match m {
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                let p = Publish {
                    uri: n.params["uri"].as_str().unwrap_or("?").to_string(),
                    version: n.params.get("version").and_then(|v| v.as_i64()),
                    diags: n.params["diagnostics"].as_array().cloned().unwrap_or_default(),
                    after_sent: self.sent,
                    handled: self.handled,
                };
                self.view.insert(p.uri.clone(), p.clone());
                self.publishes.push(p);
            }
            Message::Notification(n) => self.other.push(n),
            Message::Request(r) => {
                let resp = Response { id: r.id.clone(), result: Some(Value::Null), error: None };
                self.server_requests.push(r);
                self.send(Message::Response(resp));
            }
            Message::Response(r) => {
                if let Some(n) = self.asked.remove(&r.id) {
                    self.handled = self.handled.max(n);
                }
                self.responses.push(r)
            }
        }
    }

    /// Receives one message; false on timeout or disconnection.
    pub fn pump(&mut self, timeout: Duration) -> bool {
        match self.rx.recv_timeout(timeout) {
            Ok(m) => {
                self.take_in(m);
                true
            }
            Err(RecvTimeoutError::Timeout) => false,
            Err(RecvTimeoutError::Disconnected) => {
                self.closed = true;
                false
            }
        }
    }
    /// Receives whatever is there.
    pub fn drain(&mut self) {
        while self.pump(Duration::from_millis(0)) {}
    }
    /// Pumps until `f` holds. Err if the server is gone, or has been idle (next to no
    /// processor time used, nothing sent) for long: then it will not happen any more.
    pub fn wait(&mut self, what: &str, mut f: impl FnMut(&Client) -> bool) -> Result<(), String> {
        let start = Instant::now();
        let mut idle_since = Instant::now();
        let mut cpu = cpu_time();
        loop {
            self.drain();
            if f(self) {
                return Ok(());
            }
            if self.closed || !self.alive() {
                // what was sent before the end counts
                self.drain();
                if f(self) {
                    return Ok(());
                }
                return Err(self.end_state(what));
            }
            let got = self.pump(Duration::from_millis(100));
            let now = cpu_time();
            if got || now - cpu > Duration::from_millis(500) {
                idle_since = Instant::now();
                cpu = now;
            }
            if idle_since.elapsed() > IDLE {
                return Err(format!("{}: not done, and the server has been idle for {:?}", what, IDLE));
            }
            if start.elapsed() > Duration::from_secs(250) {
                return Err(format!("ERROR {}: not done after 250 s of work", what));
            }
        }
    }
    /// An answered request: everything sent before it has been handled by the main loop.
    pub fn barrier(&mut self) -> Result<(), String> {
        let id = self.request("verif/barrier", Value::Null);
        self.wait("a request is not answered", |c| c.responses.iter().any(|r| r.id == id))
    }
    /// shutdown + exit: the server has to end, and well.
    pub fn finish(mut self) -> Result<Client, String> {
        let id = self.request("shutdown", Value::Null);
        self.wait("shutdown is not answered", |c| c.responses.iter().any(|r| r.id == id))?;
        self.notify("exit", Value::Null);
        self.join()?;
        Ok(self)
    }
    /// Waits for the end of the server.
    pub fn join(&mut self) -> Result<(), String> {
        let start = Instant::now();
        let mut idle_since = Instant::now();
        let mut cpu = cpu_time();
        while self.alive() {
            self.drain();
            std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 50 { 100 } else { 2000 }));
            let now = cpu_time();
            if now - cpu > Duration::from_secs(1) {
                idle_since = Instant::now();
                cpu = now;
            }
            if idle_since.elapsed() > IDLE {
                return Err(format!("the server does not end, and has been idle for {:?}", IDLE));
            }
            if start.elapsed() > Duration::from_secs(250) {
                return Err("ERROR the server does not end in 250 s".into());
            }
        }
        self.drain();
        match self.thread.take().unwrap().join() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("server ended with an error: {}", e)),
            Err(_) => Err("server main loop panicked".into()),
        }
    }
    pub fn forget_questions(&mut self) {
        self.asked = HashMap::new();
    }
    /// The client goes away without a word.
    pub fn hang_up(&mut self) {
        self.tx = None;
    }
    /// Why the server stopped answering.
    pub fn end_state(&mut self, what: &str) -> String {
        let dead = self.thread.as_ref().map_or(true, |t| t.is_finished());
        if dead {
            match self.thread.take().map(|t| t.join()) {
                Some(Ok(Ok(()))) => format!("{}: server ended by itself", what),
                Some(Ok(Err(e))) => format!("{}: server ended with error: {}", what, e),
                Some(Err(_)) => format!("{}: server main loop panicked", what),
                None => format!("{}: server gone", what),
            }
        } else {
            format!("{} (server still running)", what)
        }
    }
    pub fn alive(&self) -> bool {
        self.thread.as_ref().map_or(false, |t| !t.is_finished())
    }
}
