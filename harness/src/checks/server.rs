//! The language server as a whole: the real main loop, driven over an in-memory connection.
use super::Spec;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::hooks::{self, Hooks};
use crate::lsp::{caps_utf16, caps_utf8, Client, Publish};
use crate::panics;
use crate::rng::{hash, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::time::Duration;

// the client's side ---------------------------------------------------------------------

/// Line and column of a byte offset, found by counting.
pub fn position(text: &str, offset: usize, utf8: bool) -> (u64, u64) {
    let (mut line, mut col) = (0, 0);
    for (i, ch) in text.char_indices() {
        if i >= offset {
            break;
        }
        if ch == '\n' {
            line += 1;
            col = 0;
        } else {
            col += if utf8 { ch.len_utf8() } else { ch.len_utf16() } as u64;
        }
    }
    (line, col)
}

/// What has to be shown for a document: the first 128 errors of a parse of nothing but
/// its text. Positions are looked for in the client's text, which may have `\r\n`.
pub fn expected(text: &str, utf8: bool) -> Vec<String> {
    let unix = text.replace("\r\n", "\n");
    let p = syntax::SourceFile::parse(&unix);
    let mut v: Vec<String> = p
        .errors()
        .iter()
        .take(128)
        .map(|e| {
            let (s, t) = (usize::from(e.range().start()), usize::from(e.range().end()));
            let (a, b) = (position(&unix, s, utf8), position(&unix, t, utf8));
            format!("{}:{}-{}:{} Some(1) \"syntax-error\" \"move-language-server\" Syntax Error: {}", a.0, a.1, b.0, b.1, e)
        })
        .collect();
    v.sort();
    v
}

/// Published diagnostics in the same form.
pub fn shown(diags: &[Value]) -> Vec<String> {
    let mut v: Vec<String> = diags
        .iter()
        .map(|d| {
            let r = &d["range"];
            format!(
                "{}:{}-{}:{} {:?} {} {} {}",
                r["start"]["line"],
                r["start"]["character"],
                r["end"]["line"],
                r["end"]["character"],
                d["severity"].as_u64(),
                d["code"],
                d["source"],
                d["message"].as_str().unwrap_or("?")
            )
        })
        .collect();
    v.sort();
    v
}

/// A carriage return only before a line feed: other uses of it are not defined by the server.
fn tidy(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' && it.peek() != Some(&'\n') {
            out.push('~');
        } else {
            out.push(c);
        }
    }
    out
}

const WORDS: &[&str] = &[
    "module", "M", "{", "}", "fun", "f", "(", ")", ";", "let", "x", "=", "1", "struct", "S", "has", "copy", "#", "€", "日本",
    "😀", "é", "b\"ab", "0x", "0x12", "/", "//c", "/*", "*/", ",", ":", "::", "&", "&mut", "return", "script", "use", "if",
    "address", "@", "\\", "'", "1u8", "vector", "<", ">", "𝒳𝒴", "\u{301}",
];

/// Text that gives errors in many places, so that what is published tells much about it.
fn dense(r: &mut Rng, words: usize, crlf: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, words) {
        s.push_str(*r.pick(WORDS));
        match r.below(7) {
            0 | 1 => s.push_str(if crlf && r.chance(3, 4) { "\r\n" } else { "\n" }),
            2 => s.push_str("  "),
            3 => s.push('\t'),
            4 => (),
            _ => s.push(' '),
        }
    }
    s
}

fn document(r: &mut Rng) -> String {
    let t = match r.below(6) {
        0 => gen::any_text(r, 40),
        1 => {
            let p = gen::program(r, 40);
            gen::render(&p.toks, || " ".into())
        }
        2 => {
            let mut s = String::new();
            for _ in 0..r.range(100, 200) {
                s.push_str(*r.pick(WORDS));
                s.push_str(if r.chance(1, 5) { "\n" } else { " " });
            }
            s
        }
        3 => dense(r, 60, true),
        _ => dense(r, 40, false),
    };
    let t = if r.chance(1, 4) { t.replace('\n', "\r\n") } else { t };
    tidy(&t)
}

/// A long text with errors in few places, most of them behind many lines or columns in
/// which nothing is wrong; the line ends may differ from place to place.
fn large(r: &mut Rng) -> String {
    const FILL: &[&str] = &["\n", "// é\n", "script { fun f() { let a = 1; } }\n", " ", "/* 日本 */ ", "/*😀*/", "\t\n", "// x\n\n"];
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        let n = (1usize << *r.pick(&[8, 10, 12, 12, 13, 15, 16, 16, 17])) + r.range(0, 40) - 20;
        let fill = *r.pick(FILL);
        // as many bytes, columns or lines
        let k = if r.bool() { n / fill.len() + 1 } else { n };
        let mut part = fill.repeat(k.min(160_000 / fill.len()));
        if r.chance(1, 3) {
            part.push_str(&"\n".repeat(r.range(0, 2)));
        }
        part.push_str(&dense(r, 12, true));
        match r.below(4) {
            0 => part = part.replace('\n', "\r\n"),
            1 => {
                let mut at = r.below(part.len() + 1);
                while !part.is_char_boundary(at) {
                    at -= 1;
                }
                let end = part.split_off(at).replace('\n', "\r\n");
                part.push_str(&end);
            }
            _ => (),
        }
        s.push_str(&part);
    }
    tidy(&s)
}

/// Where a client can have its cursor.
fn cursor_places(text: &str) -> Vec<usize> {
    let b = text.as_bytes();
    (0..=text.len())
        .filter(|&i| text.is_char_boundary(i) && !(i > 0 && i < b.len() && b[i - 1] == b'\r' && b[i] == b'\n'))
        .collect()
}

/// A batch of edits for `text`, as the client sends them; `text` becomes the result.
fn edits(r: &mut Rng, text: &mut String, note: &mut String) -> (Vec<Value>, usize) {
    let mut out = vec![];
    let mut ranged = 0;
    let style = r.below(4);
    let mut last: Option<usize> = None;
    for _ in 0..r.range(1, 6) {
        if r.chance(1, 12) {
            *text = if r.chance(1, 8) { String::new() } else { document(r) };
            note.push_str(&format!("\n  full {:?}", text));
            out.push(json!({ "text": text.clone() }));
            if r.chance(1, 6) {
                out.last_mut().unwrap()["rangeLength"] = json!(r.below(100));
            }
            last = None;
            continue;
        }
        let places = cursor_places(text);
        let pick_from = |r: &mut Rng, lo: usize, hi: usize| -> usize {
            let c: Vec<usize> = places.iter().copied().filter(|p| (lo..=hi).contains(p)).collect();
            if c.is_empty() {
                *r.pick(&places)
            } else {
                *r.pick(&c)
            }
        };
        let (a, b) = match (style, last) {
            // from the end to the start, as editors do for multiple cursors
            (0, Some(l)) => {
                let b = pick_from(r, 0, l);
                let a = pick_from(r, b.saturating_sub(12), b);
                (a.min(b), a.max(b))
            }
            // from the start to the end
            (1, Some(l)) => {
                let a = pick_from(r, l, text.len());
                let b = pick_from(r, a, a + 12);
                (a.min(b), a.max(b))
            }
            // close to the one before
            (2, Some(l)) => {
                let a = pick_from(r, l.saturating_sub(15), l + 15);
                let b = pick_from(r, a, a + 20);
                (a.min(b), a.max(b))
            }
            _ => {
                let a = *r.pick(&places);
                let b = if r.bool() { pick_from(r, a, a + 15) } else { *r.pick(&places) };
                (a.min(b), a.max(b))
            }
        };
        let new = match r.below(5) {
            0 => String::new(),
            1 => (*r.pick(&["\n", "\r\n", " ", "\n\n", "é", "😀", "x\n", "\n日"])).to_string(),
            2 => dense(r, 10, true),
            _ => dense(r, 3, false),
        };
        let (p, q) = (position(text, a, false), position(text, b, false));
        note.push_str(&format!("\n  {}:{}-{}:{} {:?}", p.0, p.1, q.0, q.1, new));
        out.push(json!({
            "range": {"start": {"line": p.0, "character": p.1}, "end": {"line": q.0, "character": q.1}},
            "text": new,
        }));
        // deprecated, optional, and sent by some clients
        if r.chance(1, 4) {
            out.last_mut().unwrap()["rangeLength"] = json!(text[a..b].encode_utf16().count());
        }
        text.replace_range(a..b, &new);
        last = Some(a);
        ranged += 1;
    }
    (out, ranged)
}

struct Doc {
    open: bool,
    text: String,
    /// (messages sent with it, version, text), one for each text the client sent
    hist: Vec<(usize, i64, String)>,
    /// (messages sent with it, open from then on), one for each time it was opened or closed
    opened: Vec<(usize, bool)>,
}

impl Doc {
    /// Whether the server may have had it closed between these two messages.
    fn maybe_closed(&self, handled: usize, sent: usize) -> bool {
        let before = self.opened.iter().rev().find(|x| x.0 <= handled);
        !before.map_or(false, |x| x.1) || self.opened.iter().any(|x| x.0 > handled && x.0 <= sent && !x.1)
    }
}

/// The documents as the client has them.
struct Book {
    docs: BTreeMap<String, Doc>,
    utf8: bool,
    cache: HashMap<String, Vec<String>>,
}

impl Book {
    fn expected(&mut self, text: &str) -> Vec<String> {
        let utf8 = self.utf8;
        if self.cache.len() > 400 {
            self.cache.clear();
        }
        self.cache.entry(text.to_string()).or_insert_with(|| expected(text, utf8)).clone()
    }
    fn open_uris(&self) -> Vec<String> {
        self.docs.iter().filter(|(_, d)| d.open).map(|(u, _)| u.clone()).collect()
    }
    /// First open document for which the client does not show what it has to.
    fn wrong(&mut self, client: &Client) -> Option<String> {
        for uri in self.open_uris() {
            let text = self.docs[&uri].text.clone();
            let want = self.expected(&text);
            let have = client.view.get(&uri).map(|p| shown(&p.diags)).unwrap_or_default();
            if want != have {
                let missing: Vec<_> = want.iter().filter(|x| !have.contains(x)).take(3).collect();
                let extra: Vec<_> = have.iter().filter(|x| !want.contains(x)).take(3).collect();
                return Some(format!(
                    "{}: {} diagnostics are shown, {} expected; missing {:?}, wrong {:?}; text {:?}",
                    uri,
                    have.len(),
                    want.len(),
                    missing,
                    extra,
                    text
                ));
            }
        }
        None
    }
}

struct Sim {
    client: Client,
    book: Book,
    version: i64,
    hooks: Arc<Hooks>,
    checked: usize,
    at: HashMap<String, usize>,
    rng: Rng,
    pub log: String,
}

impl Sim {
    fn new(r: &mut Rng, utf8: bool) -> Sim {
        let hooks = Hooks::install(r.next());
        Sim {
            rng: Rng::new(r.next()),
            client: Client::start(if utf8 { caps_utf8() } else { caps_utf16() }),
            book: Book { docs: BTreeMap::new(), utf8, cache: HashMap::new() },
            version: 0,
            hooks,
            checked: 0,
            at: HashMap::new(),
            log: String::new(),
        }
    }
    fn note(&mut self, c: &mut Case, s: String) {
        c.append_input(&s);
        self.log.push_str(&s);
    }
    /// Versions go up by one most of the time, jump now and then, and may start low
    /// again when a document is opened.
    fn next_version(&mut self, open: bool) {
        if open && self.rng.chance(1, 4) {
            self.version = self.rng.below(3) as i64;
        } else if self.rng.chance(1, 8) {
            self.version += self.rng.range(2, 70_000) as i64;
        } else {
            self.version += 1;
        }
        if self.version > 2_000_000_000 {
            self.version = 1;
        }
    }
    fn open(&mut self, c: &mut Case, uri: &str, text: String) {
        self.next_version(true);
        let v = self.version;
        self.note(c, format!("\nopen {} v{} {:?}", uri, v, text));
        self.hooks.note('o');
        self.client.open(uri, v, &text);
        let sent = self.client.sent;
        let d = self.book.docs.entry(uri.to_string()).or_insert(Doc { open: true, text: String::new(), hist: vec![], opened: vec![] });
        d.open = true;
        d.opened.push((sent, true));
        d.text = text.clone();
        d.hist.push((sent, v, text));
    }
    fn change_full(&mut self, c: &mut Case, uri: &str, text: String) {
        self.next_version(false);
        let v = self.version;
        self.note(c, format!("\nchange {} v{} full {:?}", uri, v, text));
        self.hooks.note('c');
        self.client.change_full(uri, v, &text);
        let sent = self.client.sent;
        let d = self.book.docs.get_mut(uri).unwrap();
        d.text = text.clone();
        d.hist.push((sent, v, text));
    }
    /// The number of edits with ranges.
    fn change_ranged(&mut self, c: &mut Case, r: &mut Rng, uri: &str) -> usize {
        self.next_version(false);
        let v = self.version;
        let mut text = self.book.docs[uri].text.clone();
        let mut note = String::new();
        let (changes, n) = edits(r, &mut text, &mut note);
        self.note(c, format!("\nchange {} v{}{}", uri, v, note));
        self.hooks.note('c');
        self.client.change(uri, v, changes);
        let sent = self.client.sent;
        let d = self.book.docs.get_mut(uri).unwrap();
        d.text = text.clone();
        d.hist.push((sent, v, text));
        n
    }
    fn close(&mut self, c: &mut Case, uri: &str) {
        self.note(c, format!("\nclose {}", uri));
        self.hooks.note('x');
        self.client.close(uri);
        let sent = self.client.sent;
        let d = self.book.docs.get_mut(uri).unwrap();
        d.open = false;
        d.opened.push((sent, false));
    }
    /// All open documents get the right diagnostics once the server has nothing to do.
    fn converge(&mut self) -> Result<(), String> {
        self.client.barrier()?;
        if self.book.wrong(&self.client).is_some() {
            let hooks = self.hooks.clone();
            let mut seen = usize::MAX;
            let book = &mut self.book;
            let res = self.client.wait("the diagnostics", |cl| {
                if panics::any().is_some() {
                    return true;
                }
                if cl.publishes.len() == seen {
                    return false;
                }
                seen = cl.publishes.len();
                book.wrong(cl).is_none()
            });
            if let Err(e) = res {
                let w = self.book.wrong(&self.client).unwrap_or_default();
                let (s, d) = hooks.counts();
                if !self.client.alive() || e.starts_with("ERROR") {
                    return Err(e);
                }
                if s != d {
                    return Err(format!("ERROR {} of {} tasks are not done: {}", s - d, s, w));
                }
                // and it still answers
                self.client.barrier()?;
                if self.book.wrong(&self.client).is_none() {
                    return Err("ERROR the diagnostics came after a very long time".into());
                }
                return Err(format!("the diagnostics do not become right; the server has nothing left to do. {}", w));
            }
            if let Some(p) = panics::any() {
                return Err(format!("panic: {}", p));
            }
        }
        Ok(())
    }

    /// The online monitor of what was published: each publication fits a text the client
    /// sent, not older than what the server is known to have handled, and not older than
    /// the one of the publication before.
    fn monitor(&mut self, c: &mut Case) -> Result<(), String> {
        while self.checked < self.client.publishes.len() {
            let p: Publish = self.client.publishes[self.checked].clone();
            self.checked += 1;
            c.count("publications checked", 1);
            let Some(d) = self.book.docs.get(&p.uri) else {
                return Err(format!("diagnostics were published for {}, which the client never opened", p.uri));
            };
            if p.version.is_none() && !d.maybe_closed(p.handled, p.after_sent) {
                return Err(format!("diagnostics were published for {}, which is open, without a version", p.uri));
            }
            c.count("publications with a version", p.version.is_some() as u64);
            let hist = d.hist.clone();
            let last = self.at.get(&p.uri).copied().unwrap_or(0);
            let known = hist.iter().rposition(|h| h.0 <= p.handled).unwrap_or(0);
            let from = last.max(known);
            let have = shown(&p.diags);
            let mut fits = None;
            for (i, (sent, v, text)) in hist.iter().enumerate().skip(from) {
                if *sent > p.after_sent || p.version.map_or(false, |x| x != *v) {
                    continue;
                }
                if self.book.expected(text) == have {
                    fits = Some(i);
                    break;
                }
            }
            match fits {
                Some(i) => {
                    self.at.insert(p.uri.clone(), i);
                }
                None => {
                    let mut which = String::from("they fit no text of the document at all");
                    for (i, (_, v, text)) in hist.iter().enumerate().rev() {
                        if self.book.expected(text) == have {
                            which = format!("they fit its text number {} (version {})", i, v);
                            break;
                        }
                    }
                    return Err(format!(
                        "wrong or outdated diagnostics were published for {} with version {:?}: {}; texts {} or later \
                         were due; published {:?}",
                        p.uri,
                        p.version,
                        which,
                        from,
                        have.iter().take(3).collect::<Vec<_>>()
                    ));
                }
            }
        }
        Ok(())
    }

    fn end(self, c: &mut Case) -> Result<(), String> {
        self.hooks.open_gate();
        let (s, _) = self.hooks.counts();
        c.count("diagnostics tasks run", s);
        c.count("messages sent", self.client.sent as u64);
        let res = self.client.finish();
        hooks::uninstall();
        res.map(|_| ())
    }
}

fn uri(r: &mut Rng, i: usize) -> String {
    let dir = *r.pick(&["/w", "/w/sub%20dir", "/w/%C3%A9", "/", "/w/a/b/c/d"]);
    format!("file://{}/f{}.move", dir.trim_end_matches('/'), i)
}

// P08 -------------------------------------------------------------------------------

pub const P08: Spec = Spec {
    id: "P08",
    run: p08,
    rule: "Histories of didOpen and didChange with batches of 1..6 edits (ranges in UTF-16 positions from the end to the \
           start, from the start to the end, close together, or anywhere; whole texts in between), on documents with wide \
           characters and both kinds of line ends; the client keeps its own text, and what is shown in the end must be the \
           errors of that text. Non-trivial: a new history with a batch of two ranged edits or more.",
    assumptions: &[
        "positions are on character boundaries inside the document; with ranged edits, \\r occurs only before \\n",
        "the server's text is seen through the diagnostics of error-dense documents",
    ],
    budget: (100, 700),
    max_shards: 8,
    at_least: 200,
};

fn p08(ctx: &mut Ctx) {
    let n = ctx.scaled(12_000, 300_000);
    ctx.cases("edits", n, |r, c| {
        c.input("");
        let mut s = Sim::new(r, false);
        let u = uri(r, 0);
        let t = document(r);
        s.open(c, &u, t);
        let mut multi = false;
        for _ in 0..r.range(1, 10) {
            let k = s.change_ranged(c, r, &u);
            c.count("edits with ranges", k as u64);
            multi |= k >= 2;
            if s.book.docs[&u].text.len() > 6000 {
                let t = document(r);
                s.change_full(c, &u, t);
            }
            // most batches are looked at alone: an error may be hidden by a later one
            if r.chance(3, 4) {
                s.converge()?;
                c.count("texts compared", 1);
            }
        }
        s.converge()?;
        s.monitor(c)?;
        c.count("texts compared", 1);
        if multi {
            c.nontrivial(&s.log);
        }
        c.sample(json!({"history": s.log.chars().take(600).collect::<String>()}));
        s.end(c)
    });
    let n = ctx.scaled(120, 12_000);
    ctx.cases("long", n, |r, c| long_documents(r, c, false));
    let n = ctx.scaled(24, 600);
    ctx.cases("huge", n, huge_documents);
    // carriage returns without a line feed stay what they are
    let n = ctx.scaled(2_000, 200_000);
    ctx.cases("carriage", n, |r, c| {
        c.input("");
        let mut s = Sim::new(r, false);
        let u = uri(r, 0);
        for i in 0..r.range(1, 6) {
            let mut t = String::new();
            for _ in 0..r.range(1, 5) {
                t.push_str(&dense(r, 5, true));
                for _ in 0..r.below(4) {
                    t.push_str(*r.pick(&["\r", "\r\n", "\n", "\r\r\n", "\n\r", "\r#"]));
                }
            }
            if t.contains('\r') {
                c.nontrivial(&t);
            }
            if i == 0 {
                s.open(c, &u, t);
            } else {
                s.change_full(c, &u, t);
            }
            s.converge()?;
            c.count("texts compared", 1);
        }
        s.monitor(c)?;
        s.end(c)
    });
    // the same through the reference model alone, with many small documents: one batch
    let n = ctx.scaled(20_000, 900_000);
    ctx.cases("batch", n, |r, c| {
        c.input("");
        let mut s = Sim::new(r, false);
        let us: Vec<String> = (0..4).map(|i| format!("file:///b{}.move", i)).collect();
        let mut multi = false;
        for u in &us {
            let t = tidy(&dense(r, 14, true));
            s.open(c, u, t);
            multi |= s.change_ranged(c, r, u) >= 2;
        }
        s.converge()?;
        s.monitor(c)?;
        c.count("texts compared", us.len() as u64);
        if multi {
            c.nontrivial(&s.log);
        }
        s.end(c)
    });
}

/// Documents of millions of bytes.
fn huge_documents(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let filler = |r: &mut Rng, bytes: usize| {
        let mut t = String::new();
        while t.len() < bytes {
            let k = r.range(1, 40_000);
            t.push_str(&" ".repeat(k));
            t.push_str("// ");
            t.push_str(&r.pick(&["x", "é", "😀"]).repeat(k));
            t.push_str(if r.chance(1, 3) { "\r\n" } else { "\n" });
        }
        t
    };
    c.input("");
    let mut s = Sim::new(r, false);
    let u = uri(r, 0);
    let head = dense(r, 6, true);
    let bytes = *r.pick(&[1 << 16, 1 << 20, 1 << 21, 1 << 22]) + r.below(1000);
    let t = tidy(&format!("{}\n{}\n{}", head, filler(r, bytes), dense(r, 6, true)));
    s.open(c, &u, t);
    s.converge()?;
    for _ in 0..2 {
        s.change_ranged(c, r, &u);
        s.converge()?;
    }
    c.max("bytes of a text", s.book.docs[&u].text.len() as u64);
    c.count("huge texts compared", 3);
    s.monitor(c)?;
    c.nontrivial(&format!("huge {} {}", u, s.book.docs[&u].text.len()));
    s.end(c)
}

/// Documents of tens of thousands of bytes, lines or columns.
fn long_documents(r: &mut Rng, c: &mut Case, utf8: bool) -> Result<(), String> {
    c.input("");
    let mut s = Sim::new(r, utf8);
    let u = uri(r, 0);
    let t = large(r);
    s.open(c, &u, t);
    s.converge()?;
    for _ in 0..r.range(1, 3) {
        if !utf8 && r.chance(2, 3) {
            s.change_ranged(c, r, &u);
        } else {
            let t = large(r);
            s.change_full(c, &u, t);
        }
        s.converge()?;
        c.count("long texts compared", 1);
        c.max("bytes of a text", s.book.docs[&u].text.len() as u64);
    }
    s.monitor(c)?;
    c.nontrivial(&s.log);
    s.end(c)
}

// P09 -------------------------------------------------------------------------------

pub const P09: Spec = Spec {
    id: "P09",
    run: p09,
    rule: "Histories of up to 60 operations (open, change to other/same/clean text, close, reopen) on up to 12 documents at \
           once, sent in bursts of random length with random pauses and delayed workers; whenever the client pauses, every \
           open document must show exactly the first 128 errors of its text. Non-trivial: a new history in which two \
           documents or more are open at a pause, and at least one of them has errors.",
    assumptions: &[
        "a server that is idle for 20 s while answering requests has nothing left to do",
        "diagnostics of a document that was closed are not judged",
    ],
    budget: (100, 700),
    max_shards: 8,
    at_least: 200,
};

fn p09(ctx: &mut Ctx) {
    // a hundred documents and more
    let n = ctx.scaled(16, 600);
    ctx.cases("many", n, |r, c| {
        c.input("");
        let mut s = Sim::new(r, false);
        let k = r.range(40, 300);
        let us: Vec<String> = (0..k).map(|i| uri(r, i)).collect();
        for u in &us {
            let t = tidy(&dense(r, 8, true));
            s.open(c, u, t);
            if r.chance(1, 40) {
                s.converge()?;
            }
        }
        s.converge()?;
        for _ in 0..r.range(1, 60) {
            let u = r.pick(&us).clone();
            let t = tidy(&dense(r, 8, true));
            if !s.book.docs[&u].open {
                s.open(c, &u, t);
            } else if r.chance(1, 4) {
                s.close(c, &u);
            } else if r.bool() {
                s.change_ranged(c, r, &u);
            } else {
                s.change_full(c, &u, t);
            }
            if r.chance(1, 20) {
                s.converge()?;
            }
        }
        s.converge()?;
        s.monitor(c)?;
        c.count("documents compared", k as u64);
        c.max("documents of one session", k as u64);
        c.nontrivial(&s.log);
        s.end(c)
    });
    let n = ctx.scaled(10_000, 300_000);
    ctx.cases("history", n, |r, c| {
        c.input("");
        let utf8 = r.chance(1, 3);
        let mut s = Sim::new(r, utf8);
        if r.bool() {
            s.hooks.max_done_us.store(*r.pick(&[50, 500, 3000]), SeqCst);
        }
        if r.bool() {
            s.hooks.max_start_us.store(*r.pick(&[50, 500, 3000]), SeqCst);
        }
        let uris: Vec<String> = (0..r.range(1, 12)).map(|i| uri(r, i)).collect();
        let burst = r.range(1, 15);
        let mut interesting = false;
        let mut memory: Vec<String> = vec![];
        for _ in 0..r.range(3, 60) {
            let u = r.pick(&uris).clone();
            let text = if !memory.is_empty() && r.chance(1, 3) {
                r.pick(&memory).clone()
            } else if r.chance(1, 5) {
                String::new()
            } else {
                document(r)
            };
            memory.push(text.clone());
            let open = s.book.docs.get(&u).map_or(false, |d| d.open);
            if !open || r.chance(1, 30) {
                s.open(c, &u, text);
            } else if r.chance(1, 6) {
                s.close(c, &u);
                c.count("closed", 1);
            } else if r.chance(1, 4) && !utf8 && s.book.docs[&u].text.len() < 5000 {
                s.change_ranged(c, r, &u);
            } else {
                s.change_full(c, &u, text);
            }
            if r.chance(1, burst as u32) {
                s.converge()?;
                c.count("pauses", 1);
                let open = s.book.open_uris();
                c.count("documents compared", open.len() as u64);
                interesting |= open.len() >= 2
                    && open.iter().any(|u| s.client.view.get(u).map_or(false, |p| !p.diags.is_empty()));
            } else if r.chance(1, 4) {
                s.client.drain();
            }
        }
        s.converge()?;
        s.monitor(c)?;
        let most = s.client.publishes.iter().map(|p| p.diags.len()).max().unwrap_or(0);
        c.seen("most diagnostics in one publication", most);
        c.seen("interleavings", hash(s.hooks.log().as_bytes()));
        if interesting {
            c.nontrivial(&s.log);
        }
        c.sample(json!({"order of events (o open, c change, x close, S/D task)": s.hooks.log()}));
        s.end(c)
    });
    // texts which differ in little: the same errors but for one word of a message, or an end
    let n = ctx.scaled(4_000, 200_000);
    ctx.cases("siblings", n, |r, c| {
        c.input("");
        let utf8 = r.chance(1, 3);
        let mut s = Sim::new(r, utf8);
        let us: Vec<String> = (0..r.range(1, 2)).map(|i| uri(r, i)).collect();
        for u in &us {
            let t = match r.below(9) {
                0 | 1 => tidy(&dense(r, 20, false)),
                2 | 3 => document(r),
                // as many errors as are shown, about, and more
                4 => {
                    let n = r.range(40, 260);
                    (0..n).map(|_| format!("{} ", r.pick(&["x", ")", "fun", "{", "1", "let"]))).collect()
                }
                _ => {
                    // a program that ends in the middle
                    let p = gen::program(r, 40);
                    let k = r.below(p.toks.len() + 1);
                    gen::render(&p.toks[..k], || " ".into())
                }
            };
            s.open(c, u, t);
        }
        s.converge()?;
        for _ in 0..r.range(3, 10) {
            let u = r.pick(&us).clone();
            let old = s.book.docs[&u].text.clone();
            let t = sibling(r, &old);
            let (a, b) = (s.book.expected(&old), s.book.expected(&t));
            if a != b && a.len() == b.len() && a.len() >= 64 && a[..64] == b[..64] {
                c.count("changes of late errors only", 1);
            }
            if a != b && a.len() == b.len() {
                c.count("changes that keep the number of errors", 1);
                let strip = |v: &[String]| -> Vec<String> { v.iter().map(|x| x.split(' ').next().unwrap_or("").to_string()).collect() };
                if strip(&a) == strip(&b) {
                    c.count("changes of messages only", 1);
                    if a.iter().zip(&b).all(|(x, y)| x.len() == y.len()) {
                        c.count("changes of messages only, to others as long", 1);
                    }
                }
                c.nontrivial(&s.log);
            }
            s.change_full(c, &u, t);
            s.converge()?;
            c.count("documents compared", us.len() as u64);
        }
        s.monitor(c)?;
        s.end(c)
    });
}

/// A text that differs from `text` in a character or two.
fn sibling(r: &mut Rng, text: &str) -> String {
    const SIGNS: &[char] = &['(', ')', '{', '}', ';', ',', ':', '=', '&', '<', '>', '#', ' ', '1', 'x'];
    let mut t: Vec<char> = text.chars().collect();
    if t.is_empty() {
        return (*r.pick(SIGNS)).to_string();
    }
    // what has to be closed, and how
    let openers: Vec<usize> = (0..t.len()).filter(|&i| "({<".contains(t[i])).collect();
    if !openers.is_empty() && r.bool() {
        let i = openers[openers.len() - 1 - r.below(openers.len().min(3))];
        t[i] = *r.pick(&['(', '{', '<', ',', ':']);
        return tidy(&t.into_iter().collect::<String>());
    }
    for _ in 0..r.range(1, 2) {
        let i = r.below(t.len());
        // most often at a place where there is a sign already
        let i = (i..t.len()).find(|&i| t[i].is_ascii_punctuation()).filter(|_| r.chance(3, 4)).unwrap_or(i);
        t[i] = *r.pick(SIGNS);
    }
    tidy(&t.into_iter().collect::<String>())
}

// P10 -------------------------------------------------------------------------------

pub const P10: Spec = Spec {
    id: "P10",
    run: p10,
    rule: "Bursts of changes while the workers' results are held back at a gate (hook TaskDone) and let go one by one in a \
           random order, or delayed at random, with answered requests in between; each publication must be for a text not \
           older than the last one the server is known to have handled, and for the version it names; without a version only when the document may be closed. Non-trivial: a new \
           order of events (sends, task starts, holds, releases) in which two results or more were held at once.",
    assumptions: &["an answered request proves that all earlier messages were handled (the main loop handles them in order)"],
    budget: (100, 700),
    max_shards: 8,
    at_least: 100,
};

fn p10(ctx: &mut Ctx) {
    let n = ctx.scaled(5000, 150_000);
    ctx.cases("gate", n, |r, c| {
        c.input("");
        let utf8 = r.chance(1, 4);
        let mut s = Sim::new(r, utf8);
        let uris: Vec<String> = (0..r.range(1, 3)).map(|i| uri(r, i)).collect();
        let mut most = 0;
        for _ in 0..r.range(1, 4) {
            s.hooks.close_gate();
            s.hooks.note('[');
            for _ in 0..r.range(1, 6) {
                let u = r.pick(&uris).clone();
                let t = dense(r, 8, false);
                let t = if utf8 { t } else { tidy(&t) };
                let open = s.book.docs.get(&u).map_or(false, |d| d.open);
                if !open || r.chance(1, 12) {
                    s.open(c, &u, t);
                } else if r.chance(1, 8) {
                    s.close(c, &u);
                } else {
                    s.change_full(c, &u, t);
                }
                if r.chance(2, 3) {
                    s.client.barrier()?;
                    s.hooks.note('b');
                    // give the task time to come to the gate; not needed for the verdict
                    for _ in 0..20 {
                        let (a, b) = s.hooks.counts();
                        if a == b + s.hooks.held() as u64 {
                            break;
                        }
                        std::thread::sleep(Duration::from_micros(100));
                    }
                }
            }
            let held = s.hooks.held();
            most = most.max(held);
            c.seen("results held at once", held);
            // let them go in a random order
            let mut left = held;
            while left > 0 {
                let i = r.below(left);
                s.hooks.release(i);
                for _ in 0..200 {
                    if s.hooks.held() < left {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(20));
                }
                left -= 1;
                if r.bool() {
                    s.client.barrier()?;
                    s.monitor(c)?;
                }
            }
            s.hooks.note(']');
            s.hooks.open_gate();
            s.client.barrier()?;
            s.monitor(c)?;
            if r.bool() {
                s.converge()?;
            }
        }
        s.converge()?;
        s.monitor(c)?;
        let log = s.hooks.log();
        c.seen("interleavings", hash(log.as_bytes()));
        if most >= 2 {
            c.nontrivial(&log);
        }
        c.sample(json!({"order of events": log}));
        s.end(c)
    });
    let n = ctx.scaled(5000, 150_000);
    ctx.cases("delay", n, |r, c| {
        c.input("");
        let mut s = Sim::new(r, false);
        s.hooks.max_done_us.store(*r.pick(&[0, 100, 1000, 4000]), SeqCst);
        s.hooks.max_start_us.store(*r.pick(&[0, 100, 1000]), SeqCst);
        let uris: Vec<String> = (0..r.range(1, 4)).map(|i| uri(r, i)).collect();
        for _ in 0..r.range(2, 25) {
            let u = r.pick(&uris).clone();
            let t = tidy(&dense(r, 12, false));
            let open = s.book.docs.get(&u).map_or(false, |d| d.open);
            if !open || r.chance(1, 12) {
                s.open(c, &u, t);
            } else if r.chance(1, 8) {
                s.close(c, &u);
            } else if r.chance(1, 3) {
                s.change_ranged(c, r, &u);
            } else {
                s.change_full(c, &u, t);
            }
            match r.below(6) {
                0 => {
                    s.client.barrier()?;
                    s.hooks.note('b');
                }
                1 => std::thread::sleep(Duration::from_micros(r.next() % 2000)),
                2 => s.client.drain(),
                _ => (),
            }
        }
        s.converge()?;
        s.monitor(c)?;
        c.seen("interleavings", hash(s.hooks.log().as_bytes()));
        s.end(c)
    });
}

// P11 -------------------------------------------------------------------------------

pub const P11: Spec = Spec {
    id: "P11",
    run: p11,
    rule: "Documents with wide characters before and inside of errors and with both kinds of line ends, opened by a client \
           that offers utf-8, nothing, or other encodings; each range shown is compared with one counted in the client's \
           text in that encoding. Non-trivial: a new (text, encoding) for which the two encodings give different ranges.",
    assumptions: &["\\r occurs only before \\n", "without utf-8 in the client's offsetEncoding, positions count UTF-16 units"],
    budget: (100, 600),
    max_shards: 8,
    at_least: 200,
};

fn p11(ctx: &mut Ctx) {
    let n = ctx.scaled(5000, 150_000);
    ctx.cases("texts", n, |r, c| {
        c.input("");
        let offer: Option<Vec<String>> = match r.below(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec!["utf-16".into()]),
            3 => Some(vec!["utf-8".into()]),
            4 => Some(vec!["utf-8".into(), "utf-16".into()]),
            _ => Some(vec!["utf-32".into(), "utf-16".into(), "utf-8".into()]),
        };
        let utf8 = offer.iter().flatten().any(|x| x == "utf-8");
        let hooks = Hooks::install(1);
        let mut caps = caps_utf16();
        caps.offset_encoding = offer.clone();
        let mut s = Sim {
            client: Client::start(caps),
            book: Book { docs: BTreeMap::new(), utf8, cache: HashMap::new() },
            version: 0,
            hooks,
            checked: 0,
            at: HashMap::new(),
            rng: Rng::new(r.next()),
            log: format!("offset encodings {:?}", offer),
        };
        c.append_input(&s.log.clone());
        c.seen("offers", format!("{:?}", offer));
        let u = uri(r, 0);
        let mut open = false;
        for _ in 0..r.range(1, 8) {
            let t = match r.below(3) {
                0 => tidy(&super::text::wide_text(r, 80)),
                1 => {
                    let crlf = r.bool();
                    tidy(&dense(r, 30, crlf))
                }
                _ => document(r),
            };
            if expected(&t, true) != expected(&t, false) {
                c.nontrivial(&format!("{}{}", utf8, t));
                c.count("texts for which the encodings differ", 1);
            }
            if t.contains("\r\n") {
                c.count("texts with \\r\\n", 1);
            }
            if open {
                s.change_full(c, &u, t);
            } else {
                s.open(c, &u, t);
                open = true;
            }
            s.converge()?;
        }
        s.monitor(c)?;
        c.count("diagnostics compared", s.client.publishes.iter().map(|p| p.diags.len() as u64).sum());
        c.sample(json!({"offer": offer, "text": s.book.docs[&u].text}));
        s.end(c)
    });
    let n = ctx.scaled(120, 12_000);
    ctx.cases("long", n, |r, c| {
        let utf8 = r.bool();
        long_documents(r, c, utf8)
    });
}

// P12 -------------------------------------------------------------------------------

pub const P12: Spec = Spec {
    id: "P12",
    run: p12,
    rule: "Sequences of requests (known and unknown methods, number and string ids, ids used again after their answer, \
           cancelled or not) mixed with document work, delayed workers, then shutdown, more requests, and exit or a lost \
           connection; each request must get exactly one answer of the right kind, nothing else may be answered, and the \
           server must end. Non-trivial: a new sequence with ten requests or more, one at least after shutdown.",
    assumptions: &["the server serves no request but shutdown, as its capabilities say"],
    budget: (100, 500),
    max_shards: 8,
    at_least: 200,
};

fn p12(ctx: &mut Ctx) {
    use lsp_server::{Message, Request, RequestId};
    let n = ctx.scaled(10_000, 300_000);
    ctx.cases("requests", n, |r, c| {
        c.input("");
        let hooks = Hooks::install(r.next());
        hooks.max_done_us.store(*r.pick(&[0, 100, 2000]), SeqCst);
        let mut caps = if r.bool() { caps_utf16() } else { caps_utf8() };
        let reg = r.below(4);
        if reg > 0 {
            caps.text_document = serde_json::from_value(json!({"synchronization": {
                "didSave": reg != 1, "dynamicRegistration": reg != 2}}))
            .unwrap();
        }
        let mut cl = Client::start(caps);
        let mut log = String::new();
        // (id, after shutdown?, is it shutdown?)
        let mut asked: Vec<(RequestId, bool, bool)> = vec![];
        let mut down = false;
        let mut version = 0;
        let mut open = false;
        let mut fresh = 0;
        const METHODS: &[&str] = &[
            "textDocument/hover", "textDocument/completion", "workspace/symbol", "foo/bar", "verif/x", "$/unknown", "",
            "$", "é", "日/", "x", "SHUTDOWN", "exit", "textDocument/didOpen", "initialize", "experimental/moveItem", "shutdown ", "Shutdown", "workspace/executeCommand",
        ];
        for _ in 0..r.range(4, 40) {
            match r.below(10) {
                0..=4 => {
                    let answered: Vec<RequestId> = cl.responses.iter().map(|x| x.id.clone()).collect();
                    let id: RequestId = if !answered.is_empty() && r.chance(1, 6) {
                        // an id is free again once it is answered
                        let id = r.pick(&answered).clone();
                        let outstanding = asked.iter().filter(|a| a.0 == id).count()
                            != answered.iter().filter(|a| **a == id).count();
                        if outstanding {
                            continue;
                        }
                        id
                    } else {
                        fresh += 1;
                        match r.below(3) {
                            0 => RequestId::from(format!("{}{}", r.pick(&["", "x-", "é"]), fresh)),
                            1 => RequestId::from(-(fresh as i32)),
                            _ => RequestId::from(fresh as i32 + 100_000),
                        }
                    };
                    let shutdown = r.chance(1, 12);
                    let method = if shutdown { "shutdown" } else { *r.pick(METHODS) };
                    let params = if shutdown {
                        Value::Null
                    } else {
                        r.pick(&[json!(null), json!({}), json!([1, "é"]), json!({"textDocument": {"uri": "file:///a.move"}})])
                            .clone()
                    };
                    log.push_str(&format!("\nrequest {} {} {}", id, method, params));
                    c.append_input(&format!("\nrequest {} {} {}", id, method, params));
                    asked.push((id.clone(), down, shutdown));
                    cl.send(Message::Request(Request { id: id.clone(), method: method.into(), params }));
                    down |= shutdown;
                    if r.chance(1, 5) {
                        // an impatient client
                        let v = serde_json::to_value(&id).unwrap();
                        log.push_str(" cancelled");
                        c.append_input(" cancelled");
                        cl.notify("$/cancelRequest", json!({ "id": v }));
                    }
                }
                5 => {
                    let v = r.pick(&[json!(7), json!("nobody"), json!(-1)]).clone();
                    c.append_input(&format!("\ncancel {}", v));
                    cl.notify("$/cancelRequest", json!({ "id": v }));
                }
                6 | 7 => {
                    version += 1;
                    let t = dense(r, 10, false);
                    c.append_input(&format!("\nopen/change {:?}", t));
                    if open {
                        cl.change_full("file:///a.move", version, &t);
                    } else {
                        cl.open("file:///a.move", version, &t);
                        open = true;
                    }
                }
                8 => cl.drain(),
                _ => {
                    let m = *r.pick(&["initialized", "$/setTrace", "workspace/didChangeConfiguration", "foo/bar", "", "é", "shutdown", "Exit"]);
                    c.append_input(&format!("\nnotify {}", m));
                    cl.notify(m, json!({}));
                }
            }
        }
        if !down && r.chance(3, 4) {
            let id = cl.request("shutdown", Value::Null);
            log.push_str("\nshutdown");
            c.append_input("\nshutdown");
            asked.push((id, false, true));
            down = true;
            for _ in 0..r.range(0, 3) {
                let id = cl.request(*r.pick(METHODS), json!({}));
                asked.push((id, true, false));
                log.push_str("\none more");
            }
        }
        // all answers
        let want = asked.len();
        cl.wait("requests are not answered", |cl| cl.responses.len() >= want)?;
        // the end
        let ending = if down { r.below(3) } else { 0 };
        match ending {
            0 => {
                if !down && r.bool() {
                    // not polite, but it has to end
                    c.append_input("\nexit without shutdown");
                    cl.notify("exit", Value::Null);
                    c.count("exits without shutdown", 1);
                    match cl.join() {
                        Err(e) if e.starts_with("server ended with an error") => (),
                        x => x?,
                    }
                } else if !down {
                    c.append_input("\nconnection lost");
                    cl.hang_up();
                    match cl.join() {
                        Err(e) if e.starts_with("server ended with an error") => (),
                        Err(e) => return Err(e),
                        Ok(()) => return Err("the connection was lost and the server calls it a success".into()),
                    }
                } else {
                    c.append_input("\nexit");
                    cl.notify("exit", Value::Null);
                    cl.join()?;
                }
            }
            1 => {
                // exit right behind more work
                cl.change_full("file:///a.move", version + 1, "module { é");
                cl.notify("exit", Value::Null);
                cl.join()?;
            }
            _ => {
                cl.notify("initialized", json!({}));
                cl.notify("exit", Value::Null);
                cl.join()?;
            }
        }
        hooks::uninstall();
        // the record: exactly one answer for each
        let mut left = cl.responses.clone();
        if left.len() != asked.len() {
            return Err(format!("{} requests, {} answers", asked.len(), left.len()));
        }
        for (id, after, shutdown) in &asked {
            let Some(k) = left.iter().position(|x| x.id == *id) else {
                return Err(format!("request {} has no answer", id));
            };
            let a = left.remove(k);
            let code = a.error.as_ref().map(|e| e.code);
            if a.result.is_some() == a.error.is_some() && !(a.result.is_none() && a.error.is_none() && *shutdown) {
                return Err(format!("the answer to {} has both, or neither, of result and error", id));
            }
            let want = if *after {
                Some(-32600)
            } else if *shutdown {
                None
            } else {
                Some(-32601)
            };
            if code != want {
                return Err(format!("request {} was answered with error {:?}, not {:?}", id, code, want));
            }
            c.count(&format!("answers with error code {:?}", code), 1);
        }
        // what the server asked the client
        let regs: Vec<_> = cl.server_requests.iter().map(|q| q.method.clone()).collect();
        let should: &[&str] = if reg == 3 { &["client/registerCapability"] } else { &[] };
        if regs != should {
            return Err(format!("the server's requests are {:?}, {:?} expected (case {})", regs, should, reg));
        }
        c.count("requests", asked.len() as u64);
        if asked.len() >= 10 && asked.iter().any(|a| a.1) {
            c.nontrivial(&log);
        }
        c.sample(json!({"sequence": log.chars().take(500).collect::<String>()}));
        Ok(())
    });
}

// P13 -------------------------------------------------------------------------------

pub const P13: Spec = Spec {
    id: "P13",
    run: p13,
    rule: "Histories with things clients do now and then: documents opened twice, changed or closed without being open, \
           documents that are not files, unknown notifications, useless cancellations, unasked responses, changes without content, versions \
           that jump, empty and huge documents, deep nesting, spelled-differently URIs, odd and look-alike methods, edits with \
           ranges outside of the document or turned round; in between a well-behaved document \
           must go on showing what it has to, and the server must end well. Non-trivial: a new history with five odd \
           things or more.",
    assumptions: &["messages are well-formed JSON of the types the protocol gives"],
    budget: (100, 600),
    max_shards: 8,
    at_least: 200,
};

/// Ranges which are not in the document: what the text is then is not said, but everything goes on.
fn outside(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    c.input("");
    let mut s = Sim::new(r, false);
    let good = "file:///good/doc.move".to_string();
    let odd = "file:///odd/out.move".to_string();
    let t = document(r);
    s.open(c, &good, t);
    let mut text = document(r);
    s.version += 1;
    let v = s.version;
    s.note(c, format!("\nopen {} {:?}", odd, text));
    s.client.open(&odd, v, &text);
    for _ in 0..r.range(1, 12) {
        if r.chance(1, 4) {
            text = document(r);
            s.version += 1;
            let v = s.version;
            s.note(c, format!("\nwhole text {:?}", text));
            s.client.change_full(&odd, v, &text);
        }
        let lines: Vec<&str> = text.split('\n').collect();
        let mut position = |r: &mut Rng| {
            let line = match r.below(5) {
                0 | 1 => r.below(lines.len()),
                2 => lines.len() + r.below(3) - 1,
                3 => r.range(0, 40),
                _ => *r.pick(&[1 << 16, (1 << 31) - 1, u32::MAX as usize - 1, u32::MAX as usize]),
            };
            let width = lines.get(line).map_or(0, |l| l.encode_utf16().count());
            let character = match r.below(5) {
                0 | 1 => r.range(0, width),
                2 => width + r.below(3),
                3 => text.len() + r.below(3),
                _ => *r.pick(&[1 << 16, (1 << 31) - 1, u32::MAX as usize - 1, u32::MAX as usize]),
            };
            json!({"line": line, "character": character})
        };
        let n = r.range(1, 3);
        let changes: Vec<Value> = (0..n)
            .map(|_| {
                let (start, end) = (position(r), position(r));
                json!({"range": {"start": start, "end": end}, "text": *r.pick(&["", "x", "\n", "é\n😀", "module M {", "#\r\n"])})
            })
            .collect();
        s.version += 1;
        let v = s.version;
        s.note(c, format!("\nchange {}", json!(changes)));
        s.client.change(&odd, v, changes);
        c.count("ranges that may be outside of the document", n as u64);
        if r.chance(1, 3) {
            let t = document(r);
            s.change_full(c, &good, t);
        }
        if r.chance(1, 3) {
            s.converge()?;
        }
    }
    s.converge()?;
    // and it is a document like all others once its text is known again
    let t = document(r);
    s.open(c, &odd, t);
    s.converge()?;
    c.nontrivial(&s.log);
    s.end(c)
}

fn p13(ctx: &mut Ctx) {
    let n = ctx.scaled(1500, 60_000);
    ctx.cases("outside", n, outside);
    let n = ctx.scaled(8000, 200_000);
    ctx.cases("odd", n, |r, c| {
        c.input("");
        let utf8 = r.chance(1, 4);
        let mut s = Sim::new(r, utf8);
        s.hooks.max_done_us.store(*r.pick(&[0, 100, 1000]), SeqCst);
        let good = "file:///good/doc.move".to_string();
        let t = document(r);
        s.open(c, &good, t);
        const URIS: &[&str] = &[
            "file:///odd/a.move", "file:///odd/b.move", "file:///odd/a%2Emove", "file:///odd/x/../a.move", "untitled:Untitled-1",
            "git:/odd/a.move?ref", "file:///odd/", "file:///", "file:///odd/%F0%9F%98%80.move", "file:///odd/%FF.move",
            "http://example.com/a.move", "file://host/share/a.move", "file:///odd/a.move#frag", "file:///odd/a.move?q=1",
            "inmemory://model/1", "FILE:///odd/Upper.MOVE", "file:///odd/Dove.toml", "file:///c%3A/x.move", "file:///odd//a.move",
            "file:///%00.move",
            // what is like the good one, but another document or none
            "file://host/good/doc.move", "untitled:/good/doc.move", "git:/good/doc.move?HEAD", "http://good/doc.move",
            "file:///good/Doc.move", "file:///good/doc.mov", "untitled:///good/doc.move",
            "vscode-notebook-cell:/good/doc.move#1", "x-file:///good/doc.move", "file:///good/doc.move.orig",
        ];
        let mut odd = 0;
        for _ in 0..r.range(5, 40) {
            let u = *r.pick(URIS);
            s.version += 1;
            let v = s.version;
            let op = r.below(15);
            s.note(c, format!("\nodd {} {}", op, u));
            odd += 1;
            match op {
                0..=2 => {
                    let t = document(r);
                    s.note(c, format!(" {:?}", t));
                    s.client.open(u, v, &t);
                }
                3 | 4 => {
                    s.client.close(u);
                }
                5 => {
                    let t = document(r);
                    s.note(c, format!(" {:?}", t));
                    s.client.change_full(u, v, &t);
                }
                6 => {
                    s.client.change(u, v, vec![]);
                }
                7 => {
                    let m = *r.pick(&[
                        "initialized", "$/setTrace", "$/whatever", "workspace/didChangeConfiguration", "foo/bar",
                        "workspace/didChangeWatchedFiles", "textDocument/willSave", "textDocument/didSave", "telemetry/event",
                        "window/workDoneProgress/cancel", "", "$", "$/", "é", "日", "/", "exit ", "Exit", "x", "\u{0}", "$/é",
                        // looks like one that is served
                        "textDocument/didchange", "TextDocument/didChange", "textDocument/didChange ", "textDocument/didClosed",
                    ]);
                    let p = match m {
                        _ if m.to_lowercase().starts_with("textdocument/didc") && r.bool() => {
                            s.version += 1;
                            json!({"textDocument": {"uri": good, "version": s.version}, "contentChanges": [{"text": "# not this #"}]})
                        }
                        "window/workDoneProgress/cancel" => json!({"token": "t"}),
                        "textDocument/didSave" => json!({"textDocument": {"uri": u}}),
                        _ => r.pick(&[json!({}), json!(null), json!([1])]).clone(),
                    };
                    s.note(c, format!(" {} {}", m, p));
                    s.client.notify(m, p);
                }
                8 => {
                    let id = r.pick(&[json!(1), json!("x"), json!(2147483647)]).clone();
                    s.client.notify("$/cancelRequest", json!({ "id": id }));
                }
                9 => {
                    // once more, though open
                    let t = document(r);
                    s.open(c, &good, t);
                }
                10 => {
                    s.version += r.range(0, 1000) as i64;
                    let t = document(r);
                    s.change_full(c, &good, t);
                }
                11 => {
                    // no change at all
                    s.version += 1;
                    let v = s.version;
                    s.client.change(&good, v, vec![]);
                    let sent = s.client.sent;
                    let d = s.book.docs.get_mut(&good).unwrap();
                    let t = d.text.clone();
                    d.hist.push((sent, v, t));
                }
                12 => {
                    let t = match r.below(4) {
                        0 => "(".repeat(r.range(1, 3000)),
                        1 => "module M { fun f() { ".to_string() + &"{".repeat(r.range(1, 2000)),
                        2 => "# ".repeat(r.range(1, 3000)),
                        _ => format!("/*{}", "é\n".repeat(r.range(1, 3000))),
                    };
                    s.change_full(c, &good, t);
                }
                13 => {
                    // an answer nobody asked for, or a second one
                    let id = r.pick(&[json!(0), json!(1), json!(-7), json!("no such request"), json!(2147483647)]).clone();
                    let error = if r.bool() { json!({"code": -32601, "message": "é"}) } else { Value::Null };
                    s.note(c, format!(" response {} {}", id, error));
                    s.client.send(lsp_server::Message::Response(lsp_server::Response {
                        id: serde_json::from_value(id).unwrap(),
                        result: error.is_null().then(|| json!({"a": 1})),
                        error: serde_json::from_value(error).unwrap(),
                    }));
                }
                _ => {
                    let m = *r.pick(&["textDocument/hover", "", "$", "é", "$/x", "日本/é", "textDocument/didOpen", "/"]);
                    s.note(c, format!(" {}", m));
                    s.client.request(m, json!({"textDocument": {"uri": u}}));
                }
            }
            if r.chance(1, 5) {
                s.converge()?;
                c.count("pauses", 1);
            }
        }
        s.converge()?;
        // only the good document is judged
        s.client.publishes.retain(|p| p.uri == good);
        s.monitor(c)?;
        c.count("odd things done", odd);
        if odd >= 5 {
            c.nontrivial(&s.log);
        }
        c.sample(json!({"history": s.log.chars().take(500).collect::<String>()}));
        s.end(c)
    });
}

/// A session of a few messages, for Miri.
pub fn short_session(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let mut s = Sim::new(r, false);
    let us: Vec<String> = (0..2).map(|i| format!("file:///s{}.move", i)).collect();
    for _ in 0..r.range(3, 6) {
        let u = r.pick(&us).clone();
        let crlf = r.chance(2, 3);
        let t = tidy(&dense(r, 8, crlf));
        if !s.book.docs.get(&u).map_or(false, |d| d.open) {
            s.open(c, &u, t);
        } else if r.chance(1, 5) {
            s.close(c, &u);
        } else if r.bool() {
            s.change_ranged(c, r, &u);
        } else {
            s.change_full(c, &u, t);
        }
        if r.chance(1, 3) {
            s.client.barrier()?;
        }
    }
    s.converge()?;
    s.monitor(c)?;
    c.nontrivial(&s.log);
    s.end(c)
}

/// A session with texts and ranges that the specification does not speak of: carriage
/// returns of their own, ends of texts at any byte of what is allocated. Only for
/// sanitizers: nothing is said about what is published.
pub fn rough_session(r: &mut Rng, c: &mut Case, steps: usize) -> Result<(), String> {
    const PARTS: &[&str] = &["\r", "\r\n", "\n", "\n\r", "a", "é", "日", "😀", "@", "0x", "b\"", "\"", "/*", "//", "\\", "::", " "];
    let hooks = Hooks::install(r.next());
    let mut cl = Client::start(if r.chance(1, 3) { caps_utf8() } else { caps_utf16() });
    let mut log = String::new();
    let mut opened = [false; 3];
    for version in 1..=steps {
        let u = r.below(3);
        let uri = format!("file:///r{}.move", u);
        let size = *r.pick(&[3, 8, 20, 60]);
        let mut text = String::new();
        for _ in 0..r.range(0, size) {
            text.push_str(*r.pick(PARTS));
        }
        if r.chance(2, 3) {
            text.push_str(*r.pick(&["\r", "\r\n\r", "x\r", "\n\r", "\r\r"]));
        }
        log.push_str(&format!("\n{} {:?}", u, text));
        if !opened[u] {
            opened[u] = true;
            cl.open(&uri, version as i64, &text);
        } else if r.chance(1, 8) {
            opened[u] = false;
            cl.close(&uri);
        } else if r.bool() {
            cl.change_full(&uri, version as i64, &text);
        } else {
            let changes: Vec<Value> = (0..r.range(1, 4))
                .map(|_| {
                    let mut at = || json!({"line": r.below(5), "character": r.below(12)});
                    let (start, end) = (at(), at());
                    let new = *r.pick(&["", "\r", "\n", "\r\n", "é\r", "x"]);
                    log.push_str(&format!(" {} {} {:?}", start, end, new));
                    json!({"range": {"start": start, "end": end}, "text": new})
                })
                .collect();
            cl.change(&uri, version as i64, changes);
        }
        c.input(&log);
        if r.chance(1, 3) {
            cl.barrier()?;
        }
    }
    cl.barrier()?;
    c.nontrivial(&log);
    cl.finish()?;
    drop(hooks);
    hooks::uninstall();
    Ok(())
}
