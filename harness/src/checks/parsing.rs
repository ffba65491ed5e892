//! The lexer and the parser.
use super::Spec;
use crate::ctx::{Case, Ctx, Tier};
use crate::gen::{self, Tk};
use crate::reflex;
use crate::refparse;
use crate::rng::Rng;
use crate::tree;
use serde_json::json;
use std::collections::HashSet;
use std::time::Duration;

// P01 -------------------------------------------------------------------------------

pub const P01: Spec = Spec {
    id: "P01",
    run: p01,
    rule: "Texts: character soup, token soup, programs with changed tokens or characters, every prefix of a program, \
           very deep nesting (up to 200 000 levels), very long chains and lists, one construct repeated at one place. \
           Each is parsed on a thread with a 2 MB stack. Non-trivial: a text that has not been parsed before, of two \
           tokens or more.",
    assumptions: &[
        "a parse that uses more than 60 s (20 s for generated stress texts below 300 KB) of processor time does not end",
        "2 MB is the stack of the threads on which the server parses",
    ],
    budget: (60, 900),
    max_shards: 8,
    at_least: 500,
};

/// On a thread with the stack of the server's worker threads.
fn on_small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    std::thread::Builder::new()
        .name("parse-2MB".into())
        .stack_size(2 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .map_err(|_| format!("the parser panicked: {:?}", crate::panics::take()))
}

fn parse_survives(text: &str) -> Result<(usize, usize), String> {
    let t = text.to_string();
    let (len, errs) = on_small_stack(move || {
        let p = syntax::SourceFile::parse(&t);
        // walking and dropping the tree is what the server does with it
        let n = p.syntax_node().descendants_with_tokens().count();
        let errs = p.errors().len();
        let len = usize::from(p.syntax_node().text_range().end());
        let _ = n;
        (len, errs)
    })?;
    if len != text.len() {
        return Err(format!("the tree covers {} of {} bytes", len, text.len()));
    }
    Ok((len, errs))
}

const NESTS: &[(&str, &str, &str, &str)] = &[
    // name, before, opener, closer
    ("paren", "module M { fun f() { ", "(", ")"),
    ("block", "module M { fun f() { ", "{", "}"),
    ("call", "module M { fun f() { ", "f(", ")"),
    ("record", "module M { fun f() { ", "S { a: ", "}"),
    ("not", "module M { fun f() { ", "!", ""),
    ("minus", "module M { fun f() { ", "-", ""),
    ("deref", "module M { fun f() { ", "* ", ""),
    ("assign", "module M { fun f() { ", "a = (", ")"),
    ("tuple pattern", "module M { fun f() { let ", "(", ")"),
    ("record pattern", "module M { fun f() { let ", "S { a: ", "}"),
    ("reference", "module M { fun f(a: ", "&", ""),
    ("mutable reference", "module M { fun f(a: ", "&mut ", ""),
    ("let block", "module M { fun f() { ", "{ let a = ", "}"),
    ("mixed", "module M { fun f() { ", "(S { a: { f(!", ")}})"),
    ("module", "", "module M { ", "}"),
    ("address", "", "address 0x1 { ", "}"),
    ("generic", "module M { struct S", "<T: ", ">"),
    ("bracket", "module M { fun f() { ", "[", "]"),
    ("fun", "module M { ", "fun f() { ", "}"),
    ("list of parens", "module M { fun f() { ", "(a, ", ")"),
    ("args", "module M { fun f() { ", "f(a, b, ", ")"),
];

const REPEATS: &[(&str, &str)] = &[
    ("module M { fun f() { a", " + a"),
    ("module M { fun f() { a", " = a"),
    ("module M { fun f() { a", " * a + a"),
    ("module M { fun f() { a", ".b"),
    ("module M { fun f() { a", "()"),
    ("module M { fun f() { a", "::b"),
    ("module M { fun f() { a", " < a"),
    ("module M { fun f() { a", ";"),
    ("module M { fun f() { ", "a "),
    ("module M { fun f() { ", "a;"),
    ("module M { fun f() { ", "let a = 1;"),
    ("module M { fun f() { ", "let "),
    ("module M { fun f() { ", "let ("),
    ("module M { fun f() { ", ";"),
    ("module M { fun f() { ", "}"),
    ("module M { fun f() { ", ")"),
    ("module M { fun f() { ", ","),
    ("module M { fun f() { (", ","),
    ("module M { fun f() { f(", "a,"),
    ("module M { fun f() { f(", "a "),
    ("module M { fun f() { S {", "a: 1,"),
    ("module M { fun f() { S {", "a "),
    ("module M { fun f() { S {", ","),
    ("module M { fun f() { let S {", "a "),
    ("module M { fun f() { let (", "a,"),
    ("module M { fun f() { let (", ","),
    ("module M { fun f(", "a: u8,"),
    ("module M { fun f(", "a "),
    ("module M { fun f(", ","),
    ("module M { fun f(", ": "),
    ("module M { ", "fun "),
    ("module M { ", "fun f "),
    ("module M { ", "struct "),
    ("module M { ", "struct S "),
    ("module M { struct S<", "T,"),
    ("module M { struct S<", "T: a + "),
    ("module M { struct S<", ","),
    ("module M { struct S<T: a", " + a"),
    ("module M { struct S {", "a: u8,"),
    ("module M { struct S {", "a "),
    ("module M { struct S {", ":"),
    ("", "module "),
    ("", "module M "),
    ("", "module M;"),
    ("", "module 0x1::"),
    ("", "script "),
    ("", "address "),
    ("address 0x1 { ", "module "),
    ("address 0x1 { ", "x "),
    ("", "}"),
    ("", "{"),
    ("", "("),
    ("", "x "),
    ("", "é"),
    ("", "$"),
    ("", "\""),
    ("", "b\""),
    ("", "b\"\n"),
    ("", "//\n"),
    ("", "// x"),
    ("", " "),
    ("", "\n"),
    ("", "\r"),
    ("", "\r\n"),
    ("", "&"),
    ("", "<"),
    ("", "="),
    ("", ":"),
    ("", "."),
    ("", "0x"),
    ("", "0"),
    ("", "a"),
    ("", "@"),
    ("", "/"),
    ("", "\u{0}"),
    ("module M { fun f() { @", "@"),
    ("module M { fun f() { a", ". "),
    ("module M { fun f() { a", ":: "),
    ("module M { fun f() { a", "::*"),
    ("module M { fun f() { a", "::{"),
    ("module M { fun f() { a", "-> "),
    ("module M { fun f(): ", "&"),
    ("module M { fun f(): ", "a::"),
];

fn p01(ctx: &mut Ctx) {
    // deterministic stress texts
    let mut stress: Vec<(String, String)> = vec![];
    for &(name, before, open, close) in NESTS {
        for depth in [100usize, 250, 260, 1000, 20_000, 200_000] {
            let depth = depth.min(600_000 / open.len().max(1));
            for closed in [true, false] {
                let mut s = before.to_string();
                for _ in 0..depth {
                    s.push_str(open);
                }
                s.push_str(if name.contains("reference") { "u8" } else { "x" });
                if closed {
                    for _ in 0..depth {
                        s.push_str(close);
                    }
                    s.push_str(" } }");
                }
                stress.push((format!("{} {} deep, closed {}", name, depth, closed), s));
            }
        }
    }
    for &(before, unit) in REPEATS {
        for n in [300usize, 30_000, 200_000] {
            let n = (n).min(400_000 / unit.len().max(1));
            let mut s = before.to_string();
            for _ in 0..n {
                s.push_str(unit);
            }
            stress.push((format!("{:?} and {} times {:?}", before, n, unit), s.clone()));
            s.push_str(" } }");
            stress.push((format!("{:?}, {} times {:?} and closed", before, n, unit), s));
        }
    }
    let count = stress.len() as u64;
    ctx.cases("stress", count, |_, c| {
        let (name, text) = &stress[c.n as usize];
        c.input(&format!("{} ({} bytes)", name, text.len()));
        c.cpu_limit(Duration::from_secs(20));
        let (_, errs) = parse_survives(text)?;
        c.count("stress texts parsed", 1);
        c.count("bytes of stress texts", text.len() as u64);
        c.count("errors in stress texts", errs as u64);
        c.nontrivial(name);
        Ok(())
    });
    let n = ctx.scaled(60_000, 3_000_000);
    ctx.cases("text", n, |r, c| {
        let text = gen::any_text(r, 120);
        c.input(&text);
        let (_, errs) = parse_survives(&text)?;
        c.count("texts parsed", 1);
        c.count("bytes", text.len() as u64);
        c.count(if errs > 0 { "texts with errors" } else { "texts without errors" }, 1);
        if reflex::lex_significant(&text).len() >= 2 {
            c.nontrivial(&text);
        }
        c.sample(json!({"text": text, "errors": errs}));
        Ok(())
    });
    // every prefix of a program, and the program without each one of its tokens
    let n = ctx.scaled(200, 10_000);
    ctx.cases("prefixes", n, |r, c| {
        let p = gen::program(r, 60);
        let text = gen::render(&p.toks, || " ".into());
        let mut t = 0;
        let ends: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        for &e in ends.iter().take(1500) {
            c.input(&text[..e]);
            parse_survives(&text[..e])?;
            t += 1;
        }
        for i in 0..p.toks.len().min(400) {
            let mut toks = p.toks.clone();
            toks.remove(i);
            let s = gen::render_loose(r, &toks);
            c.input(&s);
            parse_survives(&s)?;
            t += 1;
        }
        c.count("prefixes and programs without a token", t);
        if t > 2 {
            c.nontrivial(&text);
        }
        Ok(())
    });
    // hostile texts of some size: soup of one small set of fragments
    let n = ctx.scaled(400, 20_000);
    ctx.cases("long soup", n, |r, c| {
        let k = r.range(2, 5);
        let set: Vec<String> = (0..k).map(|_| gen::random_token(r)).collect();
        let len = *r.pick(&[200usize, 2000, 20_000]);
        let mut s = r.pick(&["", "module M { fun f() { ", "module M { ", "script { fun f(", "module M { struct S {"]).to_string();
        for _ in 0..len {
            s.push_str(r.pick(&set));
            if r.chance(3, 4) {
                s.push(' ');
            }
        }
        c.input(&s);
        c.cpu_limit(Duration::from_secs(20));
        parse_survives(&s)?;
        c.count("long soups", 1);
        c.nontrivial(&s);
        Ok(())
    });
}

// P02 -------------------------------------------------------------------------------

pub const P02: Spec = Spec {
    id: "P02",
    run: p02,
    rule: "Texts as for P01. The tree is walked: its leaves, joined, are compared with the text, each leaf and node \
           range with the running position, each error range with the text. Non-trivial: a new text of two tokens or \
           more whose tree has three nodes or more.",
    assumptions: &[],
    budget: (60, 900),
    max_shards: 8,
    at_least: 500,
};

fn p02(ctx: &mut Ctx) {
    let n = ctx.scaled(120_000, 4_000_000);
    ctx.cases("text", n, |r, c| {
        let big = r.chance(1, 50);
        let text = if big {
            let mut s = String::new();
            for _ in 0..r.range(2, 12) {
                s.push_str(&gen::any_text(r, 400));
            }
            s
        } else {
            gen::any_text(r, 120)
        };
        c.input(&text);
        lossless(&text, c)
    });
    let n = ctx.scaled(240, 8000);
    ctx.cases("big", n, |r, c| {
        let text = gen::big_text(r);
        c.input(&text);
        c.count("big texts", 1);
        lossless(&text, c)
    });
    let n = ctx.scaled(300, 5000);
    ctx.cases("deep", n, |r, c| {
        let &(_, before, open, close) = r.pick(NESTS);
        let d = r.range(1, 3000);
        let mut s = before.to_string();
        for _ in 0..d {
            s.push_str(open);
            if r.chance(1, 4) {
                s.push_str(&gen::trivia(r));
            }
        }
        for _ in 0..r.range(0, d) {
            s.push_str(close);
            if r.chance(1, 50) {
                s.push_str(&gen::random_token(r));
            }
        }
        c.input(&s);
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .name("deep".into())
                .stack_size(64 << 20)
                .spawn_scoped(sc, || lossless(&s, c))
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err("panicked".into()))
        })
    });
}

fn lossless(text: &str, c: &mut Case) -> Result<(), String> {
    let p = tree::parse(text);
    if p.facts.text != text {
        return Err(format!("the text of the tree is not the text: {}", tree::diff(&p.facts.text, text)));
    }
    if let Some(b) = p.facts.broken {
        return Err(b);
    }
    for (m, s, e) in &p.errors {
        if s > e || *e > text.len() || !text.is_char_boundary(*s) || !text.is_char_boundary(*e) {
            return Err(format!("error {:?} is at {}..{} of a text of {} bytes", m, s, e, text.len()));
        }
        if m.is_empty() {
            return Err(format!("empty message for the error at {}", s));
        }
    }
    c.count("leaves", p.facts.leaves.len() as u64);
    c.count("nodes", p.facts.nodes as u64);
    c.count("error ranges", p.errors.len() as u64);
    for l in &p.facts.leaves {
        if l.start == l.end {
            c.count("empty leaves", 1);
        }
    }
    if p.facts.leaves.len() >= 3 && p.facts.nodes >= 3 {
        c.nontrivial(text);
    }
    if text.len() < 2000 {
        c.sample(json!({"text": text, "leaves": p.facts.leaves.len(), "nodes": p.facts.nodes, "errors": p.errors.len()}));
    }
    Ok(())
}

// P03 -------------------------------------------------------------------------------

pub const P03: Spec = Spec {
    id: "P03",
    run: p03,
    rule: "Programs are generated as trees and printed with random whitespace and comments; the tree of the parser, \
           without whitespace and comments, must be the tree that was printed, with no error. Non-trivial: a program \
           of ten tokens or more, not seen before.",
    assumptions: &["the language is the one the grammar of this repository implements at the pinned commit, with the repairs listed in known-findings.txt"],
    budget: (60, 900),
    max_shards: 8,
    at_least: 500,
};

fn p03(ctx: &mut Ctx) {
    let n = ctx.scaled(1500, 60_000);
    ctx.cases("tall", n, |r, c| {
        let p = gen::tall_program(r);
        as_printed(p, r, c)
    });
    let n = ctx.scaled(600, 20_000);
    ctx.cases("wide", n, |r, c| {
        let fuel = *r.pick(&[600, 3000]);
        let p = gen::wide_program(r, fuel);
        as_printed(p, r, c)
    });
    let n = ctx.scaled(100_000, 4_000_000);
    ctx.cases("program", n, |r, c| {
        let fuel = *r.pick(&[5, 20, 60, 200, 600]);
        let p = gen::program(r, fuel);
        as_printed(p, r, c)
    });
}

fn as_printed(p: gen::Program, r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let spaced = r.bool();
    let text = gen::render(&p.toks, || if spaced { " ".into() } else { gen::trivia(r) });
    c.input(&text);
    if !gen::consists_of(&text, &p.toks) {
        return Err("ERROR the printed program does not consist of its tokens".into());
    }
    let t = tree::parse(&text);
    if let Some((m, s, _)) = t.errors.first() {
        return Err(format!("well-formed program, but: {:?} at {}", m, s));
    }
    if t.facts.sexpr != p.sexpr {
        return Err(format!("wrong tree: {}", tree::diff(&t.facts.sexpr, &p.sexpr)));
    }
    for f in &p.features {
        c.seen("constructs", f);
    }
    c.count("tokens", p.toks.len() as u64);
    c.seen("levels of a tree, in tens", levels(&p.sexpr) / 10 * 10);
    c.seen("thousands of tokens", p.toks.len() / 1000);
    if p.toks.len() >= 10 {
        c.nontrivial(&text);
    }
    if p.toks.len() < 500 {
        c.sample(json!({"program": text}));
    }
    Ok(())
}

/// How deep the tree is. (Texts of tokens stand between backquotes.)
fn levels(sexpr: &str) -> u64 {
    let (mut depth, mut most, mut text) = (0u64, 0, false);
    for b in sexpr.bytes() {
        match b {
            b'`' => text = !text,
            b'(' if !text => depth += 1,
            b')' if !text => depth -= 1,
            _ => {}
        }
        most = most.max(depth);
    }
    most
}

// P04 -------------------------------------------------------------------------------

pub const P04: Spec = Spec {
    id: "P04",
    run: p04,
    rule: "Programs with tokens removed, added, repeated, swapped or replaced, prefixes, and token soup. A separate \
           recogniser finds the first token that fits no program. If there is one, the parser must report an error, and \
           its first error must lie between the end of the token before and the start of that token; if there is none, \
           it must report none and build the recogniser's tree. Non-trivial: a new text that has an error.",
    assumptions: &[
        "the language is the one the grammar of this repository implements at the pinned commit, with the repairs listed in known-findings.txt",
        "texts nested deeper than 200 are left out",
    ],
    budget: (60, 900),
    max_shards: 8,
    at_least: 500,
};

fn judge(text: &str, c: &mut Case) -> Result<(), String> {
    let toks = reflex::lex_significant(text);
    let want = refparse::parse(text, &toks);
    if want.gave_up {
        c.count("no verdict: too deep", 1);
        return Ok(());
    }
    let got = tree::parse(text);
    match want.error_at {
        None => {
            if let Some((m, s, _)) = got.errors.first() {
                return Err(format!("a program, but: {:?} at {}", m, s));
            }
            if got.facts.sexpr != want.sexpr {
                return Err(format!("wrong tree: {}", tree::diff(&got.facts.sexpr, &want.sexpr)));
            }
            c.count("programs", 1);
        }
        Some(i) => {
            let hi = toks.get(i).map_or(text.len(), |t| t.start);
            let lo = if i == 0 { 0 } else { toks[i - 1].end };
            let what = toks.get(i).map_or("EOF", |t| t.kind);
            let Some((m, s, _)) = got.errors.iter().min_by_key(|e| e.1) else {
                return Err(format!("no error reported, but the {} at {} cannot be there", what, hi));
            };
            if *s < lo || *s > hi {
                return Err(format!(
                    "first error {:?} at {}, but the first token that cannot be there is the {} at {}..{}",
                    m, s, what, lo, hi
                ));
            }
            c.count("texts with an error", 1);
            c.seen("messages", m);
            c.seen("tokens found wrong", what);
            c.nontrivial(text);
            c.sample(json!({"text": text, "first wrong token": what, "at": hi, "error": m}));
        }
    }
    Ok(())
}

fn p04(ctx: &mut Ctx) {
    let n = ctx.scaled(120_000, 4_000_000);
    ctx.cases("changed", n, |r, c| {
        let p = gen::sized_program(r);
        let t = gen::mutate_tokens(r, &p.toks);
        let text = if r.bool() { gen::render_loose(r, &t) } else { gen::render(&t, || gen::trivia(r)) };
        c.input(&text);
        judge(&text, c)
    });
    let n = ctx.scaled(80_000, 3_000_000);
    ctx.cases("soup", n, |r, c| {
        let text = match r.below(4) {
            0 => gen::char_soup(r, 40),
            1 | 2 => gen::token_soup(r, 30),
            _ => gen::any_text(r, 60),
        };
        c.input(&text);
        judge(&text, c)
    });
    // systematically: each token of a program removed, each replaced, one put in at each place
    let n = ctx.scaled(150, 6000);
    ctx.cases("each token", n, |r, c| {
        let p = gen::program(r, 50);
        for i in 0..p.toks.len().min(200) {
            let mut t = p.toks.clone();
            t.remove(i);
            let s = gen::render(&t, || " ".into());
            c.input(&s);
            judge(&s, c)?;
            let mut t = p.toks.clone();
            t[i] = ("?", gen::random_token(r));
            let s = gen::render(&t, || " ".into());
            c.input(&s);
            judge(&s, c)?;
            let mut t = p.toks.clone();
            t.insert(i, ("?", gen::random_token(r)));
            let s = gen::render(&t, || " ".into());
            c.input(&s);
            judge(&s, c)?;
            let t = &p.toks[..i];
            let s = gen::render(t, || " ".into());
            c.input(&s);
            judge(&s, c)?;
        }
        Ok(())
    });
}

// P05 -------------------------------------------------------------------------------

pub const P05: Spec = Spec {
    id: "P05",
    run: p05,
    rule: "One sequence of tokens (of a program, or not) is printed twice with different whitespace and comments. The \
           two trees without whitespace and comments, the error messages, and the tokens at which the errors are, must \
           be the same. Non-trivial: a new pair of different texts of two tokens or more.",
    assumptions: &["an error inside whitespace or comments is at the token that follows"],
    budget: (60, 900),
    max_shards: 8,
    at_least: 500,
};

/// The position as a token index: the number of tokens that end at or before it.
fn token_index(toks: &[reflex::Tok], at: usize) -> Result<usize, String> {
    let before = toks.iter().filter(|t| t.end <= at).count();
    match toks.get(before) {
        Some(t) if t.start < at => Err(format!("error at {} is inside the token {}..{}", at, t.start, t.end)),
        _ => Ok(before),
    }
}

fn p05(ctx: &mut Ctx) {
    let n = ctx.scaled(80_000, 3_000_000);
    ctx.cases("pair", n, |r, c| {
        let toks: Vec<Tk> = match r.below(4) {
            0 => gen::sized_program(r).toks,
            1 | 2 => {
                let p = gen::sized_program(r);
                gen::mutate_tokens(r, &p.toks)
            }
            _ => {
                let s = gen::token_soup(r, 30);
                reflex::lex_significant(&s).iter().map(|t| (t.kind, t.text(&s).to_string())).collect()
            }
        };
        let a = gen::render(&toks, || " ".into());
        let b = gen::render(&toks, || gen::trivia(r));
        c.input(&format!("{}\n=== and ===\n{}", a, b));
        let (ta, tb) = (reflex::lex_significant(&a), reflex::lex_significant(&b));
        let same = ta.len() == tb.len()
            && ta.iter().zip(&tb).all(|(x, y)| x.kind == y.kind && x.text(&a) == y.text(&b));
        if !same {
            // an unterminated byte string takes the rest of its line
            c.count("left out: not the same tokens", 1);
            return Ok(());
        }
        let (pa, pb) = (tree::parse(&a), tree::parse(&b));
        if pa.facts.sexpr != pb.facts.sexpr {
            return Err(format!("different trees: {}", tree::diff(&pa.facts.sexpr, &pb.facts.sexpr)));
        }
        let place = |toks: &[reflex::Tok], e: &[(String, usize, usize)]| -> Result<Vec<(String, usize)>, String> {
            e.iter().map(|(m, s, _)| Ok((m.clone(), token_index(toks, *s)?))).collect()
        };
        let (ea, eb) = (place(&ta, &pa.errors)?, place(&tb, &pb.errors)?);
        if ea != eb {
            let k = ea.iter().zip(&eb).take_while(|(x, y)| x == y).count();
            return Err(format!("different errors: {:?} and {:?}", ea.get(k), eb.get(k)));
        }
        c.count("pairs", 1);
        c.count("errors compared", ea.len() as u64);
        if a != b && ta.len() >= 2 {
            c.nontrivial(&format!("{}\0{}", a, b));
        }
        c.sample(json!({"a": a, "b": b, "errors": ea.len()}));
        Ok(())
    });
}

// P06 -------------------------------------------------------------------------------

pub const P06: Spec = Spec {
    id: "P06",
    run: p06,
    rule: "Texts as for P01, and all texts of up to three characters from an alphabet of 34. The leaves of the tree are \
           compared, kind and range, with a table-driven longest-match lexer. Non-trivial: a new text of two tokens or \
           more.",
    assumptions: &["token definitions as in reflex.rs; whitespace is space, tab and newline; 0x literals in address position are addresses"],
    budget: (60, 900),
    max_shards: 8,
    at_least: 500,
};

fn tokens_agree(text: &str) -> Result<(usize, HashSet<&'static str>), String> {
    let want = reflex::lex(text);
    let got = tree::parse(text).facts.leaves;
    let mut kinds = HashSet::new();
    let mut i = 0;
    for w in &want {
        let Some(g) = got.get(i) else {
            return Err(format!("no token at {}, {} expected", w.start, w.kind));
        };
        let name = tree::kind_name(g.kind);
        let same_kind = name == w.kind
            || (name == "DIEM_ADDRESS" && w.kind == "INTEGER_NUMBER" && w.text(text).starts_with("0x"));
        if !same_kind || g.start != w.start || g.end != w.end {
            return Err(format!(
                "token {} at {}..{} ({:?}), but {} {}..{} expected",
                name,
                g.start,
                g.end,
                text.get(g.start..g.end).unwrap_or("?"),
                w.kind,
                w.start,
                w.end
            ));
        }
        kinds.insert(w.kind);
        i += 1;
    }
    if i != got.len() {
        return Err(format!("{} tokens more than there are", got.len() - i));
    }
    Ok((want.len(), kinds))
}

const ALPHABET: &[&str] = &[
    "a", "b", "x", "m", "_", "0", "1", "8", "u", " ", "\n", "\t", "\r", "\"", "\\", "/", "*", "&", "|", "=", "!", "<", ">",
    ":", ".", ",", ";", "(", "{", "@", "#", "%", "é", "😀",
];

fn p06(ctx: &mut Ctx) {
    let a = ALPHABET.len() as u64;
    ctx.cases("short", a * a + a, |_, c| {
        // each first two characters, with every third
        let start = if c.n < a {
            ALPHABET[c.n as usize].to_string()
        } else {
            let k = c.n - a;
            format!("{}{}", ALPHABET[(k / a) as usize], ALPHABET[(k % a) as usize])
        };
        let mut texts = vec![start.clone()];
        texts.extend(ALPHABET.iter().map(|x| format!("{}{}", start, x)));
        for t in &texts {
            c.input(t);
            tokens_agree(t)?;
        }
        c.count("short texts", texts.len() as u64);
        c.nontrivial(&start);
        Ok(())
    });
    // every keyword and operator next to every fragment
    let n = gen::ANY_TOKEN.len() as u64;
    ctx.cases("neighbours", n, |_, c| {
        let t = gen::ANY_TOKEN[c.n as usize];
        for u in gen::ANY_TOKEN {
            for s in [format!("{}{}", t, u), format!("{}{}x", t, u), format!("x {}{}", t, u), format!("{}_{}", t, u)] {
                c.input(&s);
                tokens_agree(&s)?;
                c.count("neighbouring fragments", 1);
            }
        }
        c.nontrivial(t);
        Ok(())
    });
    let n = ctx.scaled(150_000, 5_000_000);
    ctx.cases("text", n, |r, c| {
        let text = match r.below(3) {
            0 => char_mix(r),
            1 => gen::char_soup(r, 60),
            _ => gen::any_text(r, 100),
        };
        c.input(&text);
        let (n, kinds) = tokens_agree(&text)?;
        c.count("tokens compared", n as u64);
        for k in kinds {
            c.seen("token kinds", k);
        }
        if n >= 2 {
            c.nontrivial(&text);
        }
        if c.tier == Tier::Quick {
            c.sample(json!({"text": text, "tokens": n}));
        }
        Ok(())
    });
    let n = ctx.scaled(160, 8000);
    ctx.cases("big", n, |r, c| {
        let text = gen::big_text(r);
        c.input(&text);
        let (n, _) = tokens_agree(&text)?;
        c.count("tokens of big texts compared", n as u64);
        if n >= 2 {
            c.nontrivial(&text);
        }
        Ok(())
    });
}

/// Characters that tokens of more than one character are made of.
fn char_mix(r: &mut Rng) -> String {
    const BITS: &[&str] = &[
        "0", "x", "u", "8", "6", "4", "1", "2", "u8", "u64", "u128", "0x", "f", "g", "A", "_", "b\"", "x\"", "\"", "\\", "\\\\",
        "\\\"", "\n", "\r\n", "\r", " ", "//", "/", "&", "mut", "&mut", "|", "=", "==", ">", "<", "!", ":", ".", "true",
        "module", "fun", "let", "é", "b", "//é", "struct",
    ];
    let n = r.range(1, 14);
    (0..n).map(|_| *r.pick(BITS)).collect()
}
