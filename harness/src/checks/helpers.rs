//! Helpers shared by the crates: `stdx` and `test_utils`.
use super::scratch::Scratch;
use super::Spec;
use crate::ctx::{short, Case, Ctx};
use crate::panics;
use crate::rng::Rng;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::Write;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, Sender};

pub const P29: Spec = Spec {
    id: "P29",
    run: p29,
    rule: "Texts with cursors, tags and annotations are made from a known text, ranges and contents, and taken apart by \
           test_utils; indented texts, identifiers, sorted slices, sequences and guards are given to stdx; files are \
           ensured; all results are compared with those the construction implies. A child process enters and leaves \
           panic contexts on several threads, and panics now and then: what it prints must be the contexts of the thread that \
           panicked, outermost first. Non-trivial: a new input.",
    assumptions: &[],
    budget: (60, 300),
    max_shards: 8,
    at_least: 500,
};

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?}, not {:?}", what, got, want))
    }
}

fn caught<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    panics::take();
    panics::catch(f).map_err(|_| format!("{}: panic: {}", what, panics::take().join(" | ")))
}

const CHARS: &[&str] = &["a", "b", "x1", " ", "\n", "\r\n", "\t", "é", "日本", "😀", "0", "{", "}", ">", "/", "|", "^", "//", "-"];

fn soup(r: &mut Rng, n: usize) -> String {
    (0..r.size(n)).map(|_| *r.pick(CHARS)).collect()
}
fn boundary(r: &mut Rng, t: &str) -> usize {
    let all: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    *r.pick(&all)
}
fn usizes(range: text_size::TextRange) -> (usize, usize) {
    (range.start().into(), range.end().into())
}

fn cursors(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let t = soup(r, 40);
    let (mut a, mut b) = (boundary(r, &t), boundary(r, &t));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    c.input(&format!("{:?} at {} and {}", t, a, b));
    let one = format!("{}$0{}", &t[..a], &t[a..]);
    let two = format!("{}$0{}$0{}", &t[..a], &t[a..b], &t[b..]);
    // more than two are text
    let rest = if r.chance(1, 4) { "$0" } else { "" };
    same("add_cursor", caught("add_cursor", || test_utils::add_cursor(&t, (a as u32).into()))?, one.clone())?;
    let (at, text) = caught("extract_offset", || test_utils::extract_offset(&one))?;
    same("extract_offset", (usize::from(at), text), (a, t.clone()))?;
    let (range, text) = caught("extract_range", || test_utils::extract_range(&format!("{}{}", two, rest)))?;
    same("extract_range", (usizes(range), text), ((a, b), format!("{}{}", t, rest)))?;
    let (x, text) = caught("extract_range_or_offset", || test_utils::extract_range_or_offset(&one))?;
    same("the offset", (usizes(x.range_or_empty()), usize::from(x.expect_offset()), text), ((a, a), a, t.clone()))?;
    let (x, text) = caught("extract_range_or_offset", || test_utils::extract_range_or_offset(&two))?;
    same("the range", (usizes(x.range_or_empty()), usizes(x.expect_range()), text), ((a, b), (a, b), t.clone()))?;
    same("as a range", usizes(x.into()), (a, b))?;
    if panics::catch(|| test_utils::extract_offset(&t)).is_ok() {
        return Err("extract_offset accepts a text without a cursor".into());
    }
    panics::take();
    c.nontrivial(&two);
    Ok(())
}

fn tags(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    // (tagged, plain, ranges)
    type Made = (String, String, Vec<(usize, usize, Option<String>)>);
    fn make(r: &mut Rng, m: &mut Made, name: &str, depth: usize) {
        for _ in 0..r.range(0, 4) {
            match r.below(5) {
                0 | 1 if depth > 0 => {
                    let attr = match r.below(3) {
                        0 => None,
                        k => Some(["", "fn", "a b", "é"][k + r.below(2)].to_string()),
                    };
                    match &attr {
                        None => m.0.push_str(&format!("<{}{}>", name, *r.pick(&["", " "]))),
                        Some(a) => m.0.push_str(&format!("<{} {}{}>", name, a, *r.pick(&["", " "]))),
                    }
                    let from = m.1.len();
                    make(r, m, name, depth - 1);
                    m.0.push_str(&format!("</{}>", name));
                    m.2.push((from, m.1.len(), attr));
                }
                2 => {
                    // not tags, or not of this name
                    let t = *r.pick(&["<", "< ", "<other>", "</other>", "<-", "<=", "<ß", ">"]);
                    m.0.push_str(t);
                    m.1.push_str(t);
                    // so that nothing becomes one
                    m.0.push(' ');
                    m.1.push(' ');
                }
                _ => {
                    let t = soup(r, 6).replace('/', "");
                    m.0.push_str(&t);
                    m.1.push_str(&t);
                }
            }
        }
    }
    let name = *r.pick(&["tag", "t", "fold", "é"]);
    let mut m: Made = Default::default();
    make(r, &mut m, name, 4);
    c.input(&format!("{} in {:?}", name, m.0));
    let (got, text) = caught("extract_tags", || test_utils::extract_tags(&m.0, name))?;
    let got: Vec<_> = got.into_iter().map(|(x, a)| (usizes(x).0, usizes(x).1, a)).collect();
    if got.windows(2).any(|w| (w[0].0, w[0].1) > (w[1].0, w[1].1)) {
        return Err(format!("the ranges are not in order: {:?}", got));
    }
    let (mut got, mut want) = (got, m.2.clone());
    got.sort();
    want.sort();
    same("text without tags", text, m.1)?;
    same("tags", got, want)?;
    c.count("tags", m.2.len() as u64);
    if !m.2.is_empty() {
        c.nontrivial(&m.0);
    }
    Ok(())
}

fn annotations(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let mut text = String::new();
    // lines one can point to: (start, length without the end of line)
    let mut lines: Vec<(usize, usize)> = vec![];
    // in the order in which they come; None: the whole text
    let mut want: Vec<(Option<(usize, usize)>, String)> = vec![];
    // the ends of the annotations of the line before
    let mut before: Vec<(usize, usize)> = vec![];
    const CONTENTS: &[&str] = &["", "a", "def", "type: u8", "'st'", "a | b", "日本", "x // y"];
    for _ in 0..r.range(1, 14) {
        let start = text.len();
        let code_len = match r.below(3) {
            0 => r.below(3),
            _ => r.below(30),
        };
        let code: String = (0..code_len).map(|i| if (i + start) % 5 == 4 { ' ' } else { (b'a' + (i + start) as u8 % 26) as char }).collect();
        if lines.is_empty() || r.chance(2, 5) {
            lines.push((start, code_len));
            text.push_str(&code);
            text.push('\n');
            before.clear();
            continue;
        }
        if !before.is_empty() && r.chance(1, 3) {
            let (end, of) = *r.pick(&before);
            if end >= 3 {
                // "|" under the last "^"
                let slash = r.below(end - 2);
                let content = *r.pick(&["i32", "", "more é"]);
                text.push_str(&format!("{}//{}| {}\n", " ".repeat(slash), " ".repeat(end - 1 - slash - 2), content));
                // the rest of the first annotation with this end
                let of = before.iter().find(|x| x.0 == end).map_or(of, |x| x.1);
                want[of].1.push('\n');
                want[of].1.push_str(content);
                want[of].1.push('\n');
                lines.push((start, slash));
                c.count("continued", 1);
                before.clear();
                continue;
            }
        }
        // annotations, behind code or not
        let slash = code_len;
        let mut line = format!("{}//", if r.bool() { code.clone() } else { " ".repeat(slash) });
        let mut ends = vec![];
        for _ in 0..r.range(1, 3) {
            let from = line.len() + r.below(4);
            let to = from + r.range(1, 5);
            let whole = r.chance(1, 8);
            // the last line which is long enough; whether the end of a line counts is not asked
            let target = lines.iter().rev().find(|(_, n)| *n + 1 >= to);
            let Some(&(at, n)) = target else { continue };
            if n < to {
                continue;
            }
            let content = *r.pick(CONTENTS);
            // an empty content lets the next "^" not touch this one
            line.push_str(&" ".repeat(from - line.len()));
            line.push_str(&"^".repeat(to - from));
            line.push_str(if whole { "file " } else { " " });
            line.push_str(content);
            line.push(' ');
            ends.push((to, want.len()));
            want.push((if whole { None } else { Some((at + from, at + to)) }, content.to_string()));
        }
        if ends.is_empty() {
            continue;
        }
        // trailing blanks are not part of the content
        text.push_str(line.trim_end());
        text.push('\n');
        lines.push((start, slash));
        before = ends;
    }
    c.input(&text);
    let got = caught("extract_annotations", || test_utils::extract_annotations(&text))?;
    let got: Vec<_> = got.into_iter().map(|(x, s)| (usizes(x), s)).collect();
    let want: Vec<_> = want.into_iter().map(|(x, s)| (x.unwrap_or((0, text.len())), s)).collect();
    c.count("annotations", want.len() as u64);
    same("annotations", got, want.clone())?;
    if want.len() > 1 {
        c.nontrivial(&text);
    }
    Ok(())
}

fn indent(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let n = r.below(10);
    let mut lines: Vec<(usize, &str)> = vec![];
    for _ in 0..r.range(1, 8) {
        lines.push(match r.below(4) {
            0 => (r.below(n + 4), ""),
            _ => (n + r.below(6), *r.pick(&["x", "fn é() {", "}", "日", "a  b ", "x\ty"])),
        });
    }
    let k = r.below(lines.len());
    lines[k] = (n, "least");
    let mut given = String::from(if r.bool() { "\n" } else { "" });
    for (i, (k, t)) in lines.iter().enumerate() {
        let end = if i + 1 == lines.len() && r.bool() { "" } else { "\n" };
        given.push_str(&format!("{}{}{}", " ".repeat(*k), t, end));
    }
    // an empty line at the front is taken away, of each line `n` blanks or what it has
    let mut want = String::new();
    for l in given.strip_prefix('\n').unwrap_or(&given).split_inclusive('\n') {
        let t = l.trim_start_matches(' ');
        want.push_str(&format!("{}{}", " ".repeat((l.len() - t.len()).saturating_sub(n)), t));
    }
    c.input(&given);
    same("trim_indent", caught("trim_indent", || stdx::trim_indent(&given))?, want)?;
    c.nontrivial(&given);
    Ok(())
}

fn names(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let words: Vec<String> = (0..r.range(1, 6))
        .map(|_| {
            let mut w = String::from(*r.pick(&["a", "b", "z", "x"]));
            for _ in 0..r.below(5) {
                w.push_str(*r.pick(&["a", "q", "z", "0", "9"]));
            }
            w
        })
        .collect();
    let snake = words.join("_");
    c.input(&snake);
    let pascal: String = words.iter().map(|w| w[..1].to_uppercase() + &w[1..]).collect();
    let weird: String = words.iter().map(|w| w[..1].to_uppercase() + &w[1..]).collect::<Vec<_>>().join("_");
    same("to_pascal_case", stdx::to_pascal_case(&snake), pascal.clone())?;
    same("to_pascal_case of upper case", stdx::to_pascal_case(&snake.to_uppercase()), pascal.clone())?;
    for from in [&pascal, &weird] {
        same("to_lower_snake_case", stdx::to_lower_snake_case(from), snake.clone())?;
        same("to_upper_snake_case", stdx::to_upper_snake_case(from), snake.to_uppercase())?;
    }
    same("of lower case", stdx::to_lower_snake_case(&snake), snake.clone())?;
    c.nontrivial(&snake);
    Ok(())
}

fn sequences(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let mut xs: Vec<usize> = (0..r.size(30)).map(|_| r.below(12)).collect();
    xs.sort();
    let k = r.below(14);
    c.input(&format!("{:?} {}", xs, k));
    let got = caught("equal_range_by", || stdx::equal_range_by(&xs, |x| x.cmp(&k)))?;
    let lo = xs.iter().filter(|x| **x < k).count();
    same("equal_range_by", got, lo..lo + xs.iter().filter(|x| **x == k).count())?;
    let hi = k + r.below(4);
    let got = stdx::equal_range_by(&xs, |x| {
        if *x < k {
            Ordering::Less
        } else if *x > hi {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    });
    same("equal_range_by of a range", got, lo..lo + xs.iter().filter(|x| (k..=hi).contains(*x)).count())?;

    let mut ys = xs.clone();
    match r.below(4) {
        0 => {
            ys.pop();
        }
        1 => ys.push(3),
        2 if !ys.is_empty() => {
            let i = r.below(ys.len());
            ys[i] += r.below(2);
        }
        _ => (),
    }
    let eq = stdx::iter_eq_by(xs.iter(), ys.iter().map(|y| *y as u64), |x, y| *x as u64 == y);
    same("iter_eq_by", eq, xs == ys)?;

    let t = soup(r, 20);
    let (from, to) = (*r.pick(&['a', 'b', 'é', '日', '\n', '/', '0']), *r.pick(&["", "a", "bb", "é", "\\n"]));
    let mut got = t.clone();
    stdx::replace(&mut got, from, to);
    let want: String = t.chars().map(|x| if x == from { to.to_string() } else { x.to_string() }).collect();
    same("replace", got, want)?;
    c.nontrivial(&format!("{:?} {} {:?} {} {}", xs, k, t, from, to));
    Ok(())
}

/// What is deferred is done once, in the end, in reverse order, also when unwinding.
fn guards(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Defer,
        Scope(usize),
        Panic,
        Forget,
    }
    let ops: Vec<Op> = (0..r.range(1, 10))
        .map(|_| match r.below(8) {
            0 => Op::Panic,
            1 => Op::Forget,
            2 | 3 => Op::Scope(r.range(1, 3)),
            _ => Op::Defer,
        })
        .collect();
    c.input(&format!("{:?}", ops));
    let (log, want): (Rc<RefCell<Vec<usize>>>, Rc<RefCell<Vec<usize>>>) = Default::default();
    fn run(ops: &[Op], next: &mut usize, log: &Rc<RefCell<Vec<usize>>>) {
        let mut guards = vec![];
        let mut i = 0;
        while i < ops.len() {
            match ops[i] {
                Op::Defer => {
                    let (l, id) = (log.clone(), *next);
                    *next += 1;
                    guards.push(stdx::defer(move || l.borrow_mut().push(id)));
                }
                Op::Forget => {
                    // dropped at once
                    let (l, id) = (log.clone(), *next);
                    *next += 1;
                    drop(stdx::defer(move || l.borrow_mut().push(id)));
                }
                Op::Scope(n) => {
                    let end = (i + 1 + n).min(ops.len());
                    run(&ops[i + 1..end], next, log);
                    i = end - 1;
                }
                Op::Panic => std::panic::panic_any("on purpose"),
            }
            i += 1;
        }
        drop(guards);
    }
    // the same with a stack of numbers; false: it panicked
    fn model(ops: &[Op], next: &mut usize, log: &Rc<RefCell<Vec<usize>>>) -> bool {
        let mut mine = vec![];
        let mut ok = true;
        let mut i = 0;
        while i < ops.len() && ok {
            match ops[i] {
                Op::Defer => {
                    mine.push(*next);
                    *next += 1;
                }
                Op::Forget => {
                    log.borrow_mut().push(*next);
                    *next += 1;
                }
                Op::Scope(n) => {
                    let end = (i + 1 + n).min(ops.len());
                    ok = model(&ops[i + 1..end], next, log);
                    i = end - 1;
                }
                Op::Panic => ok = false,
            }
            i += 1;
        }
        log.borrow_mut().extend(mine);
        ok
    }
    panics::take();
    let ok = panics::catch(|| run(&ops, &mut 0, &log)).is_ok();
    panics::take();
    let model_ok = model(&ops, &mut 0, &want);
    same("the end", ok, model_ok)?;
    same("what was deferred", log.borrow().clone(), want.borrow().clone())?;
    c.count("deferred", want.borrow().len() as u64);
    c.nontrivial(&format!("{:?}", ops));
    Ok(())
}

fn ensured(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let scratch = Scratch::new("p29");
    let new = soup(r, 30);
    let old: Option<Vec<u8>> = match r.below(6) {
        0 => None,
        1 => Some(new.replace("\r\n", "\n").into_bytes()),
        2 => Some(new.replace("\r\n", "\n").replace('\n', "\r\n").into_bytes()),
        3 => Some(new.replace('a', "b").into_bytes()),
        4 => Some([new.as_bytes(), *r.pick(&[&b"\xff"[..], b" ", b"\n", b"\r", b""])].concat()),
        _ => Some(soup(r, 30).into_bytes()),
    };
    c.input(&format!("{:?} over {:?}", new, old.as_ref().map(|o| String::from_utf8_lossy(o).into_owned())));
    let file = scratch.0.join(*r.pick(&["f", "a/b/f.rs"]));
    if let Some(o) = &old {
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        std::fs::write(&file, o).unwrap();
    }
    let plain = |s: &str| s.replace("\r\n", "\n");
    let up_to_date = old.as_ref().and_then(|o| std::str::from_utf8(o).ok()).map_or(false, |o| plain(o) == plain(&new));
    let got = caught("try_ensure_file_contents", || test_utils::try_ensure_file_contents(&file, &new))?;
    same("whether the file was up to date", got.is_ok(), up_to_date)?;
    let now = std::fs::read(&file).map_err(|e| format!("the file: {}", e))?;
    let want = if up_to_date { old.unwrap() } else { new.clone().into_bytes() };
    same("contents of the file", String::from_utf8_lossy(&now).into_owned(), String::from_utf8_lossy(&want).into_owned())?;
    // and then it is
    same("once more", test_utils::try_ensure_file_contents(&file, &new).is_ok(), true)?;
    c.seen("files", up_to_date);
    c.nontrivial(&format!("{:?}{:?}", new, now));
    Ok(())
}

fn linear(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let (kind, rounds) = (r.below(3), r.range(1, 4));
    let (a, b) = (r.below(3) as f64, 1.0 + r.below(50) as f64);
    c.input(&format!("kind {}, linear from round {}: {} + {} x", kind, rounds, a, b));
    let mut made = 0;
    panics::take();
    let ok = panics::catch(|| {
        let mut t = test_utils::AssertLinear::default();
        while t.next_round() {
            made += 1;
            for i in 1..=20 {
                let x = i as f64;
                // one good round is enough
                let y = if kind == 0 || (kind == 1 && made >= rounds) { a * b + b * x } else { b * x * x };
                t.sample(x, y);
            }
        }
    })
    .is_ok();
    panics::take();
    let (want, n) = match kind {
        0 => (true, 1),
        1 => (true, rounds),
        _ => (false, 4),
    };
    same("AssertLinear is content, and the rounds it took", (ok, made), (want, n))?;
    c.nontrivial(&format!("{} {} {} {}", kind, rounds, a, b));
    Ok(())
}

// Panic contexts ---------------------------------------------------------------------

/// The child: lines "THREAD enter TEXT", "THREAD leave", "THREAD panic N TEXT" (with N contexts more, while
/// unwinding through them).
pub fn panic_contexts(plan: &str) -> ! {
    let _ = std::panic::take_hook();
    let mut threads: Vec<(Sender<String>, Receiver<()>)> = vec![];
    for i in 0..4 {
        let (tx, rx) = channel::<String>();
        let (done, wait) = channel();
        std::thread::Builder::new()
            .name(format!("t{}", i))
            .spawn(move || {
                let mut held = vec![];
                for op in rx {
                    let mut f = op.splitn(2, ' ');
                    match (f.next().unwrap(), f.next().unwrap_or("")) {
                        ("enter", t) => held.push(stdx::panic_context::enter(t.replace('~', "\n"))),
                        ("leave", _) => drop(held.pop()),
                        ("panic", t) => {
                            let (n, t) = t.split_once(' ').unwrap();
                            fn go(n: usize, t: &str) {
                                if n == 0 {
                                    panic!("{}", t);
                                }
                                let _c = stdx::panic_context::enter(format!("inner {}", n));
                                go(n - 1, t);
                            }
                            let n: usize = n.parse().unwrap();
                            let _ = std::panic::catch_unwind(|| go(n, t));
                        }
                        _ => std::process::exit(98),
                    }
                    let _ = done.send(());
                }
                // in the order of the stack
                while held.pop().is_some() {}
            })
            .unwrap();
        threads.push((tx, wait));
    }
    for l in plan.lines() {
        let (t, op) = l.split_once(' ').unwrap();
        let t = &threads[t.parse::<usize>().unwrap()];
        t.0.send(op.to_string()).unwrap();
        if t.1.recv().is_err() {
            std::process::exit(97);
        }
    }
    std::process::exit(0)
}

fn contexts(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let mut plan = String::new();
    let mut stacks: Vec<Vec<String>> = vec![vec![]; 4];
    let mut want: Vec<(String, Vec<String>, String)> = vec![];
    for i in 0..r.range(5, 60) {
        let t = r.below(4);
        match r.below(5) {
            0 | 1 => {
                let text = format!("{} c{}{}", *r.pick(&["~request:", "~notification:", ""]), i, *r.pick(&["", "~more", " é"]));
                plan.push_str(&format!("{} enter {}\n", t, text));
                stacks[t].push(text.replace('~', "\n"));
            }
            2 if stacks[t].pop().is_some() => plan.push_str(&format!("{} leave\n", t)),
            3 => {
                let n = if r.chance(1, 40) { *r.pick(&[100, 600, 1500]) } else { r.below(4) };
                plan.push_str(&format!("{} panic {} oops{}\n", t, n, i));
                let mut s = stacks[t].clone();
                s.extend((1..=n).rev().map(|k| format!("inner {}", k)));
                want.push((format!("t{}", t), s, format!("oops{}", i)));
            }
            _ => (),
        }
    }
    plan.push_str("0 panic 1 last\n");
    let mut s = stacks[0].clone();
    s.push("inner 1".into());
    want.push(("t0".into(), s, "last".into()));
    c.input(&plan);
    let scratch = Scratch::new("p29");
    let file = scratch.0.join("plan");
    std::fs::File::create(&file).and_then(|mut f| f.write_all(plan.as_bytes())).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("contexts")
        .arg(&file)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("ERROR cannot start the child: {}", e))?;
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    if out.status.code() != Some(0) {
        return Err(format!("the child ended with {:?}: {}", out.status, short(&err, 2000)));
    }
    // each panic: what is printed from the end of the one before to its message
    let mut rest = &err[..];
    for (i, (thread, stack, message)) in want.iter().enumerate() {
        let Some(at) = rest.find(&format!("\n{}\n", message)) else {
            return Err(format!("panic {} ({}) is not reported: {:?}", i, message, short(rest, 2000)));
        };
        let mut block = &rest[..at];
        rest = &rest[at + message.len() + 2..];
        // notes of the runtime come after its first report
        while let Some(l) = block.strip_prefix("note:") {
            block = l.split_once('\n').map_or("", |x| x.1);
        }
        let Some(head) = block.rfind(&format!("thread '{}'", thread)) else {
            return Err(format!("panic {} is not one of thread {}: {:?}", i, thread, short(block, 1000)));
        };
        let printed = &block[..head];
        let mut expected = String::new();
        for (k, s) in stack.iter().enumerate() {
            if k == 0 {
                expected.push_str("Panic context:\n");
            }
            expected.push_str(&format!("> {}\n\n", s));
        }
        let squeeze = |s: &str| s.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n");
        same(&format!("contexts printed for panic {} ({})", i, message), squeeze(printed), squeeze(&expected))?;
    }
    c.count("panics with contexts", want.iter().filter(|w| !w.1.is_empty()).count() as u64);
    c.max("most contexts", want.iter().map(|w| w.1.len() as u64).max().unwrap_or(0));
    c.nontrivial(&plan);
    Ok(())
}

fn p29(ctx: &mut Ctx) {
    // they report to standard error what is not up to date, and what is not linear
    unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(null, 2);
    }
    for (tag, quick, thorough, f) in [
        ("cursors", 20_000, 400_000, cursors as fn(&mut Rng, &mut Case) -> Result<(), String>),
        ("tags", 20_000, 400_000, tags),
        ("annotations", 60_000, 1_000_000, annotations),
        ("indent", 20_000, 400_000, indent),
        ("names", 1000, 20_000, names),
        ("sequences", 20_000, 400_000, sequences),
        ("guards", 6000, 50_000, guards),
        ("ensured", 1500, 20_000, ensured),
        ("linear", 100, 1000, linear),
        ("contexts", 500, 10_000, contexts),
    ] {
        let n = ctx.scaled(quick, thorough);
        ctx.cases(tag, n, f);
    }
}
