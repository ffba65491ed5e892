//! Line index and small text helpers.
use super::Spec;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::rng::Rng;
use ide_db::{LineCol, LineColUtf16, LineIndex};
use serde_json::json;
use syntax::{TextRange, TextSize};

pub const P07: Spec = Spec {
    id: "P07",
    run: p07,
    rule: "Texts with ASCII, two-, three- and four-byte characters, and all kinds of line ends; for every character \
           boundary the line, the UTF-8 and the UTF-16 column are compared with ones found by counting from the start of \
           the text, and converted back; ranges are split into lines and joined again. Non-trivial: a new text with two \
           lines or more and a character outside ASCII.",
    assumptions: &[
        "a line ends with \\n",
        "positions between the two halves of a surrogate pair, or outside the text, are not judged",
    ],
    budget: (40, 600),
    max_shards: 8,
    at_least: 500,
};

pub fn wide_text(r: &mut Rng, max: usize) -> String {
    const C: &[&str] = &[
        "a",
        "b",
        ";",
        " ",
        "\n",
        "\n",
        "\r\n",
        "\r",
        "é",
        "ß",
        "ж",
        "日",
        "本",
        "ﬃ",
        "😀",
        "𝒳",
        "\u{301}",
        "\u{10ffff}",
        "\u{7ff}",
        "\u{800}",
        "\u{ffff}",
        "\u{10000}",
        "\u{80}",
        "\u{7f}",
        "\t",
        "\u{2028}",
        "\u{85}",
        "\u{0}",
    ];
    let k = r.range(1, C.len());
    let n = r.size(max);
    let from = r.below(C.len());
    (0..n)
        .map(|_| {
            if r.chance(1, 4) {
                *r.pick(C)
            } else {
                C[(from + r.below(k)) % C.len()]
            }
        })
        .collect()
}

fn p07(ctx: &mut Ctx) {
    let n = ctx.scaled(60_000, 2_000_000);
    ctx.cases("text", n, |r, c| {
        let text = if r.chance(1, 10) {
            gen::any_text(r, 80)
        } else {
            wide_text(r, 120)
        };
        positions(r, c, text)
    });
    let n = ctx.scaled(160, 8000);
    ctx.cases("big", n, |r, c| {
        let mut text = gen::big_text(r);
        if r.bool() {
            text.insert_str(0, &wide_text(r, 120));
        }
        if r.bool() {
            text.push_str(&wide_text(r, 120));
        }
        c.count("big texts", 1);
        positions(r, c, text)
    });
}

fn positions(r: &mut Rng, c: &mut Case, text: String) -> Result<(), String> {
    c.input(&text);
    let idx = LineIndex::new(&text);
    let (mut line, mut col8, mut col16) = (0u32, 0u32, 0u32);
    let mut wide = false;
    let mut boundaries = vec![];
    for (at, ch) in text.char_indices().map(|(i, ch)| (i, Some(ch))).chain([(text.len(), None)]) {
        // of a big text, some: a position in a long line of wide characters costs its length
        let near = |x: u32| x & 0xff < 3 || x & 0xff > 0xfd;
        let look = text.len() < 5000
            || ch.is_none()
            || ((near(line) || near(col8) || near(col16)) && r.chance(1, 30))
            || r.chance(1, 3000);
        if look {
            let off = TextSize::from(at as u32);
            let lc = LineCol { line, col: col8 };
            let lc16 = LineColUtf16 { line, col: col16 };
            let got = idx.line_col(off);
            if got != lc {
                return Err(format!("line_col({}) is {:?}, not {:?}", at, got, lc));
            }
            let got = idx.to_utf16(lc);
            if got != lc16 {
                return Err(format!("to_utf16({:?}) is {:?}, not {:?}", lc, got, lc16));
            }
            let got = idx.to_utf8(lc16);
            if got != lc {
                return Err(format!("to_utf8({:?}) is {:?}, not {:?}", lc16, got, lc));
            }
            let got = idx.offset(lc);
            if got != off {
                return Err(format!("offset({:?}) is {:?}, not {}", lc, got, at));
            }
            boundaries.push(at);
        }
        match ch {
            Some('\n') => {
                line += 1;
                col8 = 0;
                col16 = 0;
            }
            Some(ch) => {
                wide |= !ch.is_ascii();
                col8 += ch.len_utf8() as u32;
                col16 += ch.len_utf16() as u32;
            }
            None => (),
        }
    }
    c.count("positions", boundaries.len() as u64);
    for _ in 0..6 {
        let (a, b) = (*r.pick(&boundaries), *r.pick(&boundaries));
        let (a, b) = (a.min(b), a.max(b));
        let range = TextRange::new((a as u32).into(), (b as u32).into());
        let got: Vec<(usize, usize)> = idx
            .lines(range)
            .map(|x| (usize::from(x.start()), usize::from(x.end())))
            .collect();
        let mut want = vec![];
        let mut s = a;
        for (i, ch) in text[a..b].char_indices() {
            if ch == '\n' {
                want.push((s, a + i + 1));
                s = a + i + 1;
            }
        }
        if s < b {
            want.push((s, b));
        }
        if got != want {
            return Err(format!("lines({}..{}) are {:?}, not {:?}", a, b, got, want));
        }
        c.count("ranges split into lines", 1);
    }
    if line >= 1 && wide {
        c.nontrivial(&text);
    }
    if text.len() < 2000 {
        c.sample(json!({"text": text, "positions": boundaries.len()}));
    }
    Ok(())
}
