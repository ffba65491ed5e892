//! Small cases for Miri (part of P23), which takes some thousand times as long.
use crate::ctx::Ctx;
use crate::gen;
use crate::hooks;
use crate::rng::Rng;
use crate::tree;

fn little_text(r: &mut Rng) -> String {
    loop {
        let t = match r.below(4) {
            0 => gen::char_soup(r, 20),
            1 => gen::token_soup(r, 10),
            _ => gen::any_text(r, 4),
        };
        if t.len() < 160 {
            return t;
        }
    }
}

pub fn miri(ctx: &mut Ctx) {
    let thorough = ctx.scaled(1, 12);
    ctx.group = "miri:".into();
    // the parser, trees, syntax kinds from their numbers
    ctx.cases("parse", 160 * thorough, |r, c| {
        let t = little_text(r);
        c.input(&t);
        let p = tree::parse(&t);
        c.count("miri: leaves", p.facts.leaves.len() as u64);
        let idx = ide_db::LineIndex::new(&t);
        for (i, _) in t.char_indices() {
            let lc = idx.line_col((i as u32).into());
            let _ = (idx.offset(lc), idx.to_utf16(lc));
        }
        c.nontrivial(&t);
        Ok(())
    });
    // all of the server: texts with \r\n are rewritten in place, tasks run on other threads
    ctx.cases("server", 8 * thorough, |r, c| {
        c.input("");
        super::server::short_session(r, c)
    });
    ctx.cases("rough", 8 * thorough, |r, c| super::server::rough_session(r, c, 4));
    for (id, s) in [("P15", super::files::P15), ("P18", super::files::P18)] {
        ctx.group = format!("miri:{}:", id);
        ctx.divisor = 1_000_000_000;
        (s.run)(ctx);
    }
    ctx.rec.violations.clear();
    hooks::uninstall();
}
