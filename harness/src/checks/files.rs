//! The virtual file system, file sets, the loader's entries, paths.
use super::Spec;
use crate::ctx::Ctx;
use crate::rng::Rng;
use paths::{AbsPath, AbsPathBuf, RelPath};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use vfs::file_set::{FileSet, FileSetConfig};
use vfs::loader::{Directories, Entry};
use vfs::{AnchoredPath, ChangeKind, FileId, Vfs, VfsPath};

// a model of paths: lists of names ------------------------------------------------------

const NAMES: &[&str] = &[
    "a", "b", "foo", "foo-things", "foo.bar", "fo", "src", "é", "😀", "A", "a b", "lib.move", "x.move", "%41", "...", "a.",
    ".hidden", "tests", "日本",
];

fn comps(r: &mut Rng, max: usize) -> Vec<String> {
    let n = r.range(1, max);
    // few names, so that paths meet
    (0..n).map(|_| if r.chance(3, 4) { r.pick(&NAMES[..6]).to_string() } else { r.pick(NAMES).to_string() }).collect()
}
fn show(c: &[String]) -> String {
    format!("/{}", c.join("/"))
}
/// The same path with detours: `//`, `/./`, `/x/../`, a slash at the end.
fn detour(r: &mut Rng, c: &[String]) -> String {
    let mut s = String::new();
    if r.chance(1, 6) {
        s.push_str("/..");
    }
    for x in c {
        match r.below(8) {
            0 => s.push_str("/."),
            1 => s.push('/'),
            2 => s.push_str("/q/.."),
            3 => s.push_str("/q/./w//../.."),
            _ => (),
        }
        s.push('/');
        s.push_str(x);
    }
    match r.below(6) {
        0 => s.push('/'),
        1 => s.push_str("/."),
        2 => s.push_str("/zz/.."),
        _ => (),
    }
    if s.is_empty() {
        s.push('/');
    }
    s
}
/// What `path` means, taken from directory `base`.
fn resolve(base: &[String], path: &str) -> Vec<String> {
    let mut c: Vec<String> = if path.starts_with('/') { vec![] } else { base.to_vec() };
    for part in path.split('/') {
        match part {
            "" | "." => (),
            ".." => {
                c.pop();
            }
            p => c.push(p.to_string()),
        }
    }
    c
}
fn abs(s: &str) -> AbsPathBuf {
    AbsPathBuf::assert(PathBuf::from(s))
}
fn real(s: &str) -> VfsPath {
    VfsPath::from(abs(s))
}
fn virt(s: &str) -> VfsPath {
    VfsPath::new_virtual_path(s.to_string())
}
/// (virtual?, names)
type MPath = (bool, Vec<String>);
fn vpath(r: &mut Rng, p: &MPath) -> VfsPath {
    if p.0 {
        virt(&show(&p.1))
    } else {
        real(&detour(r, &p.1))
    }
}
fn plain(p: &MPath) -> VfsPath {
    if p.0 {
        virt(&show(&p.1))
    } else {
        real(&show(&p.1))
    }
}

// P15 -------------------------------------------------------------------------------

pub const P15: Spec = Spec {
    id: "P15",
    run: p15,
    rule: "Histories of up to 200 operations on a Vfs (set contents, delete, take changes) over few paths, each path \
           spelled in different ways; after each operation the whole visible state is compared with a map from paths to \
           (id, contents) and a list of changes. Also thousands of files with thousands of changes between two takings. Non-trivial: a history, not seen before, in which a file is created, \
           changed, deleted and created again.",
    assumptions: &[],
    budget: (40, 600),
    max_shards: 8,
    at_least: 500,
};

fn p15(ctx: &mut Ctx) {
    let n = ctx.scaled(100_000, 2_000_000);
    ctx.cases("history", n, |r, c| {
        let universe: Vec<MPath> = {
            let k = r.range(1, 8);
            let mut u: BTreeSet<MPath> = BTreeSet::new();
            for _ in 0..k {
                u.insert((r.chance(1, 3), comps(r, 3)));
            }
            u.into_iter().collect()
        };
        let mut contents: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"b".to_vec(), vec![0xff, 0xfe], b"a\r\n".to_vec()];
        let long = r.chance(1, 5);
        if long {
            // long ones that differ in a byte or in their length
            let bits = *r.pick(&[5, 9, 11, 13, 14, 17]);
            let n = r.range(1, 1 << bits);
            let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
            for _ in 0..r.range(2, 4) {
                let mut x = base.clone();
                let at = r.below(n);
                match r.below(4) {
                    0 => x.truncate(at),
                    1 => x.push(b'a'),
                    _ => x[at] ^= 1 << r.below(8),
                }
                contents.push(x);
            }
            if n > 4096 {
                // in the middle only
                let mut x = base.clone();
                x[n / 2] ^= 1;
                contents.push(x);
            }
            contents.push(base);
            contents.drain(..5);
            c.count("histories with long contents", 1);
        }
        let label = |x: &Option<Vec<u8>>| match x {
            Some(x) if x.len() > 40 => format!("{} bytes, hash {:x}", x.len(), crate::rng::hash(x)),
            x => format!("{:?}", x),
        };
        let mut v = Vfs::default();
        let mut ids: HashMap<MPath, FileId> = HashMap::new();
        let mut state: BTreeMap<MPath, Vec<u8>> = BTreeMap::new();
        let mut log: Vec<(MPath, ChangeKind)> = vec![];
        // every change ever made, to compare with what take_changes gave
        let mut history = String::new();
        let mut kinds: BTreeMap<MPath, String> = BTreeMap::new();
        let ops = r.size(if long { 60 } else { 200 }).max(3);
        for _ in 0..ops {
            let p = r.pick(&universe).clone();
            match r.below(10) {
                0..=7 => {
                    let new = if r.chance(1, 3) { None } else { Some(r.pick(&contents).clone()) };
                    let old = state.get(&p).cloned();
                    history.push_str(&format!("set {} {}; ", show(&p.1), label(&new)));
                    c.input(&history);
                    let got = v.set_file_contents(vpath(r, &p), new.clone());
                    let want = old != new;
                    if got != want {
                        return Err(format!("set_file_contents says {}, {} expected", got, want));
                    }
                    if want {
                        let kind = match (&old, &new) {
                            (None, _) => ChangeKind::Create,
                            (_, None) => ChangeKind::Delete,
                            _ => ChangeKind::Modify,
                        };
                        kinds.entry(p.clone()).or_default().push(match kind {
                            ChangeKind::Create => 'C',
                            ChangeKind::Modify => 'M',
                            ChangeKind::Delete => 'D',
                        });
                        c.count(&format!("{:?}", kind), 1);
                        log.push((p.clone(), kind));
                        match new {
                            Some(x) => state.insert(p.clone(), x),
                            None => state.remove(&p),
                        };
                    } else {
                        c.count("no change", 1);
                    }
                }
                _ => {
                    history.push_str("take; ");
                    c.input(&history);
                    if v.has_changes() == log.is_empty() {
                        return Err("has_changes is wrong before take_changes".into());
                    }
                    let got = v.take_changes();
                    if got.len() != log.len() {
                        return Err(format!("{} changes, {} expected", got.len(), log.len()));
                    }
                    for (g, (p, kind)) in got.iter().zip(&log) {
                        if g.change_kind != *kind || Some(&g.file_id) != ids.get(p) {
                            return Err(format!(
                                "change {:?} of {:?}, but {:?} of {:?} expected",
                                g.change_kind,
                                g.file_id,
                                kind,
                                ids.get(p)
                            ));
                        }
                        if g.exists() != (*kind != ChangeKind::Delete)
                            || g.is_created_or_deleted() != (*kind != ChangeKind::Modify)
                        {
                            return Err("exists or is_created_or_deleted of a change is wrong".into());
                        }
                    }
                    c.count("changes taken", log.len() as u64);
                    log.clear();
                }
            }
            // the whole state
            if v.has_changes() == log.is_empty() {
                return Err(format!("has_changes is {}, {} changes are there", v.has_changes(), log.len()));
            }
            let mut seen: BTreeSet<FileId> = BTreeSet::new();
            for p in &universe {
                let q = vpath(r, p);
                let id = v.file_id(&q);
                match state.get(p) {
                    None => {
                        if id.is_some() {
                            return Err(format!("{} has an id though it does not exist", show(&p.1)));
                        }
                    }
                    Some(want) => {
                        let Some(id) = id else { return Err(format!("{} has no id", show(&p.1))) };
                        let known = *ids.entry(p.clone()).or_insert(id);
                        if known != id {
                            return Err(format!("the id of {} went from {:?} to {:?}", show(&p.1), known, id));
                        }
                        if !seen.insert(id) {
                            return Err(format!("{:?} is the id of two files", id));
                        }
                        if v.file_contents(id) != &want[..] {
                            return Err(format!("contents of {} are wrong", show(&p.1)));
                        }
                        if v.file_path(id) != plain(p) {
                            return Err(format!("{:?} has path {}, not {}", id, v.file_path(id), show(&p.1)));
                        }
                    }
                }
            }
            let all: Vec<(FileId, VfsPath)> = v.iter().map(|(i, p)| (i, p.clone())).collect();
            if all.len() != state.len() || !all.iter().all(|(i, p)| v.file_id(p) == Some(*i)) {
                return Err(format!("iter gives {:?}, {} files exist", all, state.len()));
            }
            if v.len() < state.len() {
                return Err("len is less than the number of files".into());
            }
        }
        // two paths never share an id, not even when one of them is deleted
        let distinct: BTreeSet<FileId> = ids.values().copied().collect();
        if distinct.len() != ids.len() {
            return Err("an id was given to two paths".into());
        }
        c.count("operations", ops as u64);
        if kinds.values().any(|k| k.contains("CMD") && k.contains("DC")) {
            c.nontrivial(&history);
        }
        c.sample(json!({"history": history}));
        Ok(())
    });
    // hundreds of files and more, and as many changes before any of them is taken
    let n = ctx.scaled(200, 4_000);
    ctx.cases("many", n, |r, c| {
        let files = if cfg!(miri) { 20 } else { *r.pick(&[100, 300, 1000, 5000]) };
        let mut v = Vfs::default();
        let mut state: Vec<Option<u32>> = vec![None; files];
        let mut ids: Vec<Option<FileId>> = vec![None; files];
        let mut pending: Vec<(usize, ChangeKind)> = vec![];
        let path = |i: usize| VfsPath::new_virtual_path(format!("/{}/f{}.move", i % 7, i));
        let ops = files * r.range(1, 5);
        c.input(&format!("{} files, {} operations", files, ops));
        for k in 0..ops {
            let i = if r.chance(1, 4) { k % files } else { r.below(files) };
            let new = if r.chance(1, 4) { None } else { Some(r.below(3) as u32) };
            let want = state[i] != new;
            let got = v.set_file_contents(path(i), new.map(|x| x.to_string().into_bytes()));
            if got != want {
                return Err(format!("operation {}: set_file_contents says {}, {} expected", k, got, want));
            }
            if want {
                pending.push((i, match (state[i], new) {
                    (None, _) => ChangeKind::Create,
                    (_, None) => ChangeKind::Delete,
                    _ => ChangeKind::Modify,
                }));
                state[i] = new;
                if ids[i].is_none() {
                    ids[i] = v.file_id(&path(i));
                }
            }
            if k + 1 == ops || r.chance(1, files as u32) {
                c.max("changes taken at once", pending.len() as u64);
                let got = v.take_changes();
                let same = got.len() == pending.len()
                    && got.iter().zip(&pending).all(|(g, (i, kind))| Some(g.file_id) == ids[*i] && g.change_kind == *kind);
                if !same {
                    return Err(format!("{} changes were taken, {} expected, or others", got.len(), pending.len()));
                }
                pending.clear();
                if v.has_changes() {
                    return Err("there are changes after all were taken".into());
                }
            }
        }
        for i in 0..files {
            let id = v.file_id(&path(i));
            if id != ids[i].filter(|_| state[i].is_some()) {
                return Err(format!("file {} has id {:?}, not {:?}", i, id, ids[i]));
            }
            if let (Some(id), Some(x)) = (id, state[i]) {
                if v.file_contents(id) != x.to_string().as_bytes() || v.file_path(id) != path(i) {
                    return Err(format!("contents or path of file {} are wrong", i));
                }
            }
        }
        let distinct: BTreeSet<FileId> = ids.iter().flatten().copied().collect();
        if distinct.len() != ids.iter().flatten().count() {
            return Err("an id was given to two paths".into());
        }
        let there: BTreeSet<FileId> = v.iter().map(|(i, _)| i).collect();
        let want: BTreeSet<FileId> = ids.iter().zip(&state).filter(|(_, s)| s.is_some()).filter_map(|(i, _)| *i).collect();
        if there != want {
            return Err(format!("iter gives {} files, {} exist", there.len(), want.len()));
        }
        c.max("files of one history", files as u64);
        c.nontrivial(&format!("{} {} {:?}", files, ops, state));
        Ok(())
    });
}

// P16 -------------------------------------------------------------------------------

pub const P16: Spec = Spec {
    id: "P16",
    run: p16,
    rule: "Random file sets (nested, overlapping, repeated and look-alike roots, real and virtual, the root directory) and \
           random files, some deleted. Each existing file must be in exactly one set: the one with the deepest root above \
           it, by path components, or else the last. Then anchored paths are resolved in each set and compared with a \
           model. Hundreds and thousands of sets as well. Non-trivial: a new configuration with two sets or more which have files.",
    assumptions: &["if two sets have the same root, the file may be in either of them", "virtual paths are joined to ../ (leading) and plain names only, as documented"],
    budget: (40, 600),
    max_shards: 8,
    at_least: 500,
};

fn p16(ctx: &mut Ctx) {
    let n = ctx.scaled(150_000, 3_000_000);
    ctx.cases("partition", n, |r, c| {
        let mut b = FileSetConfig::builder();
        let mut roots: Vec<Vec<MPath>> = vec![];
        for _ in 0..r.range(0, 5) {
            let set: Vec<MPath> = (0..r.range(0, 3))
                .map(|_| {
                    let v = r.chance(1, 3);
                    let p = if r.chance(1, 12) { vec![] } else { comps(r, 3) };
                    (v, p)
                })
                .collect();
            b.add_file_set(set.iter().map(|p| vpath(r, p)).collect());
            roots.push(set);
        }
        if b.len() != roots.len() {
            return Err(format!("the builder holds {} sets, {} were added", b.len(), roots.len()));
        }
        let config = b.build();
        let mut v = Vfs::default();
        let mut files: BTreeMap<MPath, FileId> = BTreeMap::new();
        for _ in 0..r.range(0, 14) {
            let p: MPath = (r.chance(1, 3), comps(r, 4));
            let x = vpath(r, &p);
            v.set_file_contents(x.clone(), Some(vec![1]));
            if r.chance(1, 8) {
                v.set_file_contents(x, None);
                files.remove(&p);
            } else {
                files.insert(p, v.file_id(&x).ok_or("no id")?);
            }
        }
        let describe = format!("roots {:?} files {:?}", roots, files.keys().collect::<Vec<_>>());
        c.input(&describe);
        let sets: Vec<FileSet> = config.partition(&v);
        if sets.len() != roots.len() + 1 {
            return Err(format!("{} sets, {} expected", sets.len(), roots.len() + 1));
        }
        let mut total = 0;
        for s in &sets {
            let ids: Vec<FileId> = s.iter().collect();
            if ids.len() != s.len() {
                return Err(format!("len of a set is {}, it has {} files", s.len(), ids.len()));
            }
            total += ids.len();
            for id in ids {
                let Some(p) = s.path_for_file(&id) else { return Err("a file of a set has no path there".into()) };
                if s.file_for_path(p) != Some(&id) || v.file_path(id) != *p {
                    return Err("path and id of a file in a set do not agree".into());
                }
            }
        }
        if total != files.len() {
            return Err(format!("{} files are in the sets, {} exist", total, files.len()));
        }
        let mut home: BTreeMap<MPath, usize> = BTreeMap::new();
        for (p, id) in &files {
            let mut best: Option<usize> = None;
            let mut candidates: Vec<usize> = vec![];
            for (i, set) in roots.iter().enumerate() {
                for (rv, rc) in set {
                    if *rv == p.0 && p.1.starts_with(rc) {
                        if best.map_or(true, |b| rc.len() > b) {
                            best = Some(rc.len());
                            candidates.clear();
                        }
                        if best == Some(rc.len()) {
                            candidates.push(i);
                        }
                    }
                }
            }
            if candidates.is_empty() {
                candidates.push(roots.len());
                c.count("files in the default set", 1);
            }
            let at: Vec<usize> = (0..sets.len()).filter(|&i| sets[i].path_for_file(id).is_some()).collect();
            if at.len() != 1 || !candidates.contains(&at[0]) {
                return Err(format!("{} is in {:?}, expected one of {:?}", show(&p.1), at, candidates));
            }
            home.insert(p.clone(), at[0]);
            c.count("files placed", 1);
        }
        // anchored paths
        let paths: Vec<MPath> = files.keys().cloned().collect();
        for _ in 0..if paths.is_empty() { 0 } else { 12 } {
            let anchor = r.pick(&paths).clone();
            let target = r.pick(&paths).clone();
            let mut dir = anchor.1.clone();
            dir.pop();
            let mut out = false;
            let (rel, want): (String, Vec<String>) = match r.below(4) {
                0 if !anchor.0 => {
                    let t = comps(r, 3);
                    let s = detour(r, &t);
                    let s = if r.chance(3, 4) { s[1..].trim_start_matches('/').to_string() } else { s };
                    let w = resolve(&dir, &s);
                    (s, w)
                }
                1 => {
                    let t = comps(r, 2);
                    let k = r.range(0, 3);
                    out = k > dir.len();
                    let mut d = dir.clone();
                    d.truncate(dir.len().saturating_sub(k));
                    let s = format!("{}{}", "../".repeat(k), t.join("/"));
                    d.extend(t);
                    (s, d)
                }
                _ => {
                    // the path from the anchor's directory to the target
                    let common = dir.iter().zip(&target.1).take_while(|(x, y)| x == y).count();
                    let common = common.min(target.1.len() - 1);
                    let s = format!("{}{}", "../".repeat(dir.len() - common), target.1[common..].join("/"));
                    (s, target.1.clone())
                }
            };
            let key = (anchor.0, want);
            let set = home[&anchor];
            let want = if out && anchor.0 { None } else { files.get(&key).copied().filter(|_| home[&key] == set) };
            let got = sets[set].resolve_path(AnchoredPath { anchor: files[&anchor], path: &rel });
            if got != want {
                return Err(format!("{:?} from {} is {:?}, not {:?}", rel, show(&anchor.1), want, got));
            }
            c.count(if got.is_some() { "anchored paths resolved" } else { "anchored paths to nothing" }, 1);
            // an anchor which is not in the set
            if let Some(other) = (0..sets.len()).find(|&i| i != set) {
                if sets[other].resolve_path(AnchoredPath { anchor: files[&anchor], path: &rel }).is_some() {
                    return Err("an anchor that is not in the set resolves".into());
                }
            }
        }
        if sets.iter().filter(|s| s.len() > 0).count() >= 2 {
            c.nontrivial(&describe);
        }
        c.sample(json!({"case": describe}));
        Ok(())
    });
    // hundreds of roots and more
    let n = ctx.scaled(80, 1_000);
    ctx.cases("roots", n, |r, c| {
        let sets = if cfg!(miri) { 20 } else { *r.pick(&[100, 255, 256, 257, 300, 1000, 70_000]) };
        let per = if sets > 1000 { 1 } else { r.range(1, 3) };
        let virt = r.bool();
        let root = |k: usize, j: usize| -> MPath { (virt, vec![format!("d{}", k % 13), format!("r{}", k * per + j)]) };
        let mut b = FileSetConfig::builder();
        for k in 0..sets {
            b.add_file_set((0..per).map(|j| plain(&root(k, j))).collect());
        }
        c.input(&format!("{} sets of {} roots", sets, per));
        let config = b.build();
        let mut v = Vfs::default();
        let mut files: Vec<(FileId, usize)> = vec![];
        for _ in 0..200 {
            let k = r.below(sets);
            let (mut p, mut home) = (root(k, r.below(per)), k);
            if r.chance(1, 5) {
                p.1[1].push('x');
                home = sets;
            }
            p.1.push("a.move".into());
            v.set_file_contents(plain(&p), Some(vec![1]));
            files.push((v.file_id(&plain(&p)).ok_or("no id")?, home));
        }
        let parts = config.partition(&v);
        if parts.len() != sets + 1 {
            return Err(format!("{} sets, {} expected", parts.len(), sets + 1));
        }
        for (id, home) in &files {
            if parts[*home].path_for_file(id).is_none() {
                let at: Vec<usize> = (0..=sets).filter(|&i| parts[i].path_for_file(id).is_some()).collect();
                return Err(format!("{} is in {:?}, not in {}", v.file_path(*id), at, home));
            }
        }
        let (total, want) = (parts.iter().map(|p| p.len()).sum::<usize>(), v.iter().count());
        if total != want {
            return Err(format!("{} files are in the sets, {} exist", total, want));
        }
        c.max("sets of one configuration", sets as u64);
        c.count("files placed among many sets", files.len() as u64);
        c.nontrivial(&format!("{} {} {}", sets, per, c.n));
        Ok(())
    });
}

// P17 -------------------------------------------------------------------------------

pub const P17: Spec = Spec {
    id: "P17",
    run: p17,
    rule: "Random loader entries (nested, repeated and look-alike include and exclude paths, extensions, explicit files, \
           the predefined entries) and random paths: what is contained must be what the longest matching include or \
           exclude path says, exclusion winning a tie. Non-trivial: a new configuration with an include and an exclude \
           above one path.",
    assumptions: &[],
    budget: (40, 600),
    max_shards: 8,
    at_least: 500,
};

fn p17(ctx: &mut Ctx) {
    let n = ctx.scaled(100_000, 4_000_000);
    ctx.cases("entry", n, |r, c| {
        const EXT: &[&str] = &["move", "toml", "rs", "mov", "mvir", "move", "MOVE", "Move", "é", "É"];
        let name_file = |r: &mut Rng| -> String {
            match r.below(6) {
                0 => r.pick(NAMES).to_string(),
                1 => format!("{}.{}.{}", r.pick(NAMES), r.pick(EXT), r.pick(EXT)),
                2 => format!(".{}", r.pick(EXT)),
                _ => format!("x.{}", r.pick(EXT)),
            }
        };
        let path = |r: &mut Rng| -> Vec<String> {
            if r.chance(1, 15) {
                vec![]
            } else {
                comps(r, 4)
            }
        };
        let inc: Vec<Vec<String>> = (0..r.range(0, 4)).map(|_| path(r)).collect();
        let mut exc: Vec<Vec<String>> = (0..r.range(0, 4)).map(|_| path(r)).collect();
        if !inc.is_empty() && r.bool() {
            // below an include, or the same
            let mut e = r.pick(&inc).clone();
            if r.chance(3, 4) {
                e.extend(comps(r, 2));
            }
            exc.push(e);
        }
        let ext: Vec<String> = (0..r.range(0, 3)).map(|_| r.pick(EXT).to_string()).collect();
        let describe = format!("include {:?} exclude {:?} extensions {:?}", inc, exc, ext);
        let paths: Vec<AbsPathBuf> = inc.iter().map(|p| abs(&show(p))).collect();
        let dirs = Directories {
            extensions: ext.clone(),
            include: paths.clone(),
            exclude: exc.iter().map(|p| abs(&show(p))).collect(),
        };
        let entry = Entry::Directories(dirs.clone());
        let mut both = false;
        for _ in 0..10 {
            let mut p = match r.below(3) {
                0 if !inc.is_empty() => r.pick(&inc).clone(),
                1 if !exc.is_empty() => r.pick(&exc).clone(),
                _ => path(r),
            };
            if r.bool() {
                p.extend(comps(r, 2));
            }
            let mut f = p.clone();
            f.push(name_file(r));
            for (q, is_dir) in [(&p, true), (&f, false)] {
                c.input(&format!("{} path {}", describe, show(q)));
                let i = inc.iter().filter(|x| q.starts_with(&x[..])).map(|x| x.len()).max();
                let e = exc.iter().filter(|x| q.starts_with(&x[..])).map(|x| x.len()).max();
                let mut want = match (i, e) {
                    (None, _) => false,
                    (Some(_), None) => true,
                    (Some(i), Some(e)) => i > e,
                };
                both |= i.is_some() && e.is_some();
                if !is_dir {
                    let name = f.last().unwrap();
                    let x = match name.rfind('.') {
                        None | Some(0) => None,
                        Some(k) => Some(&name[k + 1..]),
                    };
                    if name == "..." {
                        // the file name `...`: what its extension is, is not our concern
                        continue;
                    }
                    match x {
                        Some(x) if !x.is_empty() => want &= ext.iter().any(|y| y == x),
                        _ => want = false,
                    }
                }
                let a = abs(&show(q));
                let got = if is_dir { entry.contains_dir(&a) } else { entry.contains_file(&a) };
                let got2 = if is_dir { dirs.contains_dir(&a) } else { dirs.contains_file(&a) };
                if got != want || got2 != want {
                    return Err(format!("contains {} {}: {}, {} expected", if is_dir { "dir" } else { "file" }, show(q), got, want));
                }
                c.count(if want { "contained" } else { "not contained" }, 1);
            }
            let files = Entry::Files(paths.clone());
            let a = abs(&show(&p));
            if files.contains_file(&a) != inc.contains(&p) || files.contains_dir(&a) {
                return Err("an entry made of files contains the wrong paths".into());
            }
        }
        // the predefined entries
        let base = path(r);
        for (name, e, ex) in [
            ("rs_files_recursively", Entry::rs_files_recursively(abs(&show(&base))), vec![".git"]),
            ("local_cargo_package", Entry::local_cargo_package(abs(&show(&base))), vec![".git", "target"]),
        ] {
            for sub in ["x.rs", ".git/x.rs", "target/x.rs", "src/x.rs", "tests/a/x.rs", "src/x.move", ".github/x.rs", "a/.git/x.rs"] {
                let mut q = base.clone();
                q.extend(sub.split('/').map(|s| s.to_string()));
                let want = sub.ends_with(".rs") && !ex.contains(&sub.split('/').next().unwrap());
                if e.contains_file(&abs(&show(&q))) != want {
                    return Err(format!("{} of {} and {}", name, show(&base), show(&q)));
                }
            }
        }
        if both {
            c.nontrivial(&describe);
        }
        c.sample(json!({"entry": describe}));
        Ok(())
    });
}

// P18 -------------------------------------------------------------------------------

pub const P18: Spec = Spec {
    id: "P18",
    run: p18,
    rule: "Absolute paths spelled with //, /./, /x/../, .. above the root and trailing slashes; joins, parents, prefixes and \
           names of real and virtual paths; all compared with lists of names. Non-trivial: a new spelling that is not \
           already normal.",
    assumptions: &["virtual paths: prefixes are not judged (compared as strings, as documented), joins of ../ (leading) and plain names only"],
    budget: (40, 600),
    max_shards: 8,
    at_least: 500,
};

fn p18(ctx: &mut Ctx) {
    let n = ctx.scaled(200_000, 6_000_000);
    ctx.cases("path", n, |r, c| {
        let mut p = comps(r, 5);
        if r.chance(1, 10) {
            p.clear();
        }
        let spelled = detour(r, &p);
        c.input(&spelled);
        let a = abs(&spelled);
        let norm = a.normalize();
        // compared as text: PathBuf's own equality forgives detours
        if norm.as_os_str() != std::ffi::OsStr::new(&show(&p)) {
            return Err(format!("{} becomes {}, not {}", spelled, norm.display(), show(&p)));
        }
        if norm.normalize().as_os_str() != norm.as_os_str() {
            return Err("normalising twice differs from normalising once".into());
        }
        let v = VfsPath::from(a);
        if v.to_string() != show(&p) || v != real(&show(&p)) {
            return Err(format!("VfsPath of {} is {}", spelled, v));
        }
        if v.as_path().map(|x| x.as_os_str().to_os_string()) != Some(show(&p).into()) {
            return Err("as_path differs".into());
        }
        // join
        let t = comps(r, 3);
        let mut rel = detour(r, &t);
        if r.chance(7, 8) {
            rel = rel.trim_start_matches('/').to_string();
        }
        if r.chance(1, 3) {
            rel = format!("{}{}", "../".repeat(r.range(0, 4)), rel);
        }
        c.input(&format!("{} join {}", spelled, rel));
        let want = resolve(&p, &rel);
        match v.join(&rel) {
            Some(j) if j.to_string() == show(&want) => (),
            j => return Err(format!("{} join {} is {:?}, not {}", v, rel, j, show(&want))),
        }
        // parent and pop
        let parent = v.parent();
        let mut popped = v.clone();
        let could = popped.pop();
        if p.is_empty() {
            if parent.is_some() || could || popped != v {
                return Err("the root has a parent".into());
            }
        } else {
            let want = show(&p[..p.len() - 1]);
            if parent.as_ref().map(|x| x.to_string()) != Some(want.clone()) || !could || popped.to_string() != want {
                return Err(format!("parent of {} is {:?}", v, parent));
            }
        }
        // prefixes, by component
        let mut q = p.clone();
        q.truncate(r.range(0, p.len()));
        if r.bool() {
            q.extend(comps(r, 1));
        }
        let w = real(&show(&q));
        if v.starts_with(&w) != p.starts_with(&q) {
            return Err(format!("{} starts with {}: {}", v, w, v.starts_with(&w)));
        }
        let (x, y): (AbsPathBuf, AbsPathBuf) = (abs(&show(&p)), abs(&show(&q)));
        if AbsPath::starts_with(&x, &y) != p.starts_with(&q) {
            return Err("AbsPath::starts_with".into());
        }
        let strip = x.strip_prefix(&y).map(|s| AsRef::<std::path::Path>::as_ref(s).to_str().unwrap().to_string());
        if strip != p.strip_prefix(&q[..]).map(|s| s.join("/")) {
            return Err(format!("strip_prefix gives {:?}", strip));
        }
        let k = r.range(0, p.len());
        let suffix = p[k..].join("/");
        if !p.is_empty() && k < p.len() && !x.ends_with(RelPath::new_unchecked(suffix.as_ref())) {
            return Err("ends_with".into());
        }
        if v.starts_with(&virt("/")) || virt("/a").starts_with(&real("/")) {
            return Err("a real path is below a virtual one, or the other way round".into());
        }
        // names
        if let Some(name) = p.last() {
            let (stem, ext) = match name.rfind('.') {
                None | Some(0) => (name.as_str(), None),
                Some(k) => (&name[..k], Some(&name[k + 1..])),
            };
            if name != "..." && v.name_and_extension() != Some((stem, ext)) {
                return Err(format!("name and extension of {}: {:?}", v, v.name_and_extension()));
            }
            let vv = virt(&show(&p));
            if name != "..." && vv.name_and_extension() != Some((stem, ext)) {
                return Err(format!("name and extension of virtual {}: {:?}", vv, vv.name_and_extension()));
            }
            if name != "..." && x.file_name().and_then(|s| s.to_str()) != Some(name) {
                return Err("file_name".into());
            }
        }
        // virtual paths
        let vv = virt(&show(&p));
        let k = r.range(0, 5);
        let rel = format!("{}{}{}", "../".repeat(k), "./".repeat(*r.pick(&[0, 0, 0, 0, 1, 2, 3])), t.join("/"));
        if !p.is_empty() {
            let want = if k > p.len() {
                None
            } else {
                let mut w = p[..p.len() - k].to_vec();
                w.extend(t.iter().cloned());
                Some(show(&w))
            };
            let got = vv.join(&rel).map(|x| x.to_string());
            if got != want {
                return Err(format!("virtual {} join {} is {:?}, not {:?}", vv, rel, got, want));
            }
            if vv.as_path().is_some() || vv == v {
                return Err("a virtual path is a real one".into());
            }
            let up = vv.parent().map(|x| x.to_string());
            let want = if p.len() == 1 { String::new() } else { show(&p[..p.len() - 1]) };
            if up != Some(want) {
                return Err(format!("parent of virtual {} is {:?}", vv, up));
            }
        }
        // prefixes of virtual paths, as far as names and strings agree
        let (vp, vq) = (virt(&show(&p)), virt(&show(&q)));
        if p.starts_with(&q) != vp.starts_with(&vq) && (p.starts_with(&q) || !show(&p).starts_with(&show(&q))) {
            return Err(format!("virtual {} starts with {}: {}", vp, vq, vp.starts_with(&vq)));
        }
        // equality, order and hashes
        let hash = |x: &VfsPath| {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            h.finish()
        };
        let by_name = |x: &[String]| -> Vec<Vec<u8>> { x.iter().map(|s| s.as_bytes().to_vec()).collect() };
        for (x, y, want) in [(&v, &w, p == q), (&vp, &vq, p == q), (&v, &vp, false), (&w, &vq, false)] {
            if (x == y) != want || (want && hash(x) != hash(y)) || (x.cmp(y) == std::cmp::Ordering::Equal) != want {
                return Err(format!("{:?} and {:?}: equal {}, ordered {:?}", x, y, x == y, x.cmp(y)));
            }
            if x.cmp(y) != y.cmp(x).reverse() {
                return Err(format!("the order of {:?} and {:?} depends on which is first", x, y));
            }
        }
        if v.cmp(&w) != by_name(&p).cmp(&by_name(&q)) {
            return Err(format!("{:?} and {:?} are ordered {:?}", v, w, v.cmp(&w)));
        }
        // the types of absolute and relative paths
        let kept: &AbsPath = x.as_path();
        if kept.parent().map(|y| y.as_os_str().to_os_string()) != p.split_last().map(|(_, y)| show(y).into()) {
            return Err(format!("parent of {} is {:?}", x.display(), kept.parent()));
        }
        if kept.join(t.join("/")).as_os_str() != std::ffi::OsStr::new(&show(&[&p[..], &t[..]].concat())) {
            return Err(format!("{} joined with {:?}", x.display(), t));
        }
        if kept.join(show(&q)).as_os_str() != std::ffi::OsStr::new(&show(&q)) {
            return Err("joined with an absolute path it is that one".into());
        }
        if kept.to_path_buf() != x || x != *kept || PathBuf::from(x.clone()) != PathBuf::from(show(&p)) {
            return Err("a copy of a path is another one".into());
        }
        if kept.ends_with(RelPath::new_unchecked(t.join("/").as_ref())) != p.ends_with(&t) {
            return Err(format!("{} ends with {:?}: {}", x.display(), t, !p.ends_with(&t)));
        }
        if paths::RelPathBuf::try_from(PathBuf::from(show(&p))).is_ok() || paths::RelPathBuf::try_from(&*show(&p)).is_ok() {
            return Err("an absolute path counts as relative".into());
        }
        match paths::RelPathBuf::try_from(t.join("/").as_str()) {
            Ok(y) if AsRef::<std::path::Path>::as_ref(&y) == std::path::Path::new(&t.join("/")) => (),
            y => return Err(format!("{:?} as a relative path is {:?}", t, y)),
        }
        {
            use std::borrow::Borrow;
            let below = t.join("/");
            let rel = paths::RelPathBuf::try_from(below.as_str()).map_err(|x| format!("{:?} counts as absolute", x))?;
            let seen: [&std::path::Path; 2] = [rel.as_path().as_ref(), std::ops::Deref::deref(&rel).as_ref()];
            if seen != [std::path::Path::new(&below); 2] || PathBuf::from(rel.clone()) != PathBuf::from(&below) {
                return Err(format!("the relative path {:?} is {:?}", below, seen));
            }
            let full = show(&p);
            match <&AbsPath>::try_from(std::path::Path::new(&full)) {
                Ok(y) if y == kept && Borrow::<AbsPath>::borrow(&x) == y => (),
                y => return Err(format!("{} as an absolute path is {:?}", full, y)),
            }
            if <&AbsPath>::try_from(std::path::Path::new(&below)).is_ok() {
                return Err(format!("{} counts as absolute", below));
            }
            let mut set = std::collections::HashSet::new();
            set.insert(x.clone());
            if !set.contains(kept) || set.contains(y.as_path()) != (p == q) {
                return Err(format!("{:?} in a set of {:?}", kept, set));
            }
            let mut up = x.clone();
            if up.pop() == p.is_empty() || up.as_os_str() != std::ffi::OsStr::new(&show(&p[..p.len().saturating_sub(1)])) {
                return Err(format!("{:?} after pop is {:?}", kept, up));
            }
        }
        if let Some(name) = p.last().filter(|n| *n != "...") {
            let (stem, ext) = match name.rfind('.') {
                None | Some(0) => (name.as_str(), None),
                Some(k) => (&name[..k], Some(&name[k + 1..])),
            };
            if kept.file_stem().and_then(|y| y.to_str()) != Some(stem) || kept.extension().and_then(|y| y.to_str()) != ext {
                return Err(format!("stem or extension of {}", name));
            }
        }
        // relative paths are refused
        let relative = t.join("/");
        if AbsPathBuf::try_from(PathBuf::from(&relative)).is_ok() || AbsPathBuf::try_from(relative.as_str()).is_ok() {
            return Err(format!("{} counts as absolute", relative));
        }
        c.count("paths", 1);
        if spelled != show(&p) {
            c.nontrivial(&spelled);
        }
        c.sample(json!({"spelled": spelled, "is": show(&p)}));
        Ok(())
    });
    // names that are no strings
    let n = ctx.scaled(20_000, 600_000);
    ctx.cases("bytes", n, |r, c| {
        use std::ffi::OsStr;
        use std::os::unix::ffi::OsStrExt;
        const PARTS: &[&[u8]] = &[b"a", b"\xff", b"a\xc3", b"\xc3\xa9", b"\xed\xa0\x80", b"b.move", b"\xfe.move", b"x.\xff", b"\x7f ", b"\xef\xbf\xbd"];
        let bytes = |v: &[Vec<u8>]| -> Vec<u8> { [b"/".to_vec(), v.join(&b'/')].concat() };
        let names = |r: &mut Rng| -> Vec<Vec<u8>> { (0..r.range(1, 4)).map(|_| r.pick(PARTS).to_vec()).collect() };
        let mut list = |r: &mut Rng| -> (Vec<Vec<u8>>, Vec<u8>) {
            let p = names(r);
            let mut s = vec![];
            for x in &p {
                s.extend_from_slice(r.pick(&[&b"/"[..], b"//", b"/./", b"/\xff/../", b"/x/..//"]));
                s.extend_from_slice(x);
            }
            (p, s)
        };
        let make = |b: &[u8]| AbsPathBuf::assert(PathBuf::from(OsStr::from_bytes(b)));
        let (p, s) = list(r);
        let (q, t) = if r.bool() { list(r) } else { (p.clone(), bytes(&p)) };
        c.input(&format!("{:?} {:?}", OsStr::from_bytes(&s), OsStr::from_bytes(&t)));
        let (x, y) = (make(&s), make(&t));
        for (z, w) in [(&x, &p), (&y, &q)] {
            if z.normalize().as_os_str().as_bytes() != bytes(w) {
                return Err(format!("{:?} becomes {:?}", z, z.normalize()));
            }
        }
        let (v, w) = (VfsPath::from(x.clone()), VfsPath::from(y.clone()));
        if (v == w) != (p == q) || v.cmp(&w) != p.cmp(&q) || v.starts_with(&w) != p.starts_with(&q) {
            return Err(format!("{:?} and {:?}: equal {}, ordered {:?}, prefix {}", v, w, v == w, v.cmp(&w), v.starts_with(&w)));
        }
        let up = v.parent().and_then(|z| z.as_path().map(|z| z.as_os_str().as_bytes().to_vec()));
        if up != Some(bytes(&p[..p.len() - 1])) {
            return Err(format!("parent of {:?} is {:?}", v, v.parent()));
        }
        let name = p.last().unwrap();
        let (stem, ext) = match name.iter().rposition(|b| *b == b'.') {
            None | Some(0) => (&name[..], None),
            Some(k) => (&name[..k], Some(&name[k + 1..])),
        };
        let want = std::str::from_utf8(stem).ok().map(|s| (s, ext.and_then(|e| std::str::from_utf8(e).ok())));
        if v.name_and_extension() != want {
            return Err(format!("name and extension of {:?}: {:?}", v, v.name_and_extension()));
        }
        // two files are two, whatever their names
        let mut vfs = Vfs::default();
        vfs.set_file_contents(v.clone(), Some(b"1".to_vec()));
        vfs.set_file_contents(w.clone(), Some(b"2".to_vec()));
        let (a, b) = (vfs.file_id(&v), vfs.file_id(&w));
        if a.is_none() || b.is_none() || (a == b) != (p == q) {
            return Err(format!("files {:?} and {:?} are {:?} and {:?}", v, w, a, b));
        }
        if p.iter().any(|n| std::str::from_utf8(n).is_err()) {
            c.nontrivial(&format!("{:?}", OsStr::from_bytes(&s)));
            c.count("paths that are not UTF-8", 1);
        }
        Ok(())
    });
}
