// driver.js BUNDLE KIND SEED FROM COUNT SCRATCH: runs scenarios, one line of JSON for each.
'use strict';
const fs = require('fs');
const path = require('path');
const { Rng, Uri, World, quiet, resources } = require('./world');

const [, , bundle, kind, seed, from, count, scratch] = process.argv;
let uncaught = [];
process.on('uncaughtException', (e) => uncaught.push(String((e && e.stack) || e)));
process.on('unhandledRejection', () => {});
const realPlatform = process.platform;

class Violation extends Error {}
function claim(ok, text) {
    if (!ok) throw new Violation(typeof text === 'function' ? text() : text);
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

const LABELS = { linux: ['linux'], darwin: ['darwin'], win32: ['win', 'win64', 'windows'] };
const BINARIES = ['dove', 'move-language-server'];

function release(rng, dir, platform) {
    const style = rng.below(4);
    const version = rng.pick(['1.2.2', 'v1.5', '2021-10-11']);
    const arch = rng.pick(['x86_64', 'amd64', 'arm64']);
    const assets = [];
    for (const b of BINARIES) {
        for (const os of Object.keys(LABELS)) {
            const label = rng.pick(LABELS[os]);
            const ext = os === 'win32' && rng.chance(1, 2) ? '.exe' : '';
            const name = [`${b}-${label}-${arch}`, `${b}-${version}-${label}`, `${b}-${label}`, `${b}_${version}_${label}_${arch}`][style] + ext;
            let content;
            if (b === 'dove') {
                const status = os === platform && rng.chance(1, 15) ? 3 : 0;
                content = `#!/bin/sh\n# ${name}\n[ "$1" = --version ] && exit ${status}\n[ "$1" = metadata ] && [ -f Dove.toml ] && cat metadata.json\nexit ${status}\n`;
                assets.push({ b, os, name, status });
            } else {
                content = `not a script, ${name}\n`;
                assets.push({ b, os, name, status: 0 });
            }
            const size = rng.pick([0, 10, 5000, 70000, 300000]);
            content += '#'.repeat(rng.below(size + 1));
            Object.assign(assets[assets.length - 1], {
                bytes: Buffer.from(content + '\n#end'),
                browser_download_url: `https://github.com/pontem-network/move-tools/releases/download/x/${encodeURIComponent(name)}`,
            });
        }
    }
    for (const name of ['sha256sums.txt', 'libdove-linux-darwin-win.so', 'source.zip', 'old-move-language-server-linux', 'not-dove-win']) {
        if (rng.chance(1, 2)) {
            assets.push({ b: '', os: '', name, bytes: Buffer.from('other'), browser_download_url: `https://github.com/other/${name}` });
        }
    }
    const missing = rng.chance(1, 20);
    const list = missing ? assets.filter((a) => !(a.b === 'dove' && a.os === platform)) : assets;
    rng.shuffle(list);
    return { assets: list, missing };
}

function metadata(rng, dir) {
    const name = () => rng.pick(['stdlib', 'mod ules', 'ünï', '模块', 'a"b', 'deps/x', '😀']) + rng.below(100);
    const list = (n) => Array.from({ length: rng.below(n) }, () => `${dir}/${name()}`);
    const long = rng.chance(1, 3) ? 200 : 3;
    const git = Array.from({ length: rng.below(4) }, () => ({
        git: 'https://example.com/x.git', branch: rng.pick([null, 'main']), rev: null, tag: null, path: null, local_paths: list(4),
    }));
    return {
        package: {
            name: name(), account_address: rng.pick(['0x1', '5GrwvaEF', 'wallet1ю']), authors: [name()], blockchain_api: null,
            local_dependencies: list(long), git_dependencies: git, dialect: rng.pick(['diem', 'dfinance', 'pont']),
        },
        layout: {
            modules_dir: `${dir}/${rng.pick(['src', 'modules', 'мод'])}`, scripts_dir: `${dir}/scripts`, tests_dir: `${dir}/tests`,
            modules_output: 'artifacts/modules', scripts_output: 'artifacts/scripts', transactions_output: 'artifacts/transactions',
            deps: 'artifacts/.external', artifacts: 'artifacts', index: 'artifacts/.Dove.man',
        },
    };
}

/** What a server is told of a project. */
function options_for(m) {
    const folders = m.package.local_dependencies.slice();
    m.package.git_dependencies.forEach((d) => d.local_paths.forEach((p) => folders.push(p)));
    folders.push(m.layout.modules_dir);
    return { dialect: m.package.dialect, modules_folders: folders, sender_address: m.package.account_address, stdlib: null };
}
function options_of(o) {
    return { dialect: o.dialect, modules_folders: o.modules_folders, sender_address: o.sender_address, stdlib: o.stdlib_folder === undefined ? null : o.stdlib_folder };
}

function fresh(dir) {
    fs.rmSync(dir, { recursive: true, force: true });
    fs.mkdirSync(dir, { recursive: true });
}

/** Watches the files of a storage: each is absent, or whole. */
function watcher(dir, assets, state) {
    const seen = new Map();
    return () => {
        state.turns++;
        let names;
        try {
            names = fs.readdirSync(dir);
        } catch (e) {
            return;
        }
        for (const n of names) {
            const a = assets.find((a) => a.name === n);
            if (!a) {
                state.temporary.add(n);
                continue;
            }
            let s;
            try {
                s = fs.statSync(path.join(dir, n));
            } catch (e) {
                continue;
            }
            const id = `${s.ino} ${s.size} ${s.mtimeMs}`;
            if (seen.get(n) === id) continue;
            seen.set(n, id);
            state.looked++;
            if (!fs.readFileSync(path.join(dir, n)).equals(a.bytes) && !state.torn) {
                state.torn = `${n} has ${s.size} of ${a.bytes.length} bytes, or other ones, at turn ${state.turns}`;
            }
        }
    };
}

function network(rng, w, assets, faults) {
    w.failed = 0;
    w.answer = async (rec) => {
        const fault = w.faults_left > 0 && rng.chance(faults, 10) ? rng.pick(['reject', 'status', 'json', 'abort', 'abort', 'abort']) : null;
        const api = rec.url.startsWith('https://api.github.com/');
        const a = assets.find((a) => a.browser_download_url === rec.url);
        rec.kind = api ? 'release' : a ? 'asset' : 'other';
        rec.name = a && a.name;
        if (fault) {
            w.faults_left--;
            rec.fault = fault;
        }
        if (!api && !a) {
            rec.fault = 'no such thing';
            w.failed++;
            return w.response(404, {}, 'not found');
        }
        const body = api
            ? Buffer.from(JSON.stringify({ name: 'r', id: 1, published_at: '', assets: assets.map((a) => ({ name: a.name, browser_download_url: a.browser_download_url })) }))
            : a.bytes;
        if (fault === 'reject' || (fault === 'json' && !api)) {
            w.failed++;
            const e = new Error(`request to ${rec.url} failed, reason: getaddrinfo ENOTFOUND`);
            e.code = 'ENOTFOUND';
            throw e;
        }
        if (fault === 'status') {
            w.failed++;
            // what comes with the status may look like an answer
            const like = rng.chance(1, 2) ? body : Buffer.from('bad');
            return w.response(rng.pick([301, 401, 403, 404, 429, 500, 502, 503]), { 'content-length': like.length }, like);
        }
        if (fault === 'json') {
            w.failed++;
            return w.response(200, {}, '<html>');
        }
        if (fault === 'abort') {
            w.failed++;
            rec.at = rng.pick([0, rng.below(body.length), rng.below(body.length), body.length - 1]);
            return w.response(200, { 'content-length': body.length }, body, rec.at);
        }
        const headers = rng.chance(1, 10) ? {} : { 'content-length': body.length };
        rec.measured = 'content-length' in headers;
        return w.response(200, headers, body);
    };
    w.input = () => rng.pick([undefined, '', `token${rng.below(1000)}`, ` token ${rng.below(1000)} `, 'null', 'Tökên']);
    w.choose = (text, items) => {
        const of = (re) => items.find((i) => re.test(i.title || i));
        const r = rng.below(20);
        return r < 12 ? of(/retry/i) : r < 17 ? of(/token/i) : r < 19 ? of(/dismiss/i) : undefined;
    };
}

/** The disk of a storage, which fails at times: nothing can be written to it, or put in place. */
function disk(rng, dir, state) {
    const { rename } = fs.promises;
    const { createWriteStream } = fs;
    const here = (p) => path.dirname(String(p)) === dir;
    const fail = (code) => {
        state.left--;
        state.failed++;
        return Object.assign(new Error(`${code}: the disk`), { code });
    };
    fs.promises.rename = async (a, b) => {
        if (here(b) && state.left > 0 && rng.chance(1, 3)) throw fail(rng.pick(['EPERM', 'EBUSY', 'EACCES', 'EXDEV']));
        return rename.call(fs.promises, a, b);
    };
    fs.createWriteStream = (p, ...rest) => {
        const out = createWriteStream.call(fs, p, ...rest);
        // one failure at a time
        if (here(p) && state.left > 0 && !state.faulty() && rng.chance(1, 3)) {
            const write = out._write;
            let room = rng.pick([0, 1, 3000, 60000]);
            let full = false;
            out._writev = null;
            out._write = function (chunk, encoding, done) {
                room -= chunk.length;
                if (room >= 0 || full || state.left <= 0) return write.call(this, chunk, encoding, done);
                full = true;
                done(fail('ENOSPC'));
            };
        }
        return out;
    };
    return () => {
        fs.promises.rename = rename;
        fs.createWriteStream = createWriteStream;
    };
}

const whole = (p, a) => {
    try {
        return fs.readFileSync(p).equals(a.bytes) && (fs.statSync(p).mode & 0o111) !== 0;
    } catch (e) {
        return false;
    }
};

async function bootstrap(rng, dir, note) {
    const undo = [];
    try {
        await bootstrapping(rng, dir, note, undo);
    } finally {
        undo.forEach((f) => f());
    }
}

async function bootstrapping(rng, dir, note, undo) {
    const platform = rng.chance(1, 25) ? 'freebsd' : rng.pick(['linux', 'darwin', 'win32']);
    Object.defineProperty(process, 'platform', { value: platform });
    process.env.HOME = path.join(dir, 'home');
    fs.mkdirSync(process.env.HOME);
    const storage = path.join(dir, rng.pick(['storage', 'st orage', 'deep/er/stör']));
    const { assets, missing } = release(rng, storage, platform);
    const wanted = Object.fromEntries(BINARIES.map((b) => [b, assets.find((a) => a.b === b && a.os === platform)]));
    const folder = { uri: Uri.file(path.join(dir, 'project')), name: 'project', index: 0 };
    fs.mkdirSync(folder.uri.path);
    fs.writeFileSync(path.join(folder.uri.path, 'Dove.toml'), '');
    const meta = metadata(rng, folder.uri.path);
    fs.writeFileSync(path.join(folder.uri.path, 'metadata.json'), JSON.stringify(meta));

    const windows = rng.chance(1, 4) ? 2 : 1;
    const explicit = {};
    const before = {};
    for (const b of BINARIES) {
        if (rng.chance(1, 6)) {
            const home = rng.chance(1, 2);
            const name = rng.pick([`own ${b}`, `~/own ~${b}~`, `a~/~/${b}`, ` ${b} `, `$HOME/%20${b}`]);
            const p = path.join(home ? process.env.HOME : dir, name);
            fs.mkdirSync(path.dirname(p), { recursive: true });
            fs.writeFileSync(p, `#!/bin/sh\n[ "$1" = metadata ] && cat metadata.json\nexit 0\n`, { mode: 0o755 });
            explicit[b] = { path: p, setting: home ? `~/${name}` : p };
            if (b !== 'dove' && rng.chance(1, 4)) {
                // no home directory, taken as it is
                const as_is = rng.pick(['~user/bin/server', '~', '~~/server', 'server', '.~/server', ' ~/server']);
                explicit[b] = { path: as_is, setting: as_is };
            }
        } else if (wanted[b] && rng.chance(1, 4)) {
            fs.mkdirSync(storage, { recursive: true });
            const p = path.join(storage, wanted[b].name);
            fs.writeFileSync(p, wanted[b].bytes, { mode: 0o755 });
            before[b] = { path: p, stat: fs.statSync(p) };
        }
    }
    const faults = rng.pick([0, 0, 2, 5]);
    const state = { turns: 0, looked: 0, torn: null, temporary: new Set() };
    const watch = watcher(storage, assets, state);
    const worlds = [];
    const broken = { left: windows === 1 && rng.chance(1, 4) ? 1 + rng.below(3) : 0, failed: 0 };
    broken.faulty = () => worlds[0].requests[worlds[0].requests.length - 1].fault;
    if (broken.left) undo.push(disk(rng, storage, broken));
    const copy = { at: rng.chance(1, 2) ? rng.below(400) : -1, dir: path.join(dir, 'copy'), done: false };
    const doc = path.join(folder.uri.path, 'a.move');
    const start = (storage, faults) => {
        const w = new World(new Rng(rng.below(1 << 30)), { folders: [folder], faults_left: 6 });
        if (rng.chance(1, 4)) w.memento.githubToken = 'stored';
        if (explicit.dove) w.settings.doveExecutablePath = explicit.dove.setting;
        if (explicit['move-language-server']) w.settings.languageServerPath = explicit['move-language-server'].setting;
        network(rng, w, assets, faults);
        w.editor = { document: w.document(doc, 'move') };
        w.on_start = (r) => {
            r.whole = wanted['move-language-server'] && whole(r.server.run.command, wanted['move-language-server']);
        };
        const ext = w.load(bundle);
        w.context_ = w.context(storage);
        w.activation = ext.activate(w.context_).then(
            () => (w.result = 'active'),
            (e) => (w.result = `failed: ${e && e.message}`)
        );
        return w;
    };
    for (let i = 0; i < windows; i++) worlds.push(start(storage, faults));
    await quiet(worlds, () => {
        watch();
        if (!copy.done && copy.at >= 0 && state.turns > copy.at) {
            copy.done = true;
            for (const n of fs.existsSync(storage) ? fs.readdirSync(storage) : []) {
                try {
                    const from = path.join(storage, n);
                    const bytes = fs.readFileSync(from);
                    fs.mkdirSync(copy.dir, { recursive: true });
                    fs.writeFileSync(path.join(copy.dir, n), bytes, { mode: fs.statSync(from).mode & 0o777 });
                } catch (e) {
                    // renamed in the meantime
                }
            }
        }
    });
    watch();
    note.input = JSON.stringify({ platform, windows, explicit, before: Object.keys(before), missing, names: assets.map((a) => a.name), events: worlds.map((w) => w.events) });
    note.key = JSON.stringify([platform, windows, Object.keys(explicit), Object.keys(before), missing, worlds.map((w) => w.events.map((e) => [e.kind, e.fault, e.answer, e.name, e.url && e.url.length]))]);
    note.turns = state.turns;
    note.states = state.looked;
    note.requests = worlds.reduce((n, w) => n + w.requests.length, 0);
    worlds[0].failed += broken.failed;
    note.disk = broken.failed;
    note.faults = worlds.reduce((n, w) => n + w.failed, 0);
    claim(!state.torn, () => `a file that is used was not whole: ${state.torn}`);
    claim(!uncaught.length, () => `uncaught: ${uncaught[0]}`);
    const supported = platform in LABELS;
    const judge = (w, final_storage) => {
        claim(w.requests.length <= 300, 'requests without end');
        claim(w.result !== undefined, 'the activation never ends');
        // each failure is reported, and nothing else
        claim(w.failed === w.dialogs.length, () => `${w.failed} requests failed, ${w.dialogs.length} times the user was asked`);
        // every dialog is answered by a retry, or it was the last word
        const dismissed = w.dialogs.filter((d) => !d.answer || /dismiss/i.test(d.answer.title));
        claim(dismissed.length <= 1, 'asked again after it was dismissed');
        let dialogs = 0;
        let gone = false;
        for (const e of w.events) {
            if (e.kind === 'message' && e.answer === undefined && w.dialogs.some((d) => d.text === e.text)) {
                const d = w.dialogs[dialogs];
                if (d && d.text === e.text && !d.answer) gone = true;
            }
            if (e.kind === 'message' && e.answer !== undefined) dialogs++;
            if (e.kind === 'message' && /dismiss/i.test(e.answer || '')) gone = true;
            if (e.kind === 'request') {
                claim(!gone, 'a request after the dialog was dismissed');
                if (e.url.startsWith('https://api.github.com/')) {
                    claim(e.auth === (e.token ? `token ${e.token}` : undefined), () => `the token is ${e.token}, sent was ${e.auth}`);
                } else {
                    claim(e.auth === undefined, 'the token was sent with a download');
                }
            }
        }
        // what the user enters is stored
        let want = undefined;
        const stored = w.events.filter((e) => e.kind === 'input' || e.kind === 'state');
        for (let i = 0; i < stored.length; i++) {
            const e = stored[i];
            if (e.kind === 'state') continue;
            claim(e.password === true, 'the token is shown while it is entered');
            const next = stored[i + 1];
            if (e.answer === undefined) claim(!next || next.kind === 'input', 'an aborted dialog changed the token');
            else {
                claim(next && next.kind === 'state' && next.key === 'githubToken', 'the token was not stored');
                claim((next.value || '') === e.answer, () => `the token entered is ${e.answer}, stored was ${next.value}`);
            }
        }
        const dove_fails = wanted.dove && !explicit.dove && wanted.dove.status !== 0;
        const needs_platform = !(explicit.dove && explicit['move-language-server']);
        const asset_missing = (missing && !explicit.dove) || (!supported && needs_platform);
        const must_fail = dismissed.length > 0 || asset_missing || dove_fails;
        const running = w.clients.filter((c) => c.running);
        if (must_fail) {
            claim(w.result !== 'active', 'active though an executable is not there');
            claim(running.length === 0, 'a server was started though an executable is not there');
            claim(w.events.some((e) => e.kind === 'message' && e.level === 'error'), 'a failure which nobody is told of');
            return false;
        }
        claim(w.result === 'active', () => `not active: ${w.result}`);
        claim(running.length === 1, () => `${running.length} servers are running`);
        const command = running[0].server.run.command;
        const own = explicit['move-language-server'];
        if (own) claim(command === own.path, () => `the server's path is set to ${own.setting}, started was ${command}`);
        else {
            claim(running[0].whole, () => `the server started, ${command}, is not the whole executable`);
            claim(running[0].server.debug.command === command, 'another server for debugging');
        }
        if (!explicit.dove) claim(whole(path.join(final_storage, wanted.dove.name), wanted.dove), 'dove is not there, or not executable');
        claim(same(options_of(running[0].client.initializationOptions), options_for(meta)), 'the project is described wrongly');
        for (const b of BINARIES) {
            const asked = w.requests.filter((r) => wanted[b] && r.name === wanted[b].name);
            if (explicit[b] || (before[b] && final_storage === storage)) claim(asked.length === 0, `${b} was downloaded though it is there`);
            if (!explicit[b] && !before[b] && windows === 1 && final_storage === storage) {
                const n = asked.filter((r) => !r.fault).length;
                claim(n >= 1 && n <= 1 + broken.failed, `${b} was downloaded more than once`);
            }
        }
        if (explicit.dove && own) claim(w.requests.length === 0, 'requests though both paths are set');
        claim(
            w.requests.every((r) => r.kind === 'release' || BINARIES.some((b) => wanted[b] && r.name === wanted[b].name)),
            () => `requested ${w.requests.map((r) => r.url)}`
        );
        for (const p of w.progress) claim(p.ended, 'a progress bar stays');
        const full = w.requests.filter((r) => r.kind === 'asset' && !r.fault && r.measured).length - (final_storage === storage ? broken.failed : 0);
        const done = w.progress.filter((p) => Math.abs(p.increments.reduce((a, b) => a + b, 0) - 100) < 1e-6).length;
        claim(done >= full, () => `${full} downloads, ${done} of them reached 100%`);
        return true;
    };
    const good = worlds.map((w) => judge(w, storage));
    for (const b of BINARIES) {
        if (!before[b]) continue;
        const s = fs.statSync(before[b].path);
        claim(s.ino === before[b].stat.ino && s.mtimeMs === before[b].stat.mtimeMs, `${b} was there, and was replaced`);
    }
    if (good.every((g) => g) && note.faults === 0) {
        const left = fs.existsSync(storage) ? fs.readdirSync(storage).filter((n) => !assets.some((a) => a.name === n)) : [];
        claim(left.length === 0, () => `left behind: ${left}`);
    }
    // the window is killed at some moment, and opened again
    if (copy.done) {
        const w = start(copy.dir, 0);
        await quiet([w]);
        note.killed = 1;
        judge(w, copy.dir);
        worlds.push(w);
    }
    for (const w of worlds) {
        while (w.context_.subscriptions.length) w.context_.subscriptions.pop().dispose();
    }
    await quiet(worlds);
    for (const w of worlds) claim(!w.clients.some((c) => c.running), 'a server is running after the window was closed');
}

const errors_said = (w) => w.events.filter((e) => e.kind === 'message' && e.level !== 'information').length;

async function session(rng, dir, note) {
    const dove = path.join(dir, 'dove');
    const script = `#!/bin/sh
[ "$1" = --version ] && exit 0
[ "$1" = metadata ] || exit 0
[ -f Dove.toml ] && [ -f metadata.json ] || { echo "error: bad manifest" >&2; exit 1; }
[ -f warn ] && echo "warning: something is odd" >&2
n=\`cat split 2>/dev/null\`
if [ -n "$n" ]; then cp metadata.json $$.json; head -c $n $$.json; sleep 0.01; tail -c +$(($n + 1)) $$.json; rm $$.json; else cat metadata.json; fi
`;
    fs.writeFileSync(dove, script, { mode: 0o755 });
    const server = path.join(dir, 'server');
    const w = new World(new Rng(rng.below(1 << 30)), { folders: [] });
    w.settings.doveExecutablePath = dove;
    w.settings.languageServerPath = server;
    w.answer = async () => w.response(404, {}, '');
    const P = [];
    const n = 1 + rng.below(3);
    for (let i = 0; i < n; i++) {
        // folders of one name in different places, folders within folders
        const within = i > 0 && rng.chance(1, 4) ? rng.pick(P).dir : dir;
        const base = rng.pick(['p', 'pro ject', 'прое']);
        const d = path.join(within, rng.chance(1, 2) ? base + i : `${i}/${base}`);
        fs.mkdirSync(d, { recursive: true });
        const f = { uri: Uri.file(d), name: path.basename(d), index: i };
        w.folders.push(f);
        const p = { dir: d, folder: f, meta: null, state: 'none', options: null };
        p.docs = {
            move: w.document(`${d}/src/a.move`, 'move'), other: w.document(`${d}/b.move`, 'move'), toml: w.document(`${d}/Dove.toml`, 'toml'),
            text: w.document(`${d}/read.me`, 'plaintext'), git: w.document(`${d}/src/a.move`, 'move', 'git'),
        };
        P.push(p);
    }
    const outside = w.document('/nowhere/x.move', 'move');
    const exists = (p) => fs.existsSync(`${p.dir}/Dove.toml`);
    const versions = new Map(P.map((p) => [p.dir, []]));
    const set = (p, valid) => {
        fs.rmSync(`${p.dir}/split`, { force: true });
        if (rng.chance(1, 3)) fs.writeFileSync(`${p.dir}/warn`, '');
        else fs.rmSync(`${p.dir}/warn`, { force: true });
        if (!valid) {
            p.meta = null;
            fs.rmSync(`${p.dir}/metadata.json`, { force: true });
            return;
        }
        p.meta = metadata(rng, p.dir);
        versions.get(p.dir).push(JSON.stringify(options_for(p.meta)));
        const bytes = Buffer.from(rng.pick(['', '', '\n', ' ']) + JSON.stringify(p.meta, null, rng.pick([0, 0, 2])) + '\n');
        // in one step: what reads it sees the old one or the new one
        fs.writeFileSync(`${p.dir}/new`, bytes);
        fs.renameSync(`${p.dir}/new`, `${p.dir}/metadata.json`);
        if (rng.chance(1, 2)) {
            // where a character is cut, if there is one of several bytes
            const wide = [];
            bytes.forEach((b, i) => b >= 0x80 && b < 0xc0 && wide.push(i));
            fs.writeFileSync(`${p.dir}/split`, String(wide.length ? rng.pick(wide) : rng.below(bytes.length)));
        }
    };
    for (const p of P) {
        if (rng.chance(4, 5)) fs.writeFileSync(`${p.dir}/Dove.toml`, '');
        set(p, rng.chance(4, 5));
    }
    const steps = [];
    const project_of = (doc) =>
        P.filter((p) => doc.uri.scheme === 'file' && doc.uri.path.startsWith(p.dir + '/')).sort((a, b) => b.dir.length - a.dir.length)[0];
    const is_move = (doc) => doc.uri.scheme === 'file' && (doc.languageId === 'move' || doc.uri.path.endsWith('Dove.toml'));
    const valid = (p) => exists(p) && p.meta;
    // the model of what runs
    const init = (doc) => {
        const p = doc && project_of(doc);
        if (!p || !exists(p) || !is_move(doc) || p.state !== 'none') return;
        p.state = valid(p) ? 'running' : 'failed';
        p.options = p.meta && JSON.stringify(options_for(p.meta));
    };
    const reload = () => {
        P.forEach((p) => (p.state = 'none'));
        init(w.editor && w.editor.document);
    };
    const manifest = (p) => valid(p) && reload();
    const docs = P.flatMap((p) => Object.values(p.docs)).concat([outside]);
    const ext = w.load(bundle);
    const context = w.context(path.join(dir, 'storage'));
    if (rng.chance(3, 4)) w.editor = { document: rng.pick(docs) };

    const judge = (calm, what) => {
        claim(!uncaught.length, () => `uncaught: ${uncaught[0]}`);
        for (const p of P) {
            const mine = w.clients.filter((c) => c.running && c.client.workspaceFolder === p.folder);
            claim(mine.length <= 1, () => `${mine.length} servers for ${p.dir} after ${what}`);
            if (calm && p.state !== 'unknown') {
                const want = p.state === 'running' ? 1 : 0;
                claim(mine.length === want, () => `${mine.length} instead of ${want} servers for ${p.dir} after ${what}`);
            }
            for (const c of mine) {
                claim(c.started === 1, 'a client was started more than once');
                claim(c.server.run.command === server, () => `the server is ${server}, started was ${c.server.run.command}`);
                const cwd = c.server.run.options && c.server.run.options.cwd;
                claim(cwd === p.dir, () => `the server of ${p.dir} runs in ${cwd}`);
                const o = JSON.stringify(options_of(c.client.initializationOptions));
                claim(versions.get(p.dir).includes(o), () => `the project is described wrongly: ${o}, not ${versions.get(p.dir)}`);
                if (calm && p.state === 'running') claim(o === p.options, () => `the server runs with the options of before after ${what}`);
                const sel = c.client.documentSelector;
                claim(
                    Array.isArray(sel) && sel.some((s) => s.language === 'move' && s.scheme === 'file' && String(s.pattern).startsWith(p.dir)),
                    'the server is not given the documents of its project'
                );
            }
        }
        const strange = w.clients.filter((c) => c.running && !P.some((p) => p.folder === c.client.workspaceFolder));
        claim(!strange.length, 'a server of no folder');
        const live = w.providers.filter((p) => p.live).length;
        const run = w.clients.filter((c) => c.running).length;
        claim(live === run, () => `${live} providers of tasks for ${run} servers after ${what}`);
    };

    let result;
    ext.activate(context).then(() => (result = 'active'), (e) => (result = String(e && e.message)));
    await quiet([w]);
    init(w.editor && w.editor.document);
    steps.push(['activate', w.editor ? w.editor.document.uri.toString() : null]);
    const input = () => (note.input = JSON.stringify({ folders: P.map((p) => p.dir), steps, events: w.events }));
    input();
    claim(result === 'active', () => `the activation ${result === undefined ? 'never ends' : 'failed: ' + result}`);
    judge(true, 'activation');
    const events = 3 + rng.below(12);
    let burst = false;
    for (let i = 0; i < events; i++) {
        const p = rng.pick(P);
        const calm = rng.chance(3, 5);
        const others = P.filter((q) => q.state === 'none' && valid(q));
        const r = rng.below(20);
        let step;
        let model = () => {};
        let bad;
        const said = errors_said(w);
        if (r < 7) {
            const doc = rng.chance(1, 12) ? undefined : rng.chance(1, 2) ? p.docs.move : rng.pick(docs);
            step = ['show', doc ? doc.uri.toString() : null];
            w.show(doc);
            model = () => init(doc);
        } else if (r < 9) {
            const doc = rng.pick(docs.filter((d) => d.languageId !== 'toml'));
            step = ['save', doc.uri.toString()];
            w.fire('save', doc);
        } else if (r < 13) {
            const ok = rng.chance(3, 4);
            fs.writeFileSync(`${p.dir}/Dove.toml`, '');
            set(p, ok);
            step = ['save', `${p.dir}/Dove.toml`, ok];
            w.fire('save', p.docs.toml);
            bad = !valid(p);
            model = () => {
                init(p.docs.toml);
                manifest(p);
            };
        } else if (r < 15) {
            if (exists(p)) continue;
            fs.writeFileSync(`${p.dir}/Dove.toml`, '');
            set(p, true);
            step = ['create', `${p.dir}/Dove.toml`];
            w.fire('create', { files: [p.docs.text.uri, p.docs.toml.uri] });
            model = () => manifest(p);
        } else if (r < 16) {
            fs.rmSync(`${p.dir}/Dove.toml`, { force: true });
            step = ['delete', `${p.dir}/Dove.toml`];
            w.fire('delete', { files: [p.docs.toml.uri] });
            bad = true;
            model = () => manifest(p);
        } else if (r < 17) {
            const key = rng.pick(['move.languageServerPath', 'move.doveExecutablePath', 'move.trace.extension', 'editor.fontSize', 'moved.trace']);
            step = ['configuration', key];
            w.fire('configuration', { affectsConfiguration: (s) => (key + '.').startsWith(s + '.') });
            if (key.startsWith('move.')) model = reload;
        } else if (r < 18) {
            step = ['reload'];
            const f = w.commands.get('move.reload');
            if (f) {
                w.log('command', { name: 'move.reload' });
                f();
            }
            model = reload;
        } else if (calm && !burst && others.length && others.some((q) => q.folder)) {
            // dove goes away while nothing is going on, and comes back
            const q = rng.pick(others);
            if (!w.clients.length) continue;
            step = ['dove is away', q.docs.move.uri.toString()];
            fs.renameSync(dove, dove + '.away');
            w.show(q.docs.move);
            await quiet([w]);
            fs.renameSync(dove + '.away', dove);
            model = () => P.forEach((x) => x === q && (x.state = 'unknown'));
        } else continue;
        steps.push(step.concat(calm ? [] : ['at once']));
        if (!calm) {
            burst = true;
            for (let k = rng.below(40); k > 0; k--) await new Promise((r) => setImmediate(r));
            if (rng.chance(1, 3)) await new Promise((r) => setTimeout(r, rng.below(20)));
            continue;
        }
        await quiet([w]);
        input();
        if (burst) P.forEach((p) => (p.state = 'unknown'));
        else model();
        judge(true, step.join(' '));
        if (bad && !burst) claim(errors_said(w) > said, () => `nobody is told that the manifest is invalid after ${step.join(' ')}`);
        if (bad && !burst) note.told = (note.told || 0) + 1;
        claim(w.commands.has('move.reload'), () => `the extension is gone after ${step.join(' ')}`);
        if (burst) {
            burst = false;
            w.log('command', { name: 'move.reload' });
            w.commands.get('move.reload')();
            await quiet([w]);
            reload();
            steps.push(['reload']);
            input();
            judge(true, 'a reload');
        }
    }
    await quiet([w]);
    input();
    judge(false, 'everything');
    // a manifest is repaired
    const p = rng.pick(P);
    fs.writeFileSync(`${p.dir}/Dove.toml`, '');
    set(p, true);
    w.fire('save', p.docs.toml);
    await quiet([w]);
    reload();
    w.show(p.docs.move);
    await quiet([w]);
    init(p.docs.move);
    steps.push(['save and show', p.dir]);
    input();
    judge(true, 'saving the manifest and showing a document');
    for (const pr of w.providers.filter((p) => p.live)) {
        const tasks = await pr.provider.provideTasks();
        const cwd = tasks.map((t) => t.execution.options && t.execution.options.cwd);
        claim(same(tasks.map((t) => t.execution.args.join(' ')).sort(), ['build', 'test']), 'the tasks are not build and test');
        claim(tasks.every((t) => t.execution.command === dove), 'the tasks do not run dove');
        claim(tasks.every((t) => cwd[0] === t.execution.options.cwd) && P.some((p) => p.dir === cwd[0]), () => `the tasks run in ${cwd}`);
        claim(tasks.every((t) => t.group && t.group.id === t.execution.args[0]), 'the groups of the tasks are wrong');
    }
    // the window is closed, perhaps while things are under way
    if (rng.chance(1, 2)) {
        w.show(rng.pick(docs));
        for (let k = rng.below(60); k > 0; k--) await new Promise((r) => setImmediate(r));
        if (rng.chance(1, 3)) await new Promise((r) => setTimeout(r, rng.below(20)));
    }
    await ext.deactivate();
    while (context.subscriptions.length) context.subscriptions.pop().dispose();
    await quiet([w]);
    steps.push(['close']);
    input();
    claim(!uncaught.length, () => `uncaught: ${uncaught[0]}`);
    const left = w.clients.filter((c) => c.running).map((c) => c.client.workspaceFolder.uri.path);
    claim(!left.length, () => `running after the window was closed: ${left}`);
    claim(!w.providers.some((p) => p.live), 'tasks are offered after the window was closed');
    note.key = JSON.stringify(steps.map((s) => s.map((x) => String(x).replace(dir, ''))));
    note.clients = w.clients.length;
    note.reloads = w.events.filter((e) => e.kind === 'command').length;
    note.steps = steps.length;
}

(async () => {
    // what node opens when it is first used is there from the start
    for (const s of [process.stdin, process.stdout, process.stderr]) s.pause && s.fd;
    await new Promise((r) => setTimeout(r, 20));
    await quiet([]);
    for (let i = +from; i < +from + +count; i++) {
        const rng = new Rng(BigInt(seed) * 1000003n + BigInt(i));
        const dir = path.join(scratch, `s${i}`);
        fresh(dir);
        uncaught = [];
        const note = { n: i };
        try {
            await (kind === 'bootstrap' ? bootstrap : session)(rng, dir, note);
            note.ok = true;
            if (i % 200 !== 0) delete note.input;
        } catch (e) {
            if (e instanceof Violation) note.violation = e.message;
            else note.error = String((e && e.stack) || e);
        }
        Object.defineProperty(process, 'platform', { value: realPlatform });
        fs.rmSync(dir, { recursive: true, force: true });
        fs.writeSync(1, JSON.stringify(note) + '\n');
    }
    process.exit(0);
})();
