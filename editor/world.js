// What surrounds the extension: an editor, language clients, a network. Everything that happens
// is recorded in `events`.
'use strict';
const fs = require('fs');
const path = require('path');
const { Readable } = require('stream');
const Module = require('module');

class Rng {
    constructor(seed) {
        this.s = BigInt.asUintN(64, BigInt(seed) * 0x9e3779b97f4a7c15n + 0x1234567n);
        // without this the streams of successive seeds would be one stream, shifted
        this.s = this.next();
    }
    next() {
        this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
        let z = this.s;
        z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
        z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
        return z ^ (z >> 31n);
    }
    below(n) {
        return Number(this.next() % BigInt(n));
    }
    chance(n, of) {
        return this.below(of) < n;
    }
    pick(a) {
        return a[this.below(a.length)];
    }
    shuffle(a) {
        for (let i = a.length - 1; i > 0; i--) {
            const j = this.below(i + 1);
            [a[i], a[j]] = [a[j], a[i]];
        }
        return a;
    }
}

class Uri {
    constructor(scheme, p) {
        this.scheme = scheme;
        this.authority = '';
        this.path = p;
        this.query = '';
        this.fragment = '';
    }
    static file(p) {
        return new Uri('file', p);
    }
    static parse(s) {
        const i = s.indexOf(':');
        return new Uri(s.slice(0, i), s.slice(i + 1).replace(/^\/\//, ''));
    }
    static joinPath(u, ...parts) {
        return new Uri(u.scheme, path.posix.join(u.path, ...parts));
    }
    get fsPath() {
        return this.path;
    }
    with(o) {
        return new Uri(o.scheme || this.scheme, o.path || this.path);
    }
    toString() {
        return `${this.scheme}://${encodeURI(this.path)}`;
    }
    toJSON() {
        return { scheme: this.scheme, path: this.path };
    }
}

class World {
    constructor(rng, opts) {
        this.rng = rng;
        this.events = [];
        /** things of ours under way: requests, dialogs, stopping clients */
        this.pending = 0;
        this.commands = new Map();
        this.folders = [];
        this.editor = undefined;
        this.settings = { 'trace.extension': rng.chance(1, 2), languageServerPath: '', doveExecutablePath: '' };
        this.memento = {};
        this.clients = [];
        this.providers = [];
        this.errors = [];
        this.listeners = {};
        this.faults = [];
        this.requests = [];
        this.dialogs = [];
        this.progress = [];
        Object.assign(this, opts);
    }
    log(kind, o) {
        this.events.push(Object.assign({ kind }, o));
    }
    /** Settles after a random number of turns. */
    async later(max = 3) {
        this.pending++;
        try {
            const n = this.rng.below(max + 1);
            for (let i = 0; i < n; i++) await new Promise((r) => setImmediate(r));
            if (this.rng.chance(1, 10)) await new Promise((r) => setTimeout(r, this.rng.below(5)));
        } finally {
            this.pending--;
        }
    }
    event(name) {
        const list = (this.listeners[name] = this.listeners[name] || new Set());
        return (f, self, disposables) => {
            const l = { f: self ? f.bind(self) : f };
            list.add(l);
            const d = { dispose: () => void list.delete(l) };
            if (disposables) disposables.push(d);
            return d;
        };
    }
    fire(name, arg) {
        for (const l of [...(this.listeners[name] || [])]) {
            // as the editor does: what a listener throws is logged, the next ones are called
            try {
                const r = l.f(arg);
                if (r && r.then) r.then(undefined, (e) => this.log('listener failed', { name, error: String(e && e.message) }));
            } catch (e) {
                this.log('listener failed', { name, error: String(e && e.message) });
            }
        }
    }
    vscode() {
        const w = this;
        const out = { appendLine() {}, append() {}, show() {}, clear() {}, hide() {}, dispose() {}, name: '' };
        const folder_of = (uri) => {
            const f = w.folders.filter((f) => uri.scheme === 'file' && (uri.path + '/').startsWith(f.uri.path + '/'));
            return f.sort((a, b) => b.uri.path.length - a.uri.path.length)[0];
        };
        const message = (level) => (text, ...rest) => w.message(level, text, rest);
        return {
            Uri,
            ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 },
            TaskGroup: { Build: { id: 'build' }, Test: { id: 'test' }, Clean: {}, Rebuild: {} },
            TaskScope: { Global: 1, Workspace: 2 },
            ShellExecution: class {
                constructor(command, args, options) {
                    Object.assign(this, { command, args, options });
                }
            },
            ProcessExecution: class {
                constructor(process, args, options) {
                    Object.assign(this, { process, args, options });
                }
            },
            Task: class {
                constructor(definition, scope, name, source, execution) {
                    Object.assign(this, { definition, scope, name, source, execution });
                }
            },
            Disposable: class {
                constructor(f) {
                    this.f = f;
                }
                static from(...d) {
                    return { dispose: () => d.forEach((x) => x.dispose()) };
                }
                dispose() {
                    if (this.f) this.f();
                    this.f = undefined;
                }
            },
            window: {
                createOutputChannel: () => out,
                get activeTextEditor() {
                    return w.editor;
                },
                get visibleTextEditors() {
                    return w.editor ? [w.editor] : [];
                },
                onDidChangeActiveTextEditor: w.event('editor'),
                showErrorMessage: message('error'),
                showWarningMessage: message('warning'),
                showInformationMessage: message('information'),
                async showInputBox(options) {
                    const answer = w.input ? w.input(options) : undefined;
                    w.log('input', { value: options.value, password: options.password, answer });
                    await w.later();
                    return answer;
                },
                async withProgress(options, task) {
                    const p = { title: options.title, increments: [], ended: false };
                    w.progress.push(p);
                    try {
                        return await task(
                            { report: (r) => p.increments.push(r.increment) },
                            { isCancellationRequested: false, onCancellationRequested: () => ({ dispose() {} }) }
                        );
                    } finally {
                        p.ended = true;
                    }
                },
            },
            workspace: {
                get workspaceFolders() {
                    return w.folders;
                },
                getWorkspaceFolder: folder_of,
                getConfiguration: (section) => ({
                    get: (key, dflt) => {
                        const k = section ? `${section}.${key}` : key;
                        const v = k.startsWith('move.') ? w.settings[k.slice(5)] : undefined;
                        return v === undefined ? dflt : v;
                    },
                    has: (key) => key in w.settings,
                    inspect: () => undefined,
                    update: async () => {},
                }),
                fs: {
                    async createDirectory(u) {
                        await w.later();
                        await fs.promises.mkdir(u.fsPath, { recursive: true });
                    },
                    async stat(u) {
                        await w.later();
                        return fs.promises.stat(u.fsPath);
                    },
                    async readFile(u) {
                        await w.later();
                        return fs.promises.readFile(u.fsPath);
                    },
                    async rename(a, b) {
                        await w.later();
                        return fs.promises.rename(a.fsPath, b.fsPath);
                    },
                    async delete(u) {
                        await w.later();
                        return fs.promises.rm(u.fsPath);
                    },
                },
                onDidSaveTextDocument: w.event('save'),
                onDidOpenTextDocument: w.event('open'),
                onDidCloseTextDocument: w.event('close'),
                onDidChangeConfiguration: w.event('configuration'),
                onDidCreateFiles: w.event('create'),
                onDidDeleteFiles: w.event('delete'),
                onDidRenameFiles: w.event('rename'),
                onDidChangeWorkspaceFolders: w.event('folders'),
            },
            commands: {
                registerCommand(name, f) {
                    if (w.commands.has(name)) throw new Error(`command '${name}' already exists`);
                    w.commands.set(name, f);
                    return {
                        dispose: () => {
                            if (w.commands.get(name) === f) w.commands.delete(name);
                        },
                    };
                },
                async executeCommand(name, ...args) {
                    const f = w.commands.get(name);
                    if (!f) throw new Error(`command '${name}' not found`);
                    w.log('command', { name });
                    return f(...args);
                },
            },
            tasks: {
                registerTaskProvider(type, provider) {
                    const p = { type, provider, live: true };
                    w.providers.push(p);
                    return { dispose: () => void (p.live = false) };
                },
            },
        };
    }
    async message(level, text, rest) {
        const items = rest.filter((i) => typeof i === 'string' || (i && i.title !== undefined));
        const answer = items.length && this.choose ? this.choose(text, items) : undefined;
        this.log('message', { level, text: String(text), answer: answer && (answer.title || answer) });
        if (items.length) this.dialogs.push({ text: String(text), answer });
        await this.later();
        return answer;
    }
    languageclient() {
        const w = this;
        return {
            TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
            LanguageClient: class {
                constructor(id, name, server, client) {
                    if (typeof name !== 'string') [server, client] = [name, server];
                    this.record = { id, server, client, started: 0, running: false, stopping: null };
                    w.clients.push(this.record);
                }
                start() {
                    this.record.started++;
                    this.record.running = true;
                    w.log('client started', { folder: this.record.client.workspaceFolder && this.record.client.workspaceFolder.uri.path });
                    if (w.on_start) w.on_start(this.record);
                    return { dispose: () => void this.stop() };
                }
                onReady() {
                    return w.later();
                }
                needsStop() {
                    return this.record.running;
                }
                stop() {
                    const r = this.record;
                    if (!r.running) return Promise.resolve();
                    if (!r.stopping) {
                        r.stopping = w.later(8).then(() => {
                            r.running = false;
                            w.log('client stopped', { folder: r.client.workspaceFolder && r.client.workspaceFolder.uri.path });
                        });
                    }
                    return r.stopping;
                }
            },
        };
    }
    fetch() {
        const w = this;
        const f = async (url, init) => {
            url = String(url);
            const headers = (init && init.headers) || {};
            const auth = headers.Authorization || headers.authorization;
            const rec = { url, auth, token: w.memento.githubToken };
            w.requests.push(rec);
            w.log('request', rec);
            if (w.requests.length > 300) return new Promise(() => {});
            await w.later(6);
            return w.answer(rec);
        };
        f.default = f;
        return f;
    }
    response(status, headers, body, fail_at) {
        const w = this;
        const lower = {};
        for (const k in headers) lower[k.toLowerCase()] = headers[k];
        const bytes = Buffer.isBuffer(body) ? body : Buffer.from(body);
        let at = 0;
        const stream = new Readable({
            read() {
                w.later().then(() => {
                    if (fail_at !== undefined && at >= fail_at) {
                        const e = new Error('aborted');
                        e.code = 'ECONNRESET';
                        stream.destroy(e);
                        return;
                    }
                    if (at >= bytes.length) {
                        stream.push(null);
                        return;
                    }
                    let n = 1 + w.rng.below(w.rng.pick([10, 3000, 60000]));
                    if (fail_at !== undefined) n = Math.min(n, fail_at - at);
                    const c = bytes.subarray(at, at + n);
                    at += c.length;
                    stream.push(c);
                });
            },
        });
        const all = () =>
            new Promise((resolve, reject) => {
                const parts = [];
                stream.on('data', (c) => parts.push(c));
                stream.on('end', () => resolve(Buffer.concat(parts)));
                stream.on('error', reject);
            });
        return {
            ok: status >= 200 && status < 300,
            status,
            statusText: `status ${status}`,
            headers: { get: (n) => (n.toLowerCase() in lower ? String(lower[n.toLowerCase()]) : null), raw: () => lower },
            body: stream,
            text: () => all().then((b) => b.toString()),
            json: () => all().then((b) => JSON.parse(b.toString())),
            buffer: all,
            arrayBuffer: all,
        };
    }
    context(storage) {
        const w = this;
        return {
            subscriptions: [],
            globalStorageUri: Uri.file(storage),
            globalStoragePath: storage,
            extensionUri: Uri.file('/nonexistent/extension'),
            extensionPath: '/nonexistent/extension',
            globalState: {
                get: (k, d) => (k in w.memento ? w.memento[k] : d),
                async update(k, v) {
                    await w.later();
                    if (v === undefined) delete w.memento[k];
                    else w.memento[k] = v;
                    w.log('state', { key: k, value: v });
                },
                keys: () => Object.keys(w.memento),
            },
        };
    }
    /** A fresh instance of the extension which sees nothing but this world. */
    load(bundle) {
        const mods = {
            vscode: this.vscode(),
            'vscode-languageclient/node': this.languageclient(),
            'vscode-languageclient': this.languageclient(),
            'node-fetch': this.fetch(),
        };
        globalThis.fetch = mods['node-fetch'];
        const orig = Module._load;
        Module._load = function (name, ...rest) {
            return name in mods ? mods[name] : orig.call(this, name, ...rest);
        };
        try {
            delete require.cache[require.resolve(bundle)];
            return require(bundle);
        } finally {
            Module._load = orig;
        }
    }
    /** A document of the editor. */
    document(p, languageId, scheme = 'file') {
        return {
            uri: new Uri(scheme, p),
            fileName: p,
            languageId,
            isUntitled: scheme === 'untitled',
            isDirty: false,
            isClosed: false,
            version: 1,
            getText: () => '',
            save: async () => true,
        };
    }
    show(doc) {
        this.editor = doc && { document: doc };
        this.fire('editor', this.editor);
    }
}

let baseline = null;
function resources() {
    return process.getActiveResourcesInfo().filter((r) => r !== 'Immediate');
}
/** Until nothing is under way any more: no timer, no file operation, no child, nothing of ours. */
async function quiet(worlds, each) {
    if (baseline === null) baseline = resources().length;
    let still = 0;
    for (let n = 0; still < 5; n++) {
        await new Promise((r) => setImmediate(r));
        if (each) each();
        const busy = worlds.some((w) => w.pending > 0) || resources().length > baseline;
        still = busy ? 0 : still + 1;
        if (worlds.some((w) => w.requests.length > 300)) return;
    }
}

module.exports = { Rng, Uri, World, quiet, resources };
