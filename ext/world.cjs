// The simulated world around the extension: disk, network, processes, VS Code windows, and the language client library.
'use strict';
const realFs = require('fs'), stream = require('stream'), EventEmitter = require('events'), util = require('util'), nodePath = require('path');
const { instantiate } = require('./load.cjs');
const { Rng, hash32 } = require('./sim.cjs');
const GOOD_TOKENS = ['tok0', 'tokA'];
const HOME = '/home/user', STORE = '/storage/move';

function errno(code, op, p) { const e = new Error(`${code}: ${op}${p ? ` '${p}'` : ''}`); e.code = code; e.errno = -1; e.syscall = op; if (p) e.path = p; return e; }

// ---- disk: what survives a killed window
class Disk {
    constructor(w) { this.w = w; this.files = new Map(); this.dirs = new Set(['/', '/home', HOME, '/storage', '/tmp']); this.ino = 0; this.fds = new Map(); this.nextFd = 20; this.dirty = false; }
    norm(p) { if (p && typeof p === 'object' && p.fsPath) p = p.fsPath; if (p instanceof URL) p = p.pathname; return nodePath.posix.normalize(String(p)).replace(/(.)\/$/, '$1'); }
    put(p, data, mode = 0o644) { p = this.norm(p); this.mkdirs(nodePath.posix.dirname(p)); this.files.set(p, { ino: ++this.ino, data: Buffer.from(data), mode, writers: 0 }); this.dirty = true; }
    mkdirs(p) { p = this.norm(p); if (this.dirs.has(p)) return; this.mkdirs(nodePath.posix.dirname(p)); this.dirs.add(p); }
    node(p, op) { p = this.norm(p); const n = this.files.get(p); if (!n) throw errno(this.dirs.has(p) ? 'EISDIR' : 'ENOENT', op, p); return n; }
    device(p) { return this.w.sim.cs.tmpfs && p.startsWith('/tmp/') ? 1 : 0; }
    parent(p, op) { const d = nodePath.posix.dirname(this.norm(p)); if (!this.dirs.has(d)) throw errno('ENOENT', op, p); }
    open(win, p, flags = 'r', mode = 0o666) {
        p = this.norm(p);
        if (typeof flags === 'number') flags = (flags & 64 ? (flags & 128 ? 'wx' : flags & 1024 ? 'a' : 'w') : flags & 1 ? 'r+' : 'r');
        let n = this.files.get(p);
        const wr = /[wa+]/.test(flags);
        if (this.dirs.has(p)) throw errno('EISDIR', 'open', p);
        if (/x/.test(flags) && n) throw errno('EEXIST', 'open', p);
        if (!n) { if (!/[wa]/.test(flags)) throw errno('ENOENT', 'open', p); this.parent(p, 'open'); n = { ino: ++this.ino, data: Buffer.alloc(0), mode: mode & ~0o022, writers: 0 }; this.files.set(p, n); this.dirty = true; }
        else if (wr && this.w.running(n)) throw errno('ETXTBSY', 'open', p);
        else if (/w/.test(flags)) { n.data = Buffer.alloc(0); this.dirty = true; }
        if (wr) n.writers++;
        const fd = this.nextFd++;
        this.fds.set(fd, { n, wr, append: /a/.test(flags), pos: 0, win });
        return fd;
    }
    close(fd) { const f = this.fds.get(fd); if (!f) throw errno('EBADF', 'close'); this.fds.delete(fd); if (f.wr) f.n.writers--; }
    closeAll(win) { for (const [fd, f] of [...this.fds]) if (f.win === win) this.close(fd); }
    write(fd, buf, pos) {
        const f = this.fds.get(fd); if (!f || !f.wr) throw errno('EBADF', 'write');
        const at = f.append ? f.n.data.length : !Number.isSafeInteger(Number(pos)) || pos === null || pos === -1 ? f.pos : Number(pos);
        const end = at + buf.length;
        if (end > f.n.data.length) { const d = Buffer.alloc(end); f.n.data.copy(d); f.n.data = d; } else f.n.data = Buffer.from(f.n.data);
        buf.copy(f.n.data, at); f.pos = end; this.dirty = true;
        return buf.length;
    }
    read(fd, len, pos) { const f = this.fds.get(fd); if (!f) throw errno('EBADF', 'read'); const at = pos === null || pos === undefined || pos === -1 ? f.pos : Number(pos); const b = f.n.data.subarray(at, at + len); f.pos = at + b.length; return b; }
    rename(a, b) { a = this.norm(a); b = this.norm(b); const n = this.node(a, 'rename'); if (this.device(a) !== this.device(b)) throw errno('EXDEV', 'rename', b); this.parent(b, 'rename'); if (this.dirs.has(b)) throw errno('EISDIR', 'rename', b); if (a === b) return; this.files.delete(a); this.files.set(b, n); this.dirty = true; }
    link(a, b) { const n = this.node(a, 'link'); b = this.norm(b); if (this.device(a) !== this.device(b)) throw errno('EXDEV', 'link', b); if (this.files.has(b)) throw errno('EEXIST', 'link', b); this.parent(b, 'link'); this.files.set(b, n); this.dirty = true; }
    unlink(p) { this.node(p, 'unlink'); this.files.delete(this.norm(p)); this.dirty = true; }
    mkdir(p, recursive) { p = this.norm(p); if (this.files.has(p) || (this.dirs.has(p) && !recursive)) throw errno('EEXIST', 'mkdir', p); if (recursive) this.mkdirs(p); else { this.parent(p, 'mkdir'); this.dirs.add(p); } }
    list(p) { p = this.norm(p); if (!this.dirs.has(p)) throw errno('ENOENT', 'scandir', p); const o = []; for (const f of [...this.files.keys(), ...this.dirs]) if (f !== p && nodePath.posix.dirname(f) === p) o.push(f); return o.sort(); }
    stat(p) { p = this.norm(p); if (this.dirs.has(p)) return { dir: true, size: 0, mode: 0o40755, ino: 1 }; const n = this.node(p, 'stat'); return { dir: false, size: n.data.length, mode: 0o100000 | n.mode, ino: n.ino }; }
    rmTree(p) { p = this.norm(p); if (this.files.has(p)) { this.unlink(p); return true; } if (!this.dirs.has(p)) return false; for (const f of [...this.files.keys()]) if (f.startsWith(p + '/')) this.files.delete(f); for (const d of [...this.dirs]) if (d === p || d.startsWith(p + '/')) this.dirs.delete(d); this.dirty = true; return true; }
}
function nodeStat(s) { const t = new Date(0); return { ...s, isFile: () => !s.dir, isDirectory: () => s.dir, isSymbolicLink: () => false, mtimeMs: 0, mtime: t, ctime: t, birthtime: t, atime: t, uid: 0, gid: 0, nlink: 1, dev: 1 }; }

class World {
    constructor(sim, compiled) {
        this.doveRan = new Set();
        this.sim = sim; this.compiled = compiled; this.disk = new Disk(this); this.windows = []; this.memento = {}; this.settings = {}; this.procs = []; this.nwin = 0;
        this.platform = sim.cs.platform; this.label = { linux: 'linux', darwin: 'darwin', win32: 'win' }[this.platform];
        this.assets = []; this.folders = []; this.counters = { fetches: 0, downloads_completed: 0, execs: 0, servers: 0, reloads: 0, dialogs: 0, files_checked: 0, quiet_points: 0, dove_runs: 0, windows: 0, kills: 0 };
        this.finals = new Map(); this.tokenModel = undefined; this.explicitFiles = new Map();
    }
    count(k, n = 1) { this.counters[k] = (this.counters[k] || 0) + n; }
    // ---- release
    setRelease(names) {
        for (const [name, bin, label] of names) {
            const r = new Rng(this.sim.cs.seed + '/asset/' + name);
            const n = this.sim.cs.big ? r.range(20000, 90000) : r.range(40, 400), b = Buffer.alloc(n);
            for (let i = 0; i < n; i++) b[i] = r.below(256);
            Buffer.from(`BIN ${bin} ${label}\n`).copy(b);
            const url = `https://github.com/pontem-network/move-tools/releases/download/1.2.2/${name}`;
            this.assets.push({ name, bin, label, data: b, url });
            this.finals.set(STORE + '/' + name, this.assets[this.assets.length - 1]);
        }
    }
    running(n) { return this.procs.some((p) => p.alive && p.node === n); }
    assetOf(data) { return this.assets.find((a) => a.data.equals(data)); }
    // What executing path does: returns {asset|explicit} or throws errno
    exec(win, p, cwd) {
        p = this.disk.norm(p);
        this.count('execs');
        const n = this.disk.files.get(p);
        if (cwd && !this.disk.dirs.has(this.disk.norm(cwd))) throw errno('ENOENT', 'spawn ' + p, p);
        if (!n) throw errno('ENOENT', 'spawn ' + p, p);
        if (!(n.mode & 0o111)) { this.judgeExec(p, n, 'without execute permission'); throw errno('EACCES', 'spawn ' + p, p); }
        if (n.writers > 0) throw errno('ETXTBSY', 'spawn ' + p, p);
        const ex = this.explicitFiles.get(p);
        if (ex) return { bin: ex, node: n };
        const a = this.assetOf(n.data);
        if (!a) { this.judgeExec(p, n, 'incomplete'); throw errno('ENOEXEC', 'spawn ' + p, p); }
        if (a.label !== this.label) { this.sim.violate('C14', 'wrong-platform', `the ${a.label} build ${a.name} is run on ${this.platform}`); throw errno('ENOEXEC', 'spawn ' + p, p); }
        return { bin: a.bin, node: n };
    }
    judgeExec(p, n, how) { if (this.finals.has(p)) this.sim.violate('C14', 'runs-bad-binary', `${p} is executed ${how} (${n.data.length} bytes)`); }
    // ---- invariants over the disk, after every event
    checkDisk() {
        if (!this.disk.dirty) return;
        this.disk.dirty = false;
        for (const [p, n] of this.disk.files) {
            const a = this.finals.get(p);
            if (!a) continue;
            this.count('files_checked');
            if (!n.data.equals(a.data)) this.sim.violate('C14', 'incomplete-binary', `${p} is in place with ${n.data.length} bytes that are not the ${a.data.length} bytes of the release's ${a.name}`);
            else if (!(n.mode & 0o100)) this.sim.violate('C14', 'not-executable', `${p} is in place and complete but its mode is ${n.mode.toString(8)}`);
        }
    }
    dove(folder) { try { return JSON.parse(this.disk.files.get(folder.path + '/Dove.toml').data.toString()); } catch (e) { return null; } }
    writeToml(folder, t) { this.disk.put(folder.path + '/Dove.toml', JSON.stringify(t)); }
}
function metadataOf(folder, t) {
    const r = new Rng('meta/' + folder.path + '/' + t.v);
    const git = [], local = [];
    for (let i = r.below(3); i > 0; i--) local.push(`${folder.path}/${r.pick(['dep', 'dép', '依存'])}${r.below(9)}`);
    for (let i = r.below(3); i > 0; i--) git.push({ git: 'https://x/' + i, local_paths: Array.from({ length: r.below(3) }, (_, j) => `${folder.path}/artifacts/${r.pick(['g', 'g', 'ğ', '𝒢'])}${i}_${j}`) });
    return {
        package: { name: folder.name, account_address: '0x' + t.v.toString(16), authors: [], blockchain_api: null, local_dependencies: local, git_dependencies: git, dialect: r.pick(['diem', 'dfinance', 'pont']) },
        layout: { modules_dir: folder.path + '/modules', scripts_dir: 's', tests_dir: 't', modules_output: 'a', scripts_output: 'b', transactions_output: 'c', deps: 'd', artifacts: 'e', index: 'f' },
    };
}
function expectedInit(folder, t) {
    const m = metadataOf(folder, t);
    return { dialect: m.package.dialect, modules_folders: [...m.package.local_dependencies, ...m.package.git_dependencies.flatMap((g) => g.local_paths), m.layout.modules_dir], sender_address: m.package.account_address, stdlib_folder: null };
}

// ---- one window: an extension host with its own copy of the extension
class Uri {
    constructor(scheme, path) { this.scheme = scheme; this.path = path; this.authority = ''; this.query = ''; this.fragment = ''; }
    get fsPath() { return this.path; }
    static file(p) { return new Uri('file', p); }
    static parse(s) { const m = /^([a-z]+):\/\/(.*)$/.exec(s); return m ? new Uri(m[1], m[2]) : new Uri('file', s); }
    static joinPath(u, ...a) { return new Uri(u.scheme, nodePath.posix.join(u.path, ...a)); }
    with(c) { return new Uri(c.scheme || this.scheme, c.path || this.path); }
    toString() { return this.scheme + '://' + this.path; }
    toJSON() { return { scheme: this.scheme, path: this.path }; }
}
class Disposable { constructor(f) { this.f = f; } dispose() { const f = this.f; this.f = undefined; if (f) return f(); } static from(...a) { return new Disposable(() => a.forEach((x) => x && x.dispose())); } }
function permissive(name, known) { // an API surface this world does not model answers with a harmless no-op
    return new Proxy(known, { get(t, k) { if (k in t || typeof k === 'symbol' || k === 'then') return t[k]; if (k === '__esModule') return undefined; if (/^[A-Z]/.test(String(k))) return class { constructor(...a) { Object.assign(this, { args: a }); } }; if (/^on[A-Z]/.test(String(k))) return () => new Disposable(() => {}); return () => new Disposable(() => {}); } });
}

class Window {
    constructor(w) {
        this.w = w; this.sim = w.sim; this.id = w.nwin++; this.name = 'w' + this.id; this.alive = true; this.listeners = new Map(); this.commands = new Map(); this.providers = []; this.clients = []; this.active = undefined; this.activated = null; this.closed = false; this.seqc = 0; this.activations = 0;
        w.windows.push(this); w.count('windows');
        const sim = this.sim, win = this;
        class FakeDate extends Date { constructor(...a) { if (a.length) super(...a); else super(1600000000000 + sim.now); } static now() { return 1600000000000 + sim.now; } }
        const rnd = new Rng(sim.cs.seed + '/rnd/' + this.id);
        const fakeMath = Object.create(Math); fakeMath.random = () => rnd.next() / 4294967296;
        const timer = (rep) => (fn, ms = 0, ...a) => { const h = { refs: 1, ref() { return h; }, unref() { return h; }, hasRef: () => true, [Symbol.toPrimitive]: () => 1 }; let left = 50; const arm = () => { h.e = sim.at(Math.max(1, Number(ms) || 1), win.name + ' timer', win, () => { if (rep && left-- > 0) arm(); fn(...a); }); }; arm(); return h; };
        const clear = (h) => { if (h && h.e) h.e.dead = true; };
        this.globals = {
            process: new Proxy(process, { get: (t, k) => (k === 'platform' ? w.platform : k === 'env' ? { HOME, PATH: '/usr/bin' } : k === 'pid' ? 1000 + win.id : k === 'cwd' ? () => '/' : k === 'on' || k === 'once' ? () => {} : t[k]) }),
            Date: FakeDate, Math: fakeMath, setTimeout: timer(false), clearTimeout: clear, setInterval: timer(true), clearInterval: clear,
            setImmediate: (fn, ...a) => timer(false)(fn, 0, ...a), clearImmediate: clear, console: { log() {}, error() {}, warn() {}, info() {}, debug() {} }, fetch: (u, o) => this.fetch(u, o), crypto: undefined, performance: { now: () => sim.now },
        };
        this.fs = this.makeFs();
        this.vscode = this.makeVscode();
        const cp = this.makeCp(), lc = this.makeLc();
        const rb = (n) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = rnd.below(256); return b; };
        const crypto = new Proxy(require('crypto'), { get: (t, k) => (k === 'randomBytes' ? (n, cb) => (cb ? cb(null, rb(n)) : rb(n)) : k === 'randomUUID' ? () => rb(16).toString('hex') : k === 'randomInt' ? (a, b) => (b === undefined ? rnd.below(a) : a + rnd.below(b - a)) : t[k]) });
        this.globals.crypto = crypto;
        const os = new Proxy(require('os'), { get: (t, k) => (k === 'homedir' ? () => HOME : k === 'tmpdir' ? () => '/tmp' : k === 'platform' ? () => w.platform : t[k]) });
        const fetchMod = (u, o) => this.fetch(u, o); fetchMod.default = fetchMod; Object.defineProperty(fetchMod, '__esModule', { value: true });
        const timersP = { setTimeout: (ms, v) => new Promise((r) => this.globals.setTimeout(r, ms, v)) };
        const table = { vscode: this.vscode, fs: this.fs, 'fs/promises': this.fs.promises, child_process: cp, crypto, os, 'node-fetch': fetchMod, 'vscode-languageclient/node': lc, 'vscode-languageclient': lc, 'timers/promises': timersP, timers: this.globals, process: this.globals.process };
        const OK = ['path', 'stream', 'stream/promises', 'util', 'assert', 'assert/strict', 'events', 'url', 'string_decoder', 'buffer', 'zlib', 'querystring'];
        this.builtin = (id) => { if (id in table) return table[id]; if (OK.includes(id)) return require(id === 'path' ? 'path' : id); throw new Error(`module ${id} is outside the simulated world`); };
    }
    k(label) { return this.sim.key(this.name, label); }
    // run fn after a latency, then hand its result over after another; faults come back as errors
    op(label, kinds, fn, cb) {
        this.nops = (this.nops || 0) + 1;
        const key = this.k(label), sim = this.sim;
        sim.at(sim.lat(key), `${this.name} ${label}`, this, () => {
            const f = sim.fault(key, kinds);
            let err = null, res;
            try { if (f && !f.startsWith('short')) throw errno(f, label); res = fn(f); } catch (e) { err = e; if (!e.code) { sim.say('internal ' + e.stack); throw e; } }
            const ack = sim.choose(key + '+', 0, (r) => (r.p(80) ? 0 : r.tail()));
            if (ack === 0) cb(err, res); else sim.at(ack, `${this.name} ${label} done`, this, () => cb(err, res));
        });
    }
    makeFs() {
        const d = this.w.disk, win = this;
        const F = { open: [['EMFILE', 1], ['ENOSPC', 1], ['EACCES', 1]], write: [['ENOSPC', 2], ['EIO', 1], ['short', 8]], close: [['EIO', 1]], rename: [['EPERM', 3], ['EBUSY', 2], ['EIO', 1]], other: [['EIO', 2]], read: [['EIO', 1]] };
        const raw = {
            open: (cb, p, flags, mode) => win.op('open ' + d.norm(p), F.open, () => d.open(win, p, flags, typeof mode === 'number' ? mode : mode ? parseInt(mode, 8) : 0o666), cb),
            close: (cb, fd) => win.op('close', F.close, () => d.close(fd), (e) => { if (e && d.fds.has(fd)) d.close(fd); cb(e); }),
            write: (cb, fd, b, off, len, pos) => { if (typeof b === 'string') { b = Buffer.from(b); off = 0; len = b.length; } if (off && typeof off === 'object') ({ offset: off, length: len, position: pos } = off); off = off || 0; len = len === undefined || len === null ? b.length - off : len; const c = Buffer.from(b.subarray(off, off + len)); win.op('write', F.write, (f) => d.write(fd, f && c.length > 1 ? c.subarray(0, c.length >> 1) : c, pos), (e, n) => cb(e, n, b)); },
            read: (cb, fd, b, off, len, pos) => win.op('read', F.read, () => { const x = d.read(fd, len, pos); x.copy(b, off); return x.length; }, cb),
            rename: (cb, a, b) => win.op(`rename ${d.norm(a)} ${d.norm(b)}`, F.rename, () => d.rename(a, b), cb),
            unlink: (cb, p) => win.op('unlink ' + d.norm(p), F.other, () => d.unlink(p), cb),
            chmod: (cb, p, m) => win.op('chmod ' + d.norm(p), F.other, () => { d.node(p, 'chmod').mode = (typeof m === 'string' ? parseInt(m, 8) : m) & 0o777; d.dirty = true; }, cb),
            stat: (cb, p) => win.op('stat ' + d.norm(p), F.other, () => nodeStat(d.stat(p)), cb),
            access: (cb, p, m) => win.op('access ' + d.norm(p), F.other, () => { const s = d.stat(p); if (m & 1 && !s.dir && !(s.mode & 0o111)) throw errno('EACCES', 'access', d.norm(p)); }, cb),
            mkdir: (cb, p, o) => win.op('mkdir ' + d.norm(p), F.other, () => d.mkdir(p, !!(o && o.recursive)), cb),
            readdir: (cb, p) => win.op('readdir ' + d.norm(p), F.other, () => d.list(p).map((x) => nodePath.posix.basename(x)), cb),
            rm: (cb, p, o) => win.op('rm ' + d.norm(p), F.other, () => { if (!d.rmTree(p) && !(o && o.force)) throw errno('ENOENT', 'rm', d.norm(p)); }, cb),
            link: (cb, a, b) => win.op('link', F.other, () => d.link(a, b), cb),
            truncate: (cb, p, n = 0) => win.op('truncate', F.other, () => { const x = d.node(p, 'truncate'); x.data = Buffer.concat([x.data.subarray(0, n), Buffer.alloc(Math.max(0, n - x.data.length))]); d.dirty = true; }, cb),
            fsync: (cb) => win.op('fsync', F.other, () => {}, cb), fdatasync: (cb) => win.op('fsync', F.other, () => {}, cb), utimes: (cb) => cb(null), futimes: (cb) => cb(null),
            fchmod: (cb, fd, m) => win.op('fchmod', F.other, () => { const f = d.fds.get(fd); if (!f) throw errno('EBADF', 'fchmod'); f.n.mode = m & 0o777; d.dirty = true; }, cb),
            lstat: (cb, p) => raw.stat(cb, p), rmdir: (cb, p) => raw.rm(cb, p), realpath: (cb, p) => cb(null, d.norm(p)),
            fstat: (cb, fd) => win.op('fstat', F.other, () => { const f = d.fds.get(fd); if (!f) throw errno('EBADF', 'fstat'); return nodeStat({ dir: false, size: f.n.data.length, mode: f.n.mode, ino: f.n.ino }); }, cb),
            ftruncate: (cb, fd, n = 0) => win.op('ftruncate', F.other, () => { const x = d.fds.get(fd).n; x.data = x.data.subarray(0, n); d.dirty = true; }, cb),
        };
        // whole-file calls are sequences of the above, so that a kill can fall inside them
        const pr = (n) => (...a) => new Promise((ok, no) => raw[n]((e, r) => (e ? no(e) : ok(r)), ...a));
        const writeAll = async (p, data, o, flag) => {
            const opt = o && typeof o === 'object' ? o : {};
            const b = Buffer.isBuffer(data) ? data : data instanceof Uint8Array ? Buffer.from(data) : Buffer.from(String(data));
            const fd = await pr('open')(p, opt.flag || flag || 'w', opt.mode);
            try { for (let at = 0; at < b.length; ) at += await pr('write')(fd, b, at, Math.min(b.length - at, 64), null); } finally { await pr('close')(fd); }
        };
        const readAll = async (p, o) => { const n = await new Promise((ok, no) => win.op('readFile ' + d.norm(p), F.read, () => Buffer.from(d.node(p, 'open').data), (e, r) => (e ? no(e) : ok(r)))); const enc = typeof o === 'string' ? o : o && o.encoding; return enc ? n.toString(enc) : n; };
        const copyAll = async (a, b, m) => { const src = await readAll(a); const mode = d.node(a, 'copyfile').mode; await writeAll(b, src, { mode, flag: m & 1 ? 'wx' : 'w' }); };
        const P = {}; for (const n of Object.keys(raw)) P[n] = pr(n);
        P.open = async (p, fl, m) => { const fd = await pr('open')(p, fl, m); return { fd, write: async (b, ...a) => ({ bytesWritten: await pr('write')(fd, b, ...a), buffer: b }), writeFile: async (x) => { const b = Buffer.from(x); for (let at = 0; at < b.length; ) at += await pr('write')(fd, b, at, Math.min(64, b.length - at), null); }, close: () => pr('close')(fd), sync: () => pr('fsync')(fd), datasync: () => pr('fsync')(fd), chmod: (m2) => pr('fchmod')(fd, m2), stat: () => pr('fstat')(fd), truncate: (n) => pr('ftruncate')(fd, n) }; };
        P.writeFile = (p, x, o) => writeAll(p, x, o); P.appendFile = (p, x, o) => writeAll(p, x, o, 'a'); P.readFile = readAll; P.copyFile = copyAll;
        const cbs = {};
        for (const n of Object.keys(P)) if (n !== 'open') cbs[n] = (...a) => { const cb = a.pop(); P[n](...a).then((r) => cb(null, r), (e) => cb(e)); };
        for (const n of ['open', 'close', 'write', 'read', 'fsync']) cbs[n] = (...a) => { const cb = a.pop(); raw[n]((e, r, b) => cb(e, r, b), ...a); };
        const sub = { open: cbs.open, close: cbs.close, write: cbs.write, read: cbs.read, fsync: cbs.fsync };
        const S = { // synchronous calls happen at once
            existsSync: (p) => { try { d.stat(p); return true; } catch (e) { return false; } }, statSync: (p, o) => { try { return nodeStat(d.stat(p)); } catch (e) { if (o && o.throwIfNoEntry === false) return undefined; throw e; } }, renameSync: (a, b) => d.rename(a, b), unlinkSync: (p) => d.unlink(p),
            mkdirSync: (p, o) => d.mkdir(p, !!(o && o.recursive)), chmodSync: (p, m) => { d.node(p, 'chmod').mode = (typeof m === 'string' ? parseInt(m, 8) : m) & 0o777; d.dirty = true; }, readdirSync: (p) => d.list(p).map((x) => nodePath.posix.basename(x)), readFileSync: (p, o) => { const b = Buffer.from(d.node(p, 'open').data); const enc = typeof o === 'string' ? o : o && o.encoding; return enc ? b.toString(enc) : b; },
            writeFileSync: (p, x, o) => { const fd = d.open(win, p, 'w', o && o.mode); d.write(fd, Buffer.from(x), null); d.close(fd); }, accessSync: (p, m) => { const s = d.stat(p); if (m & 1 && !s.dir && !(s.mode & 0o111)) throw errno('EACCES', 'access', d.norm(p)); }, rmSync: (p) => { d.rmTree(p); }, copyFileSync: (a, b) => { const n = d.node(a, 'copyfile'); d.put(b, n.data, n.mode); }, openSync: (p, fl, m) => d.open(win, p, fl, m), closeSync: (fd) => d.close(fd), writeSync: (fd, b) => d.write(fd, Buffer.from(b), null), lstatSync: (p) => nodeStat(d.stat(p)), rmdirSync: (p) => { d.rmTree(p); }, fsyncSync() {}, linkSync: (a, b) => d.link(a, b), mkdtempSync: (p) => { const q = p + 'abcdef'; d.mkdir(q, true); return q; },
        };
        P.mkdtemp = async (p) => { const q = p + Math.abs(hash32(p + win.id + win.seqc++)).toString(36); await P.mkdir(q); return q; };
        P.exists = undefined; P.constants = realFs.constants;
        return {
            ...cbs, ...S, promises: P, constants: realFs.constants, Stats: realFs.Stats,
            exists: (p, cb) => cbs.stat(p, (e) => cb(!e)),
            createWriteStream: (p, o) => realFs.createWriteStream(d.norm(p), { ...(typeof o === 'string' ? { encoding: o } : o), fs: sub }),
            createReadStream: (p, o) => realFs.createReadStream(d.norm(p), { ...(typeof o === 'string' ? { encoding: o } : o), fs: sub }),
        };
    }
    // ---- network
    fetch(url, opts = {}) {
        const sim = this.sim, w = this.w, key = this.k('fetch'), win = this;
        url = String(url);
        const auth = (() => { const h = opts.headers || {}; for (const k of Object.keys(h)) if (/^authorization$/i.test(k)) return h[k]; return h.get ? h.get('authorization') : undefined; })();
        const api = /^https:\/\/api\.github\.com\/repos\/[\w.-]+\/[\w.-]+\/releases\/tags\/1\.2\.2$/.test(url);
        sim.say(`${this.name} fetch ${url}`); w.count('fetches'); this.nops = (this.nops || 0) + 1;
        if (auth && !/^https:\/\/api\.github\.com\//.test(url)) sim.violate('C14', 'token-leak', `the GitHub token is sent to ${url}`);
        const sent = auth === undefined || auth === null ? undefined : String(auth).replace(/^(token|bearer) +/i, '');
        if (api && w.tokenStored() !== undefined && sent !== w.tokenStored()) sim.violate('C14', 'token-unused', `the stored GitHub token is ${JSON.stringify(w.tokenStored())} and the release is asked for with ${JSON.stringify(auth)}`);
        const mine = w.assets.find((x) => x.url === url);
        if (mine && this.had.has(STORE + '/' + mine.name) && sim.nfired === this.hadAt && w.disk.files.has(STORE + '/' + mine.name)) sim.violate('C14', 'needless-download', `${mine.name} was installed whole before this window opened, and it downloads it again`);
        return new Promise((ok, no) => {
            sim.at(sim.lat(key), `${this.name} response ${url}`, this, () => {
                const f = sim.fault(key, [['reject', 3], ['stall', 1], ['status:403', 2], ['status:404', 1], ['status:502', 2], ['cut', 5], ['hang', 2], ['garbage', api ? 2 : 0]]);
                if (f === 'stall') return;
                if (f === 'reject') { const e = new Error(`request to ${url} failed, reason: connect ETIMEDOUT`); e.code = 'ETIMEDOUT'; e.type = 'system'; return no(e); }
                let status = f && f.startsWith('status:') ? Number(f.slice(7)) : 200, data;
                if (api && status === 200 && sent !== undefined) status = GOOD_TOKENS.includes(sent) ? 200 : 401;
                if (api) win.unauthorized = status === 401;
                if (status === 401) w.refused = true;
                const a = w.assets.find((x) => x.url === url);
                if (status === 200 && !api && !a) status = 404;
                if (status !== 200) data = Buffer.from('<html>' + status + '</html>');
                else if (api) data = Buffer.from(f === 'garbage' ? '<html>captive portal</html>' : JSON.stringify({ name: '1.2.2', id: 1, published_at: '', assets: w.assets.map((x) => ({ name: x.name, browser_download_url: x.url })) }));
                else data = a.data;
                const body = new stream.PassThrough();
                const pieces = []; const r = new Rng(sim.cs.seed + '/' + key + '/pieces');
                for (let at = 0; at < data.length; ) { const n = sim.cs.calm ? data.length : r.range(1, 1 + (data.length >> 1)); pieces.push(data.subarray(at, at + n)); at += n; }
                const cutAt = (f === 'cut' || f === 'hang') ? r.below(pieces.length) : -1;
                const step = (i) => {
                    if (body.destroyed) return;
                    if (i === cutAt) { if (f === 'cut') { const e = new Error(`Invalid response body while trying to fetch ${url}: aborted`); e.code = 'ECONNRESET'; body.destroy(e); } return; }
                    if (i === pieces.length) { body.end(); if (a && status === 200) w.count('downloads_completed'); return; }
                    body.write(Buffer.from(pieces[i]));
                    next(i + 1);
                };
                const next = (i) => { const k2 = key + '/' + i; sim.at(sim.lat(k2), `${win.name} body ${i}/${pieces.length} ${url}`, win, () => step(i)); };
                if (sim.choose(key + '/early', false, (q) => q.p(30))) step(0); else next(0);
                const H = new Map([['content-length', String(data.length)], ['content-type', 'application/octet-stream']]);
                const collect = () => new Promise((ok2, no2) => { const c = []; body.on('data', (x) => c.push(x)); body.on('end', () => ok2(Buffer.concat(c))); body.on('error', no2); });
                ok({ ok: status >= 200 && status < 300, status, statusText: String(status), url, redirected: false, headers: { get: (n) => (H.has(String(n).toLowerCase()) ? H.get(String(n).toLowerCase()) : null), has: (n) => H.has(String(n).toLowerCase()), raw: () => Object.fromEntries(H), forEach: (g) => H.forEach((v, k) => g(v, k)), entries: () => H.entries(), [Symbol.iterator]: () => H.entries() }, body, text: async () => (await collect()).toString(), json: async () => JSON.parse((await collect()).toString()), buffer: collect, arrayBuffer: async () => { const b = await collect(); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); }, blob: collect });
            });
        });
    }
    // ---- processes
    makeCp() {
        const win = this, sim = this.sim, w = this.w;
        const program = (bin, args, cwd) => { // -> {code, out, err}
            if (args[0] === '--version' || args[0] === '-V') return { code: 0, out: bin + ' 1.2.2\n', err: '' };
            if (bin === 'dove' && args[0] === 'metadata') {
                w.count('dove_runs');
                w.doveRan.add(w.disk.norm(cwd || '/'));
                const folder = w.folders.find((f) => f.path === w.disk.norm(cwd || '/'));
                const t = folder && w.dove(folder);
                if (!t || !t.valid) return { code: 1, out: '', err: 'could not parse Dove.toml' };
                return { code: 0, out: JSON.stringify(metadataOf(folder, t)) + '\n', err: sim.cs.chatty ? `warning: ${folder.path}/Dove.toml: the name "${folder.name}" is not portable\n` : '' };
            }
            if (bin === 'dove' && args[0] === 'init') { const folder = w.folders.find((f) => f.path === w.disk.norm(cwd || '/')); if (folder) w.writeToml(folder, { valid: true, v: 1 }); return { code: 0, out: '', err: '' }; }
            return { code: 0, out: '', err: '' };
        };
        const spawn = (cmd, args, o) => {
            if (!Array.isArray(args)) { o = args; args = []; }
            o = o || {};
            const key = win.k('spawn ' + (args[0] || '')), p = new EventEmitter();
            sim.say(`${win.name} spawn ${cmd} ${args.join(' ')} in ${o.cwd}`);
            p.stdin = new stream.PassThrough(); p.stdout = new stream.PassThrough(); p.stderr = new stream.PassThrough(); p.pid = 5000 + win.seqc++; p.killed = false; p.exitCode = null; p.signalCode = null; p.connected = false; p.spawnfile = cmd; p.spawnargs = [cmd, ...args]; p.ref = p.unref = () => {};
            p.stdio = [p.stdin, p.stdout, p.stderr];
            let done = false;
            let exited = false;
            const exit = (code, sig) => { if (exited) return; exited = true; p.exitCode = code; p.signalCode = sig; p.emit('exit', code, sig); };
            const finish = (code, sig) => {
                if (done) return; done = true;
                exit(code, sig);
                const close = () => { p.stdout.end(); p.stderr.end(); let n = 2; const c = () => { if (--n === 0) p.emit('close', code, sig); }; for (const s of [p.stdout, p.stderr]) { s.once('close', c); s.once('end', () => {}); if (s.listenerCount('data') === 0) s.resume(); } };
                const ack = sim.choose(key + '/close', 0, (r) => (r.p(70) ? 0 : r.tail())); if (ack === 0) close(); else sim.at(ack, win.name + ' pipes close', win, close);
            };
            const failed = (e) => { done = true; p.pid = undefined; e.path = cmd; e.spawnargs = args; sim.at(0, `${win.name} spawn fails ${e.code}`, win, () => { p.stdout.end(); p.stderr.end(); p.stdout.resume(); p.stderr.resume(); p.emit('error', e); sim.at(0, win.name + ' close', win, () => p.emit('close', -2, null)); }); };
            const f = sim.fault(key, [['EAGAIN', 1], ['ENOENT', 1], ['killed', 3], ['slow', 5]]);
            p.kill = (s) => { if (done) return false; p.killed = true; sim.at(1, win.name + ' kill child', win, () => finish(null, s || 'SIGTERM')); return true; };
            let x;
            try { if (f === 'EAGAIN' || f === 'ENOENT') throw errno(f, 'spawn ' + cmd, cmd); x = w.exec(win, cmd, o.cwd); } catch (e) { failed(e); return p; }
            const proc = { win, node: x.node, alive: true, kind: 'child' }; w.procs.push(proc);
            sim.at(0, `${win.name} spawned`, win, () => p.emit('spawn'));
            const lat = sim.lat(key) + (f === 'slow' ? 20000 : 0);
            sim.at(lat, `${win.name} ${args[0]} reads its input`, win, () => {
                if (done) return;
                let { code, out, err } = program(x.bin, args, o.cwd);
                const r = new Rng(sim.cs.seed + '/' + key + '/out'); const cut = f === 'killed';
                if (cut) out = Buffer.from(out).subarray(0, r.below(out.length + 1));
                const pieces = []; for (const [s, q] of [['stdout', out], ['stderr', err]]) for (const t of [Buffer.from(q)]) for (let at = 0; at < t.length; ) { const n = sim.cs.calm ? t.length : r.range(1, 1 + (t.length >> 1)); pieces.push([s, t.subarray(at, at + n)]); at += n; }
                // the process may be gone while its output is still in the pipes
                const exitAt = sim.choose(key + '/exit', -1, (q) => (q.p(60) ? -1 : q.below(pieces.length + 1)));
                const step = (i) => {
                    if (done) return;
                    if (i === exitAt) { proc.alive = false; exit(cut ? null : code, cut ? 'SIGKILL' : null); }
                    if (i === pieces.length) { proc.alive = false; return finish(cut ? null : code, cut ? 'SIGKILL' : null); }
                    p[pieces[i][0]].write(pieces[i][1]);
                    sim.at(sim.lat(key + '/' + i), `${win.name} ${args[0]} output ${i}/${pieces.length}`, win, () => step(i + 1));
                };
                step(0);
            });
            return p;
        };
        const spawnSync = (cmd, args, o) => {
            if (!Array.isArray(args)) { o = args; args = []; }
            const key = win.k('spawnSync'); sim.say(`${win.name} spawnSync ${cmd} ${(args || []).join(' ')}`);
            const f = sim.fault(key, [['EAGAIN', 1], ['exit', 1]]);
            const mk = (status, out, err, error) => ({ status, signal: null, stdout: out, stderr: err, output: [null, out, err], pid: 1, error });
            try { if (f === 'EAGAIN') throw errno(f, 'spawnSync ' + cmd, cmd); const x = w.exec(win, cmd, o && o.cwd); if (f === 'exit') return mk(101, '', 'panicked'); const r = program(x.bin, args || [], o && o.cwd); return mk(r.code, r.out, r.err); } catch (e) { if (!e.code) throw e; return mk(null, null, null, e); }
        };
        const execFile = (cmd, args, o, cb) => {
            if (typeof args === 'function') { cb = args; args = []; o = {}; } else if (typeof o === 'function') { cb = o; o = Array.isArray(args) ? {} : args; if (!Array.isArray(args)) args = []; }
            const p = spawn(cmd, args || [], o || {}); let out = '', err = '', over = false;
            for (const s of [p.stdout, p.stderr]) s.setEncoding('utf8'); p.stdout.on('data', (x) => (out += x)); p.stderr.on('data', (x) => (err += x));
            const fin = (e) => { if (over) return; over = true; if (cb) cb(e, out, err); };
            p.on('error', fin); p.on('close', (code, sig) => { if (code === 0) return fin(null); const e = new Error('Command failed: ' + cmd + ' ' + (args || []).join(' ')); e.code = code; e.killed = false; e.signal = sig; e.stdout = out; e.stderr = err; fin(e); });
            return p;
        };
        execFile[util.promisify.custom] = (...a) => new Promise((ok, no) => execFile(...a, (e, so, se) => (e ? no(Object.assign(e, { stdout: so, stderr: se })) : ok({ stdout: so, stderr: se }))));
        const words = (s) => String(s).match(/"[^"]*"|\S+/g).map((x) => x.replace(/^"|"$/g, ''));
        const exec = (s, o, cb) => { if (typeof o === 'function') { cb = o; o = {}; } const [c, ...a] = words(s); return execFile(c, a, o || {}, cb); };
        exec[util.promisify.custom] = (s, o) => { const [c, ...a] = words(s); return execFile[util.promisify.custom](c, a, o || {}); };
        const sync = (r) => { if (r.error) throw r.error; if (r.status !== 0) throw Object.assign(new Error('Command failed'), r); return r.stdout; };
        return { spawn, spawnSync, execFile, exec, execFileSync: (c, a, o) => sync(spawnSync(c, a, o)), execSync: (s, o) => { const [c, ...a] = words(s); return sync(spawnSync(c, a, o)); } };
    }
    // ---- vscode-languageclient 7
    makeLc() {
        const win = this, sim = this.sim, w = this.w;
        const State = { Stopped: 1, Starting: 3, Running: 2 };
        class LanguageClient {
            constructor(id, name, serverOptions, clientOptions) {
                if (typeof name === 'object') { clientOptions = serverOptions; serverOptions = name; name = id; }
                this.id = id; this.name = name; this.so = serverOptions; this.co = clientOptions || {}; this.st = 'initial'; this.server = null; this.restarts = 0; this.n = win.clients.length; this.diagnostics = undefined; this.code2ProtocolConverter = this.protocol2CodeConverter = permissive('conv', {});
                this.ready = new Promise((ok, no) => { this.rok = ok; this.rno = no; }); this.ready.catch(() => {});
                this.folder = this.co.workspaceFolder; this.stateCbs = []; win.clients.push(this);
                this.outputChannel = win.channel(); this.traceOutputChannel = this.co.traceOutputChannel || this.outputChannel;
            }
            get state() { return this.st === 'running' ? State.Running : this.st === 'starting' ? State.Starting : State.Stopped; }
            get initializeResult() { return this.st === 'running' ? { capabilities: {} } : undefined; }
            set(s) { const o = this.state; this.st = s; sim.say(`${win.name} client${this.n} ${s}`); if (o !== this.state) for (const f of [...this.stateCbs]) f({ oldState: o, newState: this.state }); }
            onDidChangeState(f) { this.stateCbs.push(f); return new Disposable(() => { this.stateCbs = this.stateCbs.filter((x) => x !== f); }); }
            onReady() { return this.ready; }
            onNotification() { return new Disposable(() => {}); } onRequest() { return new Disposable(() => {}); } onTelemetry() { return new Disposable(() => {}); }
            sendNotification() {} sendRequest() { return this.st === 'running' ? new Promise((ok) => sim.at(sim.lat(win.k('request')), win.name + ' response', win, () => ok(null))) : Promise.reject(new Error('Language client is not ready yet')); }
            registerFeature() {} registerFeatures() {} registerProposedFeatures() {} error() {} info() {} warn() {}
            needsStart() { return ['initial', 'stopping', 'stopped'].includes(this.st); }
            needsStop() { return ['starting', 'running'].includes(this.st); }
            start() {
                if (this.conn) return this.handle();
                this.conn = this.connect(); this.conn.catch(() => {});
                return this.handle();
            }
            handle() { return new Disposable(() => { if (this.needsStop()) return this.stop(); }); }
            connect() {
                this.set('starting');
                const key = win.k('server');
                const x = this.so.command ? this.so : this.so.run || this.so.debug || {};
                const command = x.command || x.module, cwd = (x.options && x.options.cwd) || '/';
                return new Promise((ok, no) => {
                    const fail = (e) => { this.kill(); this.set('failed'); this.rno(e); no(e); };
                    sim.at(sim.lat(key), `${win.name} starts server ${command} in ${cwd}`, win, () => {
                        const f = sim.fault(key, [['EAGAIN', 2], ['initfail', 2], ['slow', 4]]);
                        let e;
                        try { if (f === 'EAGAIN') throw errno(f, 'spawn ' + command, command); e = w.exec(win, command, cwd); if (e.bin !== 'move-language-server') throw errno('ENOEXEC', 'spawn ' + command, command); } catch (err) { if (!err.code) throw err; return fail(err); }
                        this.server = { win, node: e.node, alive: true, kind: 'server', client: this, command, cwd, init: JSON.parse(JSON.stringify(this.co.initializationOptions === undefined ? null : typeof this.co.initializationOptions === 'function' ? this.co.initializationOptions() : this.co.initializationOptions)), folder: this.folder };
                        w.procs.push(this.server); w.count('servers');
                        sim.at(sim.lat(key + '/init') + (f === 'slow' ? 20000 : 0), `${win.name} initialize answered`, win, () => {
                            if (!this.server || !this.server.alive) return fail(new Error('server died'));
                            if (f === 'initfail') return fail(new Error('initialize failed'));
                            if (this.st === 'starting') this.set('running'); this.rok(); ok();
                            if (sim.fault(key + '/crash', [['crash', 3]])) { const s = this.server; sim.at(sim.lat(key + '/crash'), `${win.name} server crashes`, win, () => { if (!s.alive || this.server !== s) return; s.alive = false; if (this.st !== 'running') return; this.conn = undefined; this.set('initial'); if (this.restarts++ < 4) this.start(); else this.set('stopped'); }); }
                        });
                    });
                });
            }
            kill() { if (this.server) this.server.alive = false; this.server = null; }
            stop() {
                if (!this.conn) { this.set('stopped'); return Promise.resolve(); }
                if (this.st === 'stopping' && this.onStop) return this.onStop;
                this.set('stopping');
                const key = win.k('stop');
                return (this.onStop = this.conn.then(() => new Promise((ok) => { sim.at(sim.lat(key), `${win.name} client${this.n} shutdown`, win, () => { this.kill(); this.set('stopped'); this.onStop = undefined; this.conn = undefined; ok(); }); })));
            }
            dispose() { return this.stop(); }
        }
        return permissive('lc', { LanguageClient, State, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 }, ErrorAction: { Continue: 1, Shutdown: 2 }, CloseAction: { DoNotRestart: 1, Restart: 2 }, Trace: { Off: 0, Messages: 1, Verbose: 2 } });
    }
    channel() { return permissive('channel', { name: '', append() {}, appendLine: () => {}, clear() {}, show() {}, hide() {}, dispose() {} }); }
    event(name) { return (f, self, disposables) => { const l = { f: self ? f.bind(self) : f }; let a = this.listeners.get(name); if (!a) this.listeners.set(name, (a = [])); a.push(l); const d = new Disposable(() => { const i = a.indexOf(l); if (i >= 0) a.splice(i, 1); }); if (disposables) disposables.push(d); return d; }; }
    emit(name, arg) { for (const l of [...(this.listeners.get(name) || [])]) { try { const r = l.f(arg); if (r && r.catch) r.catch((e) => this.sim.say(`${this.name} ${name} listener rejects: ${e && e.message}`)); } catch (e) { this.sim.say(`${this.name} ${name} listener throws: ${e && e.message}`); } } }
    dialog(kind, message, rest) {
        const sim = this.sim, key = this.k('dialog');
        const items = rest.filter((x) => typeof x === 'string' || (x && x.title));
        sim.say(`${this.name} ${kind}: ${String(message).slice(0, 120)}`); this.w.count('dialogs'); if (kind !== 'info') { this.reported = (this.reported || 0) + 1; (this.messages = this.messages || []).push(String(message)); }
        return new Promise((ok) => sim.at(sim.lat(key), `${this.name} dialog answered`, this, () => {
            let i;
            const titled = (re) => items.findIndex((x) => re.test(typeof x === 'string' ? x : x.title));
            if (!sim.faultsOn) { i = this.unauthorized ? titled(/token/i) : -1; if (i < 0) i = titled(/retry/i); } // a user who wants it to work
            else i = sim.choose(key, -1, (r) => (items.length ? r.below(items.length + 1) - 1 : -1));
            sim.say(`${this.name} answers ${i}`);
            const it = items[i], chosen = it ? String(it.title || it) : '';
            if (/retry/i.test(chosen)) (this.retries = this.retries || []).push(this.nops || 0);
            else if (/token/i.test(chosen)) this.asksToken = (this.asksToken || 0) + 1;
            ok(it);
        }));
    }
    makeVscode() {
        const win = this, sim = this.sim, w = this.w, d = w.disk;
        const F = [['EIO', 2]];
        const pop = (label, fn) => new Promise((ok, no) => win.op(label, F, fn, (e, r) => (e ? no(e) : ok(r))));
        const wfs = {
            createDirectory: (u) => pop('createDirectory', () => d.mkdirs(u.fsPath)), stat: (u) => pop('stat ' + u.fsPath, () => { const s = d.stat(u.fsPath); return { type: s.dir ? 2 : 1, size: s.size, ctime: 0, mtime: 0 }; }),
            rename: (a, b, o) => pop(`rename ${a.fsPath} ${b.fsPath}`, () => { if (d.files.has(d.norm(b.fsPath)) && !(o && o.overwrite)) throw errno('EEXIST', 'rename'); d.rename(a.fsPath, b.fsPath); }), delete: (u) => pop('delete', () => { if (!d.rmTree(u.fsPath)) throw errno('ENOENT', 'delete', u.fsPath); }),
            readFile: (u) => win.fs.promises.readFile(u.fsPath), writeFile: (u, x) => win.fs.promises.writeFile(u.fsPath, Buffer.from(x)), copy: (a, b, o) => (async () => { if (d.files.has(d.norm(b.fsPath)) && !(o && o.overwrite)) throw errno('EEXIST', 'copy'); return win.fs.promises.copyFile(a.fsPath, b.fsPath); })(), readDirectory: (u) => pop('readDirectory', () => d.list(u.fsPath).map((x) => [nodePath.posix.basename(x), d.dirs.has(x) ? 2 : 1])), isWritableFileSystem: () => true,
        };
        const window = permissive('window', {
            get activeTextEditor() { return win.active; }, get visibleTextEditors() { return win.active ? [win.active] : []; }, onDidChangeActiveTextEditor: this.event('activeEditor'),
            createOutputChannel: () => win.channel(), showErrorMessage: (m, ...r) => win.dialog('error', m, r), showWarningMessage: (m, ...r) => win.dialog('warning', m, r), showInformationMessage: (m, ...r) => win.dialog('info', m, r), setStatusBarMessage: () => new Disposable(() => {}), createStatusBarItem: () => permissive('status', { show() {}, hide() {}, dispose() {} }), showQuickPick: async () => undefined,
            showInputBox: (o) => { win.inputs = (win.inputs || 0) + 1; if (!o || !o.password) sim.violate('C14', 'token-shown', 'the GitHub token is asked for in an input box that shows it'); const key = win.k('input'); return new Promise((ok) => sim.at(sim.lat(key), win.name + ' input box answered', win, () => { const v = !sim.faultsOn ? (sim.seq & 1 ? 'tokA' : '') : sim.choose(key, 'esc', (r) => r.pick(['esc', 'esc', '', 'tokA', 'tokB'])); const val = v === 'esc' ? undefined : v; win.tokenAnswered(val); ok(val); })); },
            withProgress: (o, task) => { let sum = 0; const pr = (async () => { const report = (x) => { const n = x && x.increment; if (n === undefined) return; sum += n; if (!(n >= 0) || sum > 100.01) sim.violate('C14', 'progress', `the progress of "${o && o.title}" goes on by ${n} % to ${sum} %`); }; const res = await task({ report }, { isCancellationRequested: false, onCancellationRequested: () => new Disposable(() => {}) }); if (sum && sum < 99.99) sim.violate('C14', 'progress', `"${o && o.title}" ends at ${sum} %`); return res; })(); return pr; },
        });
        const DEF = { 'move.languageServerPath': '', 'move.doveExecutablePath': '', 'move.trace.extension': false, 'move.trace.server': 'off' };
        const workspace = permissive('workspace', {
            fs: permissive('fs', wfs), get workspaceFolders() { return w.folders.filter((f) => f.open !== false).map((f) => f.obj); }, getWorkspaceFolder: (u) => { const f = w.folders.find((x) => x.open !== false && u && (u.fsPath === x.path || u.fsPath.startsWith(x.path + '/'))); return f && f.obj; },
            getConfiguration: (sec) => ({ get: (k, dflt) => { const full = sec ? sec + '.' + k : k; const v = full in w.settings ? w.settings[full] : DEF[full]; return v === undefined ? dflt : v; }, has: (k) => (sec + '.' + k) in DEF, inspect: () => undefined, update: async () => {} }),
            get textDocuments() { return win.active ? [win.active.document] : []; },
            onDidSaveTextDocument: this.event('save'), onDidChangeConfiguration: this.event('config'), onDidCreateFiles: this.event('create'), onDidDeleteFiles: this.event('delete'), onDidRenameFiles: this.event('rename'), onDidOpenTextDocument: this.event('open'), onDidCloseTextDocument: this.event('close'), onDidChangeWorkspaceFolders: this.event('folders'), onDidChangeTextDocument: this.event('change'),
        });
        const commands = permissive('commands', {
            registerCommand: (id, f) => { if (win.commands.has(id)) throw new Error(`command '${id}' already exists`); win.commands.set(id, f); return new Disposable(() => { if (win.commands.get(id) === f) win.commands.delete(id); }); },
            executeCommand: (id, ...a) => { if (!win.commands.has(id)) return Promise.reject(new Error(`command '${id}' not found`)); if (id === 'move.reload') w.count('reloads'); const f = win.commands.get(id); return new Promise((ok, no) => { try { ok(f(...a)); } catch (e) { no(e); } }); },
            getCommands: async () => [...win.commands.keys()],
        });
        const tasks = permissive('tasks', { registerTaskProvider: (type, p) => { const e = { type, p }; win.providers.push(e); return new Disposable(() => { const i = win.providers.indexOf(e); if (i >= 0) win.providers.splice(i, 1); }); } });
        class Task { constructor(def, scope, name, source, execution) { Object.assign(this, { definition: def, scope, name, source, execution }); } }
        class ShellExecution { constructor(command, args, options) { Object.assign(this, { command, args, options }); } }
        return permissive('vscode', { Uri, Disposable, window, workspace, commands, tasks, Task, ShellExecution, ProcessExecution: ShellExecution, TaskGroup: { Build: 'b', Test: 't', Clean: 'c', Rebuild: 'r' }, ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 }, TaskScope: { Global: 1, Workspace: 2 }, StatusBarAlignment: { Left: 1, Right: 2 }, ConfigurationTarget: { Global: 1 }, FileType: { File: 1, Directory: 2 }, env: permissive('env', { machineId: 'm', language: 'en' }), languages: permissive('languages', {}), extensions: permissive('ext', { getExtension: () => undefined }), version: '1.60.0', EventEmitter: class { constructor() { this.l = []; this.event = (f) => { this.l.push(f); return new Disposable(() => { this.l = this.l.filter((x) => x !== f); }); }; } fire(x) { for (const f of [...this.l]) f(x); } dispose() { this.l = []; } } });
    }
    tokenAnswered(v) { if (v === undefined) return; this.w.tokenModel = v === '' ? undefined : v; }
    // ---- life of the window
    doc(path) { return { uri: Uri.file(path), fileName: path, languageId: path.endsWith('.move') ? 'move' : path.endsWith('.toml') ? 'toml' : 'plaintext', isDirty: false, getText: () => '' }; }
    activate() {
        const w = this.w, sim = this.sim;
        this.context = { subscriptions: [], globalState: { get: (k, dflt) => (k in w.memento ? w.memento[k] : dflt), update: (k, v) => new Promise((ok) => { const key = this.k('memento'); if (v === undefined) delete w.memento[k]; else w.memento[k] = v; sim.at(sim.lat(key), this.name + ' memento stored', this, () => ok()); }), keys: () => Object.keys(w.memento) }, workspaceState: { get() {}, update: async () => {} }, globalStorageUri: Uri.file(STORE), globalStoragePath: STORE, storageUri: Uri.file(STORE), extensionUri: Uri.file('/ext'), extensionPath: '/ext', asAbsolutePath: (p) => '/ext/' + p, logUri: Uri.file('/tmp'), extensionMode: 1, secrets: { get: async () => undefined, store: async () => {} } };
        this.activations++; this.had = new Set([...w.finals.keys()].filter((p) => w.disk.files.has(p))); this.hadAt = sim.nfired;
        try { this.module = instantiate(w.compiled, this.globals, this.builtin); } catch (e) { sim.violate('C15', 'load', 'the extension does not load: ' + e.stack); return; }
        this.activated = 'pending'; this.faultless = !Object.keys(sim.fired).length;
        let p; try { p = this.module.activate(this.context); } catch (e) { p = Promise.reject(e); }
        Promise.resolve(p).then(() => { this.activated = 'ok'; sim.say(this.name + ' activated'); }, (e) => { this.activated = 'failed'; this.activationError = e && e.message; sim.say(`${this.name} activation failed: ${e && e.message}`); });
    }
    deactivate() { // what VS Code does with an extension it shuts down; the host itself lives on
        this.closed = true;
        const sim = this.sim;
        let p; try { p = this.module && this.module.deactivate && this.module.deactivate(); } catch (e) { p = null; }
        Promise.resolve(p).catch(() => {}).then(() => { if (!this.alive) return; for (const s of this.context ? this.context.subscriptions : []) { try { const r = s.dispose(); if (r && r.catch) r.catch((e) => sim.say(`${this.name} dispose rejects: ${e && e.message}`)); } catch (e) { sim.say(`${this.name} dispose throws: ${e && e.message}`); } } });
    }
    kill() { this.alive = false; this.w.disk.closeAll(this); for (const p of this.w.procs) if (p.win === this) p.alive = false; }
    servers(folder) { return this.w.procs.filter((p) => p.kind === 'server' && p.alive && p.win === this && (!folder || (p.folder && p.folder.uri.fsPath === folder.path))); }
}
World.prototype.tokenStored = function () { return this.memento.githubToken; };
module.exports = { World, Window, Uri, Disposable, metadataOf, expectedInit, STORE, HOME };
