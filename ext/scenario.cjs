// Scenario generation, the user model, and the oracles of C14 and C15.
'use strict';
const { Sim, Rng } = require('./sim.cjs');
const { World, Window, Uri, expectedInit, STORE, HOME } = require('./world.cjs');
const BINS = ['dove', 'move-language-server'];

function make(prop, seed) {
    const r = new Rng(prop + '/' + seed);
    const c14 = prop === 'C14';
    const platform = c14 && r.p(6) ? r.pick(['freebsd', 'aix']) : r.p(70) ? 'linux' : r.p(50) ? 'darwin' : 'win32';
    const style = r.below(3), names = [];
    for (const b of BINS) for (const l of ['darwin', 'linux', 'win']) names.push([(style === 0 ? `${b}-1.2.2-${l}-x86_64` : style === 1 ? `${b}-${l}-1.2.2` : `${b}-${l}-v1.2.2`) + (l === 'win' ? '.exe' : ''), b, l]);
    if (r.p(50)) for (let i = names.length - 1; i > 0; i--) { const j = r.below(i + 1); [names[i], names[j]] = [names[j], names[i]]; }
    const nf = c14 ? 1 : r.range(1, 3), twins = r.p(25);
    const folders = Array.from({ length: nf }, (_, i) => ({ name: twins ? 'app' : r.pick(['p', 'p', 'pröj ', '项目', 'p[x]', 'a{b}']) + i, dir: twins ? 'abc'[i] + '/' : '', toml: r.p(70) ? 'valid' : r.p(50) ? 'invalid' : 'none' }));
    const ex = () => r.pick(['/opt/bin/tool', '~/bin/tool']);
    const config = {};
    if (r.p(c14 ? 15 : 50)) config['move.doveExecutablePath'] = ex() + '-dove';
    if (r.p(c14 ? 15 : 50)) config['move.languageServerPath'] = ex() + '-ls';
    if (r.p(30)) config['move.trace.extension'] = true;
    const installed = c14 ? (r.p(75) ? [] : [r.pick(BINS)]) : r.p(75) ? BINS : [];
    const rate = r.p(25) ? 0 : r.pick([0.3, 1, 1, 3]);
    const actions = [];
    const nwin = c14 ? r.range(1, 3) : 1;
    for (let i = 0; i < nwin; i++) actions.push({ gap: r.tail(), do: 'open', win: i, folder: r.below(nf), file: r.p(85) ? 'move' : r.pick(['toml', 'none', 'outside']) });
    const n = r.range(2, c14 ? 10 : 16);
    const kinds = c14 ? ['kill', 'kill', 'close', 'open', 'open', 'open', 'focus', 'focus', 'reload', 'save'] : ['focus', 'focus', 'focus', 'save', 'save', 'save', 'save', 'reload', 'reload', 'reload', 'config', 'config', 'create', 'delete', 'deactivate', 'open', 'remove', 'remove', 'add', 'add'];
    for (let i = 0; i < n; i++) actions.push(action(r, r.pick(kinds), nf, c14 ? 3 : 1));
    // the last burst: no faults any more, only the user, the schedule and latencies
    const burst = [];
    for (let i = r.below(5); i > 0; i--) burst.push(action(r, r.pick(['focus', 'save', 'reload', 'config', 'focus', 'save', 'remove', 'add']), nf, 1));
    return { prop, seed, platform, names, folders, config, installed, rate, calm: r.p(15), actions, burst, last: r.below(nf), leftovers: r.p(30), noinfo: r.p(20), token: r.p(20) ? 'tok0' : r.p(5) ? 'tokB' : null, last3: r.pick(['save', 'save', 'create']), spoil: r.p(40), spoil2: r.p(50), big: r.p(4), chatty: r.p(30), tmpfs: r.p(50), among: r.below(4), other: r.p(30) ? r.pick(['move', 'other', 'copy']) : null };
}
function action(r, kind, nf, nw) {
    const a = { gap: r.p(25) ? 0 : r.tail(), do: kind, win: r.below(nw), folder: r.below(nf) };
    if (kind === 'focus' || kind === 'open') a.file = r.p(75) ? 'move' : r.p(60) ? 'toml' : r.pick(['other', 'none', 'outside']);
    if (kind === 'save') { a.file = r.p(80) ? 'toml' : r.pick(['move', 'other', 'copy']); a.valid = r.p(75); a.edit = r.p(80); }
    if (kind === 'remove' || kind === 'add') a.all = r.p(30);
    if (kind === 'create' || kind === 'delete') a.among = r.below(4);
    if (kind === 'config') { a.key = r.pick(['move.languageServerPath', 'move.doveExecutablePath', 'move.trace.extension', 'editor.fontSize']); a.value = r.pick(['', '/opt/bin/tool', '~/bin/tool']); }
    return a;
}
let baseline = null; // listeners per event of one freshly activated instance, on this tree

async function run(cs, compiled, opt = {}) {
    const sim = new Sim(cs); sim.keep = !!opt.keep;
    if (cs.rate === undefined) cs.rate = 1;
    const w = new World(sim, compiled);
    const P = cs.prop;
    w.setRelease(cs.names);
    for (const bin of ['dove', 'ls']) for (const d of ['/opt/bin', HOME + '/bin']) { const p = `${d}/tool-${bin}`; w.disk.put(p, 'explicit ' + bin, 0o755); w.explicitFiles.set(p, bin === 'ls' ? 'move-language-server' : 'dove'); }
    Object.assign(w.settings, cs.config);
    for (const f of cs.folders) { const o = { name: f.name, path: '/home/user/' + (f.dir || '') + f.name, v: 0, open: true }; o.obj = { uri: Uri.file(o.path), name: f.name, index: w.folders.length }; w.folders.push(o); w.disk.mkdirs(o.path); if (f.toml !== 'none') w.writeToml(o, { valid: f.toml === 'valid', v: ++o.v }); }
    for (const b of cs.installed) for (const a of w.assets) if (a.bin === b && a.label === w.label) w.disk.put(STORE + '/' + a.name, a.data, 0o755);
    if (cs.leftovers) for (const a of w.assets.slice(0, 2)) w.disk.put(`${STORE}/${a.name}0011223344`, a.data.subarray(0, 7), 0o755);
    if (cs.token) w.tokenModel = w.memento.githubToken = cs.token;
    const slots = []; // user-visible windows
    const live = (i) => slots.filter((x) => x && x.alive && !x.closed)[i] || slots.filter((x) => x && x.alive && !x.closed)[0];
    const editor = (win, folder, file) => { if (file === 'none') return undefined; const p = file === 'move' ? folder.path + '/modules/M.move' : file === 'toml' ? folder.path + '/Dove.toml' : file === 'outside' ? '/home/user/elsewhere/X.move' : folder.path + '/README.md'; return { document: win.doc(p), options: {} }; };
    const setting = (k) => { const v = w.settings[k] || ''; return v.startsWith('~/') ? HOME + v.slice(1) : v; };
    const among = (folder, a) => { const l = [Uri.file(folder.path + '/Dove.toml')]; if (a.among & 1) l.unshift(Uri.file(folder.path + '/modules/New.move')); if (a.among & 2) l.push(Uri.file(folder.path + '/README.md')); return l; };
    const act = (a) => {
        const folder = w.folders[a.folder % w.folders.length];
        sim.say('user ' + JSON.stringify(a));
        if (a.do === 'open') {
            if (slots.filter((x) => x.alive && !x.closed).length >= 3 || (P === 'C15' && live(0))) return;
            const win = new Window(w); slots.push(win); win.active = editor(win, folder, a.file); win.activate(); return;
        }
        const win = live(a.win); if (!win) return;
        if (a.do === 'focus') { win.active = editor(win, folder, a.file); win.emit('activeEditor', win.active); }
        else if (a.do === 'save') { if (a.file === 'toml') { if (a.edit || !w.disk.files.has(folder.path + '/Dove.toml')) w.writeToml(folder, { valid: a.valid, v: ++folder.v }); } const p = folder.path + { toml: '/Dove.toml', move: '/modules/M.move', other: '/README.md', copy: '/Dove.toml.orig' }[a.file]; for (const x of slots) if (x.alive && !x.closed && x === win) x.emit('save', x.doc(p)); }
        else if (a.do === 'remove') { const gone = w.folders.filter((f) => f.open && f !== w.folders[0] && (f === folder || a.all)); for (const f of gone) f.open = false; if (gone.length) win.emit('folders', { added: [], removed: gone.map((f) => f.obj) }); } // (removing the first one restarts the host)
        else if (a.do === 'add') { const back = w.folders.filter((f) => !f.open && (f === folder || a.all)); for (const f of back) { f.open = true; f.obj = { uri: Uri.file(f.path), name: f.name, index: 0 }; } w.folders.filter((f) => f.open).forEach((f, i) => { f.obj.index = i; }); if (back.length) win.emit('folders', { added: back.map((f) => f.obj), removed: [] }); }
        else if (a.do === 'create') { if (!w.disk.files.has(folder.path + '/Dove.toml')) { w.writeToml(folder, { valid: true, v: ++folder.v }); win.emit('create', { files: among(folder, a) }); } }
        else if (a.do === 'delete') { if (w.disk.files.has(folder.path + '/Dove.toml')) { w.disk.files.delete(folder.path + '/Dove.toml'); win.emit('delete', { files: among(folder, a) }); } }
        else if (a.do === 'reload') win.vscode.commands.executeCommand('move.reload').catch(() => {});
        else if (a.do === 'config') { w.settings[a.key] = a.key === 'move.trace.extension' ? a.value !== '' : a.value === '' ? '' : a.value + (a.key.includes('dove') ? '-dove' : '-ls'); for (const x of slots) if (x.alive && !x.closed) x.emit('config', { affectsConfiguration: (s) => a.key === s || a.key.startsWith(s + '.') }); }
        else if (a.do === 'deactivate') win.deactivate();
        else if (a.do === 'kill') win.kill();
        else if (a.do === 'close') { win.deactivate(); sim.at(5000, 'host exits', win, () => win.kill()); }
    };
    // ---- invariants after every event
    const invariants = () => {
        w.checkDisk();
        for (const win of w.windows) {
            if (!win.alive) continue;
            for (const f of w.folders) {
                const run2 = win.servers(f).filter((p) => p.client.st !== 'stopping');
                if (run2.length > 1) sim.violate('C15', 'two-servers', `${run2.length} servers serve ${f.path} at once in one window and none of them is being stopped`);
            }
        }
        for (const p of w.procs) if (p.kind === 'server' && !p.judged) {
            p.judged = true;
            const f = w.folders.find((x) => p.folder && p.folder.uri.fsPath === x.path);
            if (!f || p.cwd !== f.path) sim.violate('C15', 'wrong-folder', `a server runs in ${p.cwd} for ${p.folder && p.folder.uri.fsPath}`);
            else {
                const v = p.init && typeof p.init.sender_address === 'string' ? parseInt(p.init.sender_address, 16) : NaN;
                const e = v >= 1 && v <= f.v ? expectedInit(f, { v }) : null;
                const got = p.init && { dialect: p.init.dialect, modules_folders: p.init.modules_folders, sender_address: p.init.sender_address, stdlib_folder: p.init.stdlib_folder === undefined ? null : p.init.stdlib_folder };
                if (!e || JSON.stringify(got) !== JSON.stringify(e)) sim.violate('C15', 'wrong-options', `the server of ${f.path} is initialised with ${JSON.stringify(p.init)}, its Dove.toml says ${JSON.stringify(e)}`);
                p.v = v;
                const sel = p.client.co.documentSelector || [];
                for (const g of w.folders) { const d = p.win.doc(g.path + '/modules/M.move'), e = p.win.doc(g.path + '-old/M.move'); if (claims(sel, d) !== (g === f)) sim.violate('C15', 'wrong-documents', `the server of ${f.path} ${g === f ? 'does not serve' : 'also serves'} ${d.fileName}`); if (claims(sel, e)) sim.violate('C15', 'wrong-documents', `the server of ${f.path} also serves ${e.fileName}`); }
            }
        }
    };
    const glob = (g) => { // VS Code's glob patterns
        g = String(g && typeof g === 'object' && g.pattern !== undefined ? (g.base ? String(g.base) + '/' : '') + g.pattern : g);
        let o = '', depth = 0;
        for (let i = 0; i < g.length; i++) {
            const c = g[i];
            if (c === '[') { let j = i + 1, b = ''; while (j < g.length && (g[j] !== ']' || !b)) { b += g[j] === '-' ? '-' : (g[j] === '^' || g[j] === '!') && !b ? '^' : g[j].replace(/[\\\][^]/g, '\\$&'); j++; } if (j < g.length) { o += `[${b}]`; i = j; } else o += '\\['; }
            else if (c === '{') { depth++; o += '(?:'; }
            else if (c === '}' && depth) { depth--; o += ')'; }
            else if (c === ',' && depth) o += '|';
            else if (g.startsWith('**/', i)) { o += '(?:.*/)?'; i += 2; }
            else if (g.startsWith('**', i)) { o += '.*'; i++; }
            else if (c === '*') o += '[^/]*';
            else if (c === '?') o += '[^/]';
            else o += c.replace(/[.+^$()|[\]\\{}]/g, '\\$&');
        }
        return new RegExp('^' + o + ')'.repeat(depth) + '$');
    };
    const claims = (sel, doc) => (Array.isArray(sel) ? sel : [sel]).some((x) => (typeof x === 'string' ? x === '*' || x === doc.languageId : (!x.language || x.language === '*' || x.language === doc.languageId) && (!x.scheme || x.scheme === doc.uri.scheme) && (!x.pattern || glob(x.pattern).test(doc.uri.fsPath)) && !!(x.language || x.scheme || x.pattern)));
    const offered = async () => { for (const win of w.windows) if (win.alive) for (const e of win.providers) if (!e.tasks) { e.tasks = []; try { e.tasks = (await e.p.provideTasks()) || []; } catch (x) { sim.violate('C15', 'no-tasks', 'provideTasks fails: ' + x.message); } } };
    const folderOf = (e) => { const t = e.tasks && e.tasks[0]; return t && ((t.scope && t.scope.uri && t.scope.uri.fsPath) || (t.execution && t.execution.options && t.execution.options.cwd)); };
    const quiet = (when) => { // nothing is pending anywhere
        w.count('quiet_points');
        for (const win of w.windows) {
            if (!win.alive) continue;
            for (const f of w.folders) {
                const s = win.servers(f), pr = win.providers.filter((x) => folderOf(x) === f.path);
                if (s.length > 1) sim.violate('C15', 'two-servers', `${when}: ${s.length} servers run for ${f.path}`);
                if (pr.length > 1) sim.violate('C15', 'two-providers', `${when}: ${pr.length} task providers are registered for ${f.path}`);
                if (!f.open && s.length) sim.violate('C15', 'leaked-server', `${when}: a server still runs for ${f.path} although the folder was removed from the workspace`);
                if (!f.open && pr.length) sim.violate('C15', 'leaked-provider', `${when}: a task provider remains for ${f.path} although the folder was removed from the workspace`);
                if (win.closed && s.length) sim.violate('C15', 'leaked-server', `${when}: a server still runs for ${f.path} although the extension was deactivated`);
                for (const x of s) { const c = setting('move.languageServerPath'); const ok = c ? x.command === c : w.finals.has(x.command); if (!ok && !win.closed) sim.violate('C15', 'stale-path', `${when}: the running server is ${x.command}, the setting says ${JSON.stringify(c)}`); }
            }
            if (!win.closed) for (const e of win.providers) for (const t of e.tasks || []) {
                const c = setting('move.doveExecutablePath'), x = t.execution || {}, f = w.folders.find((y) => x.options && x.options.cwd === y.path);
                if (!f || (t.scope && t.scope.uri && t.scope.uri.fsPath !== f.path)) sim.violate('C15', 'wrong-task', `${when}: task ${t.name} runs in ${x.options && x.options.cwd}`);
                if (c ? x.command !== c : !w.finals.has(x.command) || w.finals.get(x.command).bin !== 'dove') sim.violate('C15', 'wrong-task', `${when}: task ${t.name} runs ${x.command}, move.doveExecutablePath is ${JSON.stringify(c)}`);
            }
            if (win.providers.length > w.folders.length) sim.violate('C15', 'two-providers', `${when}: ${win.providers.length} task providers for ${w.folders.length} folders`);
            if (win.closed && win.providers.length) sim.violate('C15', 'leaked-provider', `${when}: ${win.providers.length} task providers remain after deactivation`);
            if (win.closed && win.commands.size) sim.violate('C15', 'leaked-command', `${when}: commands ${[...win.commands.keys()]} remain after deactivation`);
            for (const [n, l] of win.listeners) {
                if (win.closed && l.length) sim.violate('C15', 'leaked-listener', `${when}: ${l.length} ${n} listeners remain after deactivation`);
                if (baseline && l.length > (baseline[n] || 0)) sim.violate('C15', 'leaked-listener', `${when}: ${l.length} ${n} listeners, a fresh instance has ${baseline[n] || 0}`);
            }
        }
        for (const win of w.windows) if (win.alive && win.activated === 'failed' && win.faultless && !w.refused && w.label && !Object.keys(sim.fired).length) sim.violate(P, 'activation-fails', `${when}: activation failed although nothing went wrong: ${win.activationError}`);
        for (const win of w.windows) if (win.alive && win.activated === 'failed' && !win.reported) sim.violate('C15', 'silent-failure', `${when}: activation failed and the user was told nothing: ${win.activationError}`);
        for (const u of sim.uncaught) sim.violate('C15', 'uncaught', `${when}: ${u.err && u.err.message} is thrown into the extension host (${u.label})`);
        for (const win of w.windows) if (win.alive && !win.closed && win.activated === 'pending' && !sim.fired.stall && !sim.fired.hang) sim.violate('C15', 'activation-hangs', `${when}: activation neither succeeds nor fails`);
        for (const win of w.windows) {
            if (!win.alive) continue;
            if ((win.inputs || 0) !== (win.asksToken || 0)) sim.violate('C14', 'token-dialog', `${when}: the user asked ${win.asksToken || 0} times to change the GitHub token and was asked for one ${win.inputs || 0} times`);
            if ((win.retries || []).some((n) => n === (win.nops || 0))) sim.violate('C14', 'retry-ignored', `${when}: the user asked to retry a download and nothing was tried`);
        }
        for (const f of w.folders) if (f.v === 0 && w.doveRan.has(f.path)) sim.violate('C15', 'not-a-project', `${when}: dove was run in ${f.path}, which has no Dove.toml`);
        if (w.folders.every((f) => f.v === 0) && w.counters.fetches) sim.violate('C15', 'not-a-project', `${when}: no folder has a Dove.toml and something was downloaded`);
        if (w.memento.githubToken !== w.tokenModel) sim.violate('C14', 'token-lost', `the token the user stored is ${JSON.stringify(w.tokenModel)}, stored is ${JSON.stringify(w.memento.githubToken)}`);
        for (const [p] of w.explicitFiles) if (!w.disk.files.has(p) || !w.disk.files.get(p).data.toString().startsWith('explicit')) sim.violate('C14', 'explicit-overwritten', `${p}, which the user configured, was changed`);
    };
    const drain = async (when) => { if (!(await sim.settle(invariants))) { sim.violate(P, 'livelock', `${when}: still busy after 20000 events`); return false; } await offered(); quiet(when); return true; };
    const schedule = (list) => { let t = 0; for (const a of list) { t += a.gap; sim.at(t, 'user', null, () => act(a)); } };

    // phase 1: users and faults
    if (opt.baseline) {
        act({ do: 'open', win: 0, folder: 0, file: 'move' });
        await drain('baseline');
        const b = {}; for (const [n, l] of w.windows[0].listeners) b[n] = l.length;
        return b;
    }
    schedule(cs.actions);
    if (await drain('after the faults')) {
        sim.faultsOn = false;
        // phase 2: no faults; a user burst, then a valid Dove.toml is saved
        if (P === 'C14') {
            for (const win of w.windows) if (win.alive && !win.closed && new Rng(cs.seed + '/k' + win.id).p(50)) win.kill();
            const f = w.folders[0];
            w.writeToml(f, { valid: true, v: ++f.v });
            if (slots.filter((x) => x.alive && !x.closed).length >= 3) live(0).kill();
            const nets = w.counters.fetches;
            act({ do: 'open', win: 0, folder: 0, file: 'move' });
            const win = slots[slots.length - 1];
            let missing = false;
            if (await drain('recovery')) {
                for (const b of BINS) {
                    if (setting(b === 'dove' ? 'move.doveExecutablePath' : 'move.languageServerPath')) continue;
                    const a = w.assets.find((x) => x.bin === b && x.label === w.label);
                    if (!a) { missing = true; continue; }
                    if (!w.disk.files.has(STORE + '/' + a.name)) sim.violate('C14', 'not-installed', `a fresh window without faults did not install ${a.name}; activation: ${win.activated}`);
                }
                const s = win.servers(f);
                if (s.length !== (missing ? 0 : 1)) sim.violate('C14', 'no-server', `a fresh window without faults runs ${s.length} servers; activation: ${win.activated}`);
                if (setting('move.doveExecutablePath') && setting('move.languageServerPath') && w.counters.fetches !== nets) sim.violate('C14', 'needless-download', 'both executables are configured and the network is used all the same');
                for (const x of s) { const c = setting('move.languageServerPath'); if (c && x.command !== c) sim.violate('C14', 'setting-ignored', `move.languageServerPath is ${c}, the server run is ${x.command}`); }
            }
        } else {
            if (!live(0)) act({ do: 'open', win: 0, folder: 0, file: 'move' });
            schedule(cs.burst);
            const f = w.folders[cs.last % w.folders.length];
            let t = cs.burst.reduce((x, a) => x + a.gap, 0) + new Rng(cs.seed + '/last').tail();
            sim.at(t, 'user', null, () => { act({ do: 'add', win: 0, folder: cs.last }); act({ do: 'focus', win: 0, folder: cs.last, file: 'toml' }); });
            t += new Rng(cs.seed + '/last2').tail();
            if (cs.last3 === 'create') { // the file is deleted and a new one put in its place
                sim.at(t, 'user', null, () => act({ do: 'delete', win: 0, folder: cs.last }));
                sim.at(t + new Rng(cs.seed + '/last3').tail(), 'user', null, () => act({ do: 'create', win: 0, folder: cs.last, among: cs.among }));
            } else sim.at(t, 'user', null, () => act({ do: 'save', win: 0, folder: cs.last, file: 'toml', valid: true, edit: true }));
            if (await drain('after the last save')) {
                const one = (g, why) => {
                    const win = live(0), s = win.servers(g);
                    if (s.length !== 1) sim.violate('C15', 'no-server', `${why}: ${s.length} servers run for ${g.path}; activation: ${win.activated}`);
                    else if (s[0].v !== g.v) sim.violate('C15', 'stale-options', `${why}: the server of ${g.path} was initialised from version ${s[0].v} of Dove.toml, the current one is ${g.v}`);
                    else if (s[0].client.st !== 'running') sim.violate('C15', 'no-server', `${why}: the server of ${g.path} is ${s[0].client.st}`);
                    if (win.providers.filter((x) => folderOf(x) === g.path && x.tasks.some((t) => /build/.test(t.name)) && x.tasks.some((t) => /test/.test(t.name))).length < 1) sim.violate('C15', 'no-provider', `${why}: no task provider for ${g.path}`);
                    if (!win.commands.has('move.reload')) sim.violate('C15', 'no-reload', `${why}: the reload command is not registered`);
                };
                one(f, 'after the last save');
                if (cs.other) { // no other file matters
                    const was = live(0).servers(f)[0], told = live(0).reported || 0;
                    act({ do: 'save', win: 0, folder: cs.last, file: cs.other });
                    await drain('after another save');
                    if (live(0).servers(f)[0] !== was) sim.violate('C15', 'server-lost', `after saving a file that is not Dove.toml (${cs.other}) another server runs for ${f.path}, or none`);
                    if ((live(0).reported || 0) !== told) sim.violate('C15', 'false-report', `after saving a file that is not Dove.toml (${cs.other}) the user is told ${live(0).messages.slice(-1)[0]}`);
                    one(f, 'after another save');
                }
                if (cs.spoil) { // a Dove.toml that does not parse is reported, the server stays
                    const was = live(0).servers(f)[0], told = live(0).reported || 0;
                    act({ do: 'save', win: 0, folder: cs.last, file: 'toml', valid: false, edit: true });
                    await drain('after an invalid save');
                    const is = live(0).servers(f);
                    if (was && (is.length !== 1 || is[0] !== was)) sim.violate('C15', 'server-lost', `after saving an invalid Dove.toml ${is.length ? 'another server runs' : 'no server runs'} for ${f.path}`);
                    if (is.length && (live(0).reported || 0) === told) sim.violate('C15', 'silent-failure', 'an invalid Dove.toml was saved and the user was told nothing');
                    else if (is.length && !live(0).messages.some((m) => m.includes('could not parse Dove.toml'))) sim.violate('C15', 'silent-failure', `an invalid Dove.toml was saved and the user was told ${JSON.stringify(live(0).messages.slice(-1)[0])}, not what dove says`);
                    if (cs.spoil2) { // reloading now finds no metadata: no server, and the user is told
                        const told = live(0).reported || 0;
                        act({ do: 'focus', win: 0, folder: cs.last, file: 'move' });
                        await drain('before the reload');
                        act({ do: 'reload', win: 0 });
                        await drain('reload with an invalid Dove.toml');
                        if (live(0).servers(f).length) sim.violate('C15', 'stale-options', `a server runs for ${f.path} after a reload although its Dove.toml is invalid`);
                        if ((live(0).reported || 0) === told) sim.violate('C15', 'silent-failure', 'the extension was reloaded with an invalid Dove.toml and the user was told nothing');
                    }
                    act({ do: 'save', win: 0, folder: cs.last, file: 'toml', valid: true, edit: true });
                    await drain('after the repair');
                    one(f, 'after the repair');
                }
                for (const g of w.folders) {
                    if (g === f) continue;
                    if (!(w.dove(g) || {}).valid || !g.open) continue;
                    act({ do: 'focus', win: 0, folder: w.folders.indexOf(g), file: 'move' });
                    if (await drain('after opening the other folder')) { if (live(0).servers(g).length !== 1) sim.violate('C15', 'no-server', `after opening a file of ${g.path}: ${live(0).servers(g).length} servers`); }
                }
                act({ do: 'deactivate', win: 0 });
                await drain('after deactivation');
            }
        }
    }
    return { sim, w, violations: sim.violations.filter((v) => v.prop === P) };
}
async function prepare(compiled) {
    const cs = make('C15', 1);
    Object.assign(cs, { rate: 0, calm: true, config: {}, installed: BINS, folders: [{ name: 'p0', toml: 'valid' }], platform: 'linux', explicit: {} });
    baseline = await run(cs, compiled, { baseline: true });
    return baseline;
}
module.exports = { make, run, prepare };
