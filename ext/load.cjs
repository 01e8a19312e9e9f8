// Loads the extension's TypeScript sources from /repo and runs them as modules with injected globals and builtins.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm'), crypto = require('crypto');
const TS = process.env.VERIF_TS || '/opt/veriftools/node/node_modules/typescript';
const SRC = (process.env.VERIF_REPO || '/repo') + '/editors/code/src';

function walk(d, out = []) {
    for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
        const p = path.join(d, e.name);
        if (e.isDirectory()) walk(p, out);
        else if (/\.(ts|js|json)$/.test(e.name) && !e.name.endsWith('.d.ts')) out.push(p);
    }
    return out;
}
const NAMES = ['exports', 'require', 'module', '__filename', '__dirname', 'process', 'Date', 'Math', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'clearImmediate', 'console', 'fetch', 'crypto', 'performance'];

function compile() {
    const ts = require(TS);
    const mods = new Map();
    const h = crypto.createHash('sha256');
    for (const f of walk(SRC)) {
        const text = fs.readFileSync(f, 'utf8');
        h.update(f + '\0' + text + '\0');
        if (f.endsWith('.json')) { mods.set(f, { json: text }); continue; }
        let js = text;
        if (f.endsWith('.ts')) {
            const r = ts.transpileModule(text, { fileName: f, reportDiagnostics: true, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2019, strict: true } });
            const bad = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
            if (bad.length) throw new Error(`${f}: ${ts.flattenDiagnosticMessageText(bad[0].messageText, '\n')}`);
            js = r.outputText;
        }
        mods.set(f, { fn: vm.runInThisContext(`(function(${NAMES.join(',')}){return (function(){${js}\n}).call(this)})`, { filename: f }) });
    }
    return { mods, digest: h.digest('hex') };
}
// One instance of the extension: its own module objects over the given globals and builtins.
function instantiate(compiled, globals, builtin) {
    const cache = new Map();
    function load(file) {
        if (cache.has(file)) return cache.get(file).exports;
        const m = { exports: {} };
        cache.set(file, m);
        const c = compiled.mods.get(file);
        if (c.json !== undefined) { m.exports = JSON.parse(c.json); return m.exports; }
        const g = { ...globals, exports: m.exports, module: m, __filename: file, __dirname: path.dirname(file), require: (id) => req(file, id) };
        c.fn.apply(m.exports, NAMES.map((n) => g[n]));
        return m.exports;
    }
    function req(from, id) {
        if (id.startsWith('.')) {
            const base = path.resolve(path.dirname(from), id);
            for (const p of [base, base + '.ts', base + '.js', base + '.json', base + '/index.ts', base + '/index.js']) if (compiled.mods.has(p)) return load(p);
            throw new Error(`cannot find module ${id} from ${from}`);
        }
        return builtin(id.replace(/^node:/, ''));
    }
    return load(path.join(SRC, 'extension.ts'));
}
module.exports = { compile, instantiate, SRC };
