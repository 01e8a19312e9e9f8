'use strict';
const fs = require('fs'), path = require('path'), cp = require('child_process');
const { compile } = require('./load.cjs');
const { make, run, prepare } = require('./scenario.cjs');
const ROOT = process.env.VERIF_DIR || path.resolve(__dirname, '..');
const known = () => (fs.existsSync(ROOT + '/known_findings.jsonl') ? fs.readFileSync(ROOT + '/known_findings.jsonl', 'utf8').split('\n').flatMap((l) => { try { const k = JSON.parse(l); return k.property ? [k] : []; } catch (e) { return []; } }) : []);
let current = null;
process.on('unhandledRejection', (e) => { if (current) current.uncaught = (current.uncaught || 0) + 1; });
process.on('uncaughtException', (e) => { if (current) current.uncaught = (current.uncaught || 0) + 1; });
const clone = (x) => JSON.parse(JSON.stringify(x));
async function exec(cs, compiled, keep) { return run(clone(cs), compiled, { keep }); }

async function worker(prop, w, n, base, until, maxruns, out) {
    const compiled = compile(); await prepare(compiled);
    const ks = known().filter((k) => k.property === prop);
    const st = { runs: 0, clean: 0, steps: 0, simtime: 0, fired: {}, withFault: 0, counters: {}, hashes: [], nontrivial: 0, samples: [], known: {}, violation: null, replays: 0, diverged: 0, uncaught: 0, first: base + w, last: base + w };
    current = st;
    const t0 = Date.now(), hs = new Set();
    for (let i = w; i < maxruns && Date.now() < until; i += n) {
        if (fs.existsSync(out + '.stop')) break;
        const cs = make(prop, base + i);
        const r = await exec(cs, compiled);
        st.runs++; st.last = base + i; st.steps += r.sim.steps; st.simtime += r.sim.now;
        for (const k in r.sim.fired) st.fired[k] = (st.fired[k] || 0) + r.sim.fired[k];
        if (Object.keys(r.sim.fired).length) st.withFault++;
        for (const k in r.w.counters) st.counters[k] = (st.counters[k] || 0) + r.w.counters[k];
        const useful = prop === 'C14' ? r.w.counters.files_checked > 0 : r.w.counters.servers > 0;
        if (!hs.has(r.sim.h)) { hs.add(r.sim.h); if (useful) st.nontrivial++; }
        if (st.samples.length < 1 && useful) st.samples.push({ seed: cs.seed, platform: cs.platform, actions: cs.actions.map((a) => a.do), events: r.sim.steps, faults: r.sim.fired, counters: r.w.counters, hash: r.sim.h.toString(16) });
        if (st.runs % 64 === 1) { const again = await exec({ ...cs, explicit: r.sim.trace }, compiled); st.replays++; if (again.sim.h !== r.sim.h) st.diverged++; }
        const bad = r.violations.find((v) => { const k = ks.find((q) => q.signature === v.sig && (!q.contains || v.msg.includes(q.contains))); if (k) st.known[k.what] = (st.known[k.what] || 0) + 1; return !k; });
        if (bad) { st.violation = { cs, bad, trace: r.sim.trace }; fs.writeFileSync(out + '.stop', ''); break; }
        st.clean++;
    }
    st.wall = (Date.now() - t0) / 1000; st.distinct = hs.size; st.uncaughtTotal = st.uncaught;
    fs.writeFileSync(out + '.' + w, JSON.stringify(st));
}
async function minimise(v, compiled) {
    let best = { ...clone(v.cs), explicit: v.trace }, runs = 0;
    const until = Date.now() + 60000;
    const holds = async (c) => { if (runs++ > 3000 || Date.now() > until) return false; const r = await exec(c, compiled); return r.violations.some((x) => x.sig === v.bad.sig); };
    if (!(await holds(best))) return { cs: best, runs, minimal: false };
    const list = async (get, set) => { let n = 2; for (;;) { const a = get(best); if (!a.length) return; const size = Math.max(1, Math.ceil(a.length / n)); let cut = false; for (let i = 0; i < a.length; i += size) { const c = set(clone(best), a.filter((_, j) => j < i || j >= i + size)); if (await holds(c)) { best = c; cut = true; break; } } if (!cut) { if (size === 1) return; n = Math.min(a.length, n * 2); } else n = Math.max(2, n - 1); } };
    for (let round = 0; round < 2; round++) {
        await list((c) => c.actions, (c, a) => ({ ...c, actions: a }));
        await list((c) => c.burst, (c, a) => ({ ...c, burst: a }));
        await list((c) => Object.keys(c.explicit), (c, ks) => ({ ...c, explicit: Object.fromEntries(ks.map((k) => [k, c.explicit[k]])) }));
    }
    for (const c of [{ ...best, leftovers: false }, { ...best, token: null }, { ...best, calm: true }]) if (await holds(c)) best = c;
    return { cs: best, runs, minimal: true };
}
async function check(prop) {
    const t0 = Date.now();
    const seed = Number(process.env.VERIF_SEED || 1), tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
    const budget = Number(process.env.DSIM_SECONDS || (tier === 'thorough' ? 600 : 40)), jobs = Number(process.env.VERIF_JOBS || 8), maxruns = Number(process.env.DSIM_RUNS || 1e12), base = seed * 10000000;
    console.log(`property=${prop} tier=${tier} VERIF_SEED=${seed} seeds from ${base} budget=${budget}s workers=${jobs}`);
    const dir = fs.mkdtempSync('/tmp/extsim.'), out = dir + '/o';
    const until = Date.now() + budget * 1000;
    const codes = await Promise.all(Array.from({ length: jobs }, (_, w) => new Promise((ok) => { const p = cp.fork(__filename, ['worker', prop, w, jobs, base, until, maxruns, out], { stdio: 'inherit' }); p.on('exit', (c) => ok(c)); })));
    const sts = []; for (let w = 0; w < jobs; w++) if (fs.existsSync(out + '.' + w)) sts.push(JSON.parse(fs.readFileSync(out + '.' + w)));
    fs.rmSync(dir, { recursive: true });
    if (codes.some((c) => c !== 0) || sts.length !== jobs) { console.error('a worker of the simulator failed: ' + codes); return 3; }
    const sum = (f) => sts.reduce((a, s) => a + f(s), 0), merge = (f) => { const o = {}; for (const s of sts) for (const [k, v] of Object.entries(f(s))) o[k] = (o[k] || 0) + v; return o; };
    const wall = (Date.now() - t0) / 1000, kn = merge((s) => s.known), v = sts.map((s) => s.violation).find(Boolean);
    const ev = {
        property: prop, tier, seed, level: 'exploration', wall_s: wall,
        coverage: {
            evaluations: sum((s) => s.runs), distinct_nontrivial: sum((s) => s.nontrivial),
            rule: 'a run is one seeded scenario of user actions, faults and latencies; it counts as distinct and non-trivial when the hash of its event sequence differs from every other run of its worker and ' + (prop === 'C14' ? 'at least one installed binary was compared with the release' : 'at least one language server was started'),
            samples: sts.flatMap((s) => s.samples).slice(0, 4), simulated_runs: sum((s) => s.runs), runs_per_hour: Math.round((sum((s) => s.runs) / wall) * 3600), seeds: `${base} .. ${Math.max(...sts.map((s) => s.last))}`, seeds_per_hour: Math.round((sum((s) => s.runs) / wall) * 3600),
            simulated_time_s: Math.round(sum((s) => s.simtime) / 1000), simulated_events: sum((s) => s.steps), faults_injected: merge((s) => s.fired), runs_with_faults: sum((s) => s.withFault), window_kills_and_counters: merge((s) => s.counters),
            distinct_event_sequences: sum((s) => s.distinct), replays_checked: sum((s) => s.replays), replays_diverged: sum((s) => s.diverged), unhandled_rejections_in_extension: sum((s) => s.uncaughtTotal), known_findings_hit: kn,
            real_components: ['editors/code/src/**/*.ts (the whole extension, transpiled by tsc)', "node's stream, WriteStream, pipeline, path, util, assert, events"], stub_components: ['vscode API', 'node-fetch and the network', 'fs calls below WriteStream (simulated disk)', 'child_process and the dove executable', 'vscode-languageclient and the server process', 'clock, timers, randomness'],
        },
    };
    let rc = 0;
    for (const k of known().filter((x) => x.property === prop)) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
    if (v) {
        const compiled = compile(); await prepare(compiled); current = {};
        const m = await minimise(v, compiled);
        const r = await exec(m.cs, compiled, true);
        const fin = r.violations.find((x) => x.sig === v.bad.sig) || v.bad;
        fs.mkdirSync(ROOT + '/replays', { recursive: true });
        const file = `${ROOT}/replays/${prop}-${v.cs.seed}.json`;
        fs.writeFileSync(file, JSON.stringify({ engine: 'ext', case: m.cs, signature: fin.sig, message: fin.msg, hash: r.sim.h, minimised: m.minimal, trace: r.sim.log }, null, 1));
        ev.coverage.violation = { seed: v.cs.seed, signature: fin.sig, message: fin.msg, replay: file, minimisation_runs: m.runs, actions_left: m.cs.actions.length + m.cs.burst.length, choices_left: Object.keys(m.cs.explicit).length };
        console.log(`seed ${v.cs.seed}: ${fin.sig}: ${fin.msg}`);
        console.log(`VIOLATION property=${prop} replay=${file}`);
        rc = 1;
    } else console.log(`${prop}: held on ${ev.coverage.simulated_runs} simulated runs (${ev.coverage.distinct_event_sequences} distinct), ${ev.coverage.simulated_events} events, ${wall.toFixed(1)} s`);
    fs.mkdirSync(ROOT + '/evidence', { recursive: true });
    fs.writeFileSync(`${ROOT}/evidence/${prop}.json`, JSON.stringify(ev, null, 1));
    return rc;
}
async function replay(file, verbose) {
    const rp = JSON.parse(fs.readFileSync(file)), compiled = compile(); await prepare(compiled); current = {};
    const r = await exec(rp.case, compiled, true);
    if (verbose) for (const l of r.sim.log) console.log(l);
    const hit = r.violations.find((v) => v.sig === rp.signature);
    console.log(hit ? `reproduced: ${hit.sig}: ${hit.msg}` : 'not reproduced');
    console.log(r.sim.h === rp.hash ? 'trace identical' : 'trace DIFFERS');
    return hit ? 1 : 0;
}
async function survey(prop, a, b, verbose) {
    const compiled = compile(); const bl = await prepare(compiled); current = {};
    if (verbose) console.log('baseline', bl);
    const sigs = {}; const t = Date.now(); let steps = 0;
    for (let s = a; s < b; s++) { const r = await exec(make(prop, s), compiled, verbose); steps += r.sim.steps; if (verbose) { console.log(r.sim.log.join('\n')); console.log(r.w.counters, r.sim.fired, r.sim.uncaught); } for (const v of r.sim.violations) { const k = v.prop + ' ' + v.sig; (sigs[k] = sigs[k] || { n: 0, seeds: [], msg: v.msg }).n++; if (sigs[k].seeds.length < 5) sigs[k].seeds.push(s); } }
    console.log(`${b - a} runs ${steps} steps ${(Date.now() - t) / 1000}s`); for (const k in sigs) console.log(k, sigs[k].n, sigs[k].seeds.join(','), sigs[k].msg);
    return 0;
}
(async () => {
    const a = process.argv.slice(2);
    if (a[0] === 'worker') { await worker(a[1], +a[2], +a[3], +a[4], +a[5], +a[6], a[7]); process.exit(0); }
    let rc = 2;
    if (a[0] === 'check') rc = await check(a[1]);
    else if (a[0] === 'replay') rc = await replay(a[1], a.includes('-v'));
    else if (a[0] === 'survey') rc = await survey(a[1], +a[2], +a[3], a.includes('-v'));
    else console.error('usage: driver.cjs check C14|C15 | replay FILE [-v] | survey Cxx FROM TO [-v]');
    process.exit(rc);
})().catch((e) => { console.error(e); process.exit(3); });
