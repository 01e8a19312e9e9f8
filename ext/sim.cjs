// The simulation kernel: one virtual clock, one event queue, keyed random choices.
'use strict';
function hash32(s, h = 0x811c9dc5) { for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193); } return h >>> 0; }
class Rng { // splitmix-like on 32 bits, seeded by text
    constructor(s) { this.a = hash32(s) | 1; this.b = hash32(s, 0x9e3779b9); }
    next() { this.b = (this.b + 0x9e3779b9) >>> 0; let z = this.b ^ this.a; z = Math.imul(z ^ (z >>> 16), 0x85ebca6b); z = Math.imul(z ^ (z >>> 13), 0xc2b2ae35); return (z ^ (z >>> 16)) >>> 0; }
    below(n) { return n <= 1 ? 0 : this.next() % n; }
    range(a, b) { return a + this.below(b - a + 1); }
    p(percent) { return this.next() % 10000 < percent * 100; }
    pick(a) { return a[this.below(a.length)]; }
    tail() { const k = this.below(100); return k < 55 ? this.range(1, 4) : k < 80 ? this.range(1, 40) : k < 96 ? this.range(1, 400) : this.range(1, 6000); }
}
const realImmediate = setImmediate;
class Sim {
    constructor(cs) {
        this.cs = cs; this.now = 0; this.seq = 0; this.q = []; this.steps = 0; this.trace = {}; this.counts = new Map();
        this.faultsOn = true; this.fired = {}; this.nfired = 0; this.log = []; this.h = 0; this.violations = []; this.keep = false; this.uncaught = []; this.max = 0;
    }
    key(owner, label) { const k = owner + '.' + label; const n = this.counts.get(k) || 0; this.counts.set(k, n + 1); return k + '#' + n; }
    // A decision: explicit in a replay (default where it is silent), drawn from the seed otherwise.
    choose(key, dflt, gen) {
        const e = this.cs.explicit;
        let v = e ? (key in e ? e[key] : dflt) : gen(new Rng(this.cs.seed + '/' + key));
        if (v !== dflt) this.trace[key] = v;
        return v;
    }
    fault(key, kinds) { // kinds: [[name, percent], ...] ; null = no fault
        if (!this.faultsOn) return null;
        const v = this.choose(key + '!', null, (r) => { for (const [n, p] of kinds) if (r.p(p * this.cs.rate)) return n; return null; });
        if (v) { const c = v.split(':')[0]; this.fired[c] = (this.fired[c] || 0) + 1; this.nfired++; this.say('fault ' + key + ' ' + v); }
        return v;
    }
    lat(key) { return this.choose(key + '~', 1, (r) => (this.cs.calm ? r.range(1, 3) : r.tail())); }
    // schedule fn; owner (if any) must still be alive for it to run
    at(delay, label, owner, fn) { const e = { t: this.now + delay, s: this.seq++, label, owner, fn }; let i = this.q.length; this.q.push(e); while (i > 0) { const p = (i - 1) >> 1; if (less(this.q[p], e)) break; this.q[i] = this.q[p]; i = p; } this.q[i] = e; return e; }
    pop() { const q = this.q, r = q[0], e = q.pop(); if (q.length) { let i = 0; for (;;) { let c = 2 * i + 1; if (c >= q.length) break; if (c + 1 < q.length && less(q[c + 1], q[c])) c++; if (less(e, q[c])) break; q[i] = q[c]; i = c; } q[i] = e; } return r; }
    say(s) { const line = this.now + ' ' + s; this.h = hash32(line, this.h ^ 0x811c9dc5); if (this.keep) this.log.push(line); }
    violate(prop, sig, msg) { if (!this.violations.some((v) => v.prop === prop && v.sig === sig)) { this.violations.push({ prop, sig, msg, now: this.now }); this.say('VIOLATION ' + prop + ' ' + sig + ': ' + msg); } }
    drain() { return new Promise((r) => realImmediate(r)); }
    async settle(check, limit = 20000) {
        let n = 0;
        await this.drain();
        check();
        while (this.q.length) {
            const e = this.pop();
            if (e.dead || (e.owner && !e.owner.alive)) continue;
            if (e.t > this.now) this.now = e.t;
            this.steps++;
            if (++n > limit) return false;
            this.say(e.label);
            try { e.fn(); } catch (x) { this.uncaught.push({ label: e.label, err: x }); this.say('uncaught ' + (x && x.message)); }
            await this.drain();
            check();
        }
        return true;
    }
}
function less(a, b) { return a.t < b.t || (a.t === b.t && a.s < b.s); }
module.exports = { Sim, Rng, hash32 };
