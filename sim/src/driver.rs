//! Search driver: seeded batches, minimisation, replay files, evidence.
use crate::case::*;
use crate::ffi::*;
use crate::oracle::*;
use crate::profile;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Replay { case: Case, signature: String, message: String, hash: u64, log_hash: u64, finish: String, trace: Vec<String> }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Known { property: String, signature: String, #[serde(default)] contains: String, what: String }

fn root() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }
fn known() -> Vec<Known> {
    std::fs::read_to_string(format!("{}/known_findings.jsonl", root())).unwrap_or_default().lines().filter_map(|l| serde_json::from_str::<Known>(l).ok()).collect()
}
fn is_known<'a>(ks: &'a [Known], prop: &str, sig: &str, msg: &str) -> Option<&'a Known> {
    ks.iter().find(|k| k.property == prop && k.signature == sig && (k.contains.is_empty() || msg.contains(&k.contains)))
}
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let verbose = a.iter().any(|x| x == "-v");
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2], verbose),
        Some("run") => {
            let sh = Shared::new();
            let case = profile::make(&a[2], a[3].parse().unwrap());
            one(&case, &sh, verbose)
        }
        Some("seeds") => { // seeds PROP FROM TO: one line per run, used by the determinism check
            let sh = Shared::new();
            let (f, t): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            for s in f..t { let o = run_case(&profile::make(&a[2], s), &sh, false); if std::env::var("DSIM_DUMP").is_ok() { std::fs::write(format!("/tmp/dump.{}.{}", std::process::id(), s), &o.raw_log).unwrap(); } println!("{} {} {:016x} {:016x} {:016x} {}", a[2], s, o.hash, fnv(&o.raw_log), fnv(o.err.as_bytes()), o.finish); }
            0
        }
        Some("case") => { println!("{}", serde_json::to_string_pretty(&profile::make(&a[2], a[3].parse().unwrap())).unwrap()); 0 }
        Some("survey") => survey(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("texts") => try_texts(a[2].parse().unwrap(), a[3].parse().unwrap()),
        _ => { eprintln!("usage: dsim check Cxx | replay FILE [-v] | run Cxx SEED [-v] | case Cxx SEED | seeds Cxx FROM TO | survey Cxx FROM TO"); 2 }
    }
}

fn one(case: &Case, sh: &Shared, verbose: bool) -> i32 {
    let o = run_case(case, sh, verbose);
    if verbose { print!("{}", o.ev); for l in &o.log { println!("{}", l); } println!("--- stderr\n{}", o.err); }
    let v = judge_forked(case, &o, sh);
    println!("{} hash={:016x} edges={} points={} switches={} preempts={} picks={} threads={} simtime={}us overflow={} fired={:?}", o.describe(), o.hash, o.edges, o.points, o.switches, o.preempts, o.picks.len(), o.nthreads, o.simtime / 1000, o.overflow, o.fired);
    println!("counters {:?}\nnotes {:?}", v.counters, v.notes);
    for x in &v.viols { println!("VIOL {} :: {}", profile::signature(x, &o.err), x.msg); }
    if v.viols.is_empty() { 0 } else { 1 }
}

/// Analyse generated texts outside any simulation (development aid: finds texts that the analysis cannot stand).
fn try_texts(f: u64, t: u64) -> i32 {
    crate::model::quiet_panics();
    for s in f..t {
        let mut r = crate::gen::Rng::new(s);
        let e = *r.pick(&[0usize, 30, 80]);
        let base = if r.p(50) { crate::gen::text(&mut r, 3, e, false) } else { String::new() };
        let x = crate::gen::hostile(&mut r, &base);
        if let Err(m) = crate::model::expected(&x, r.p(50)) { println!("seed {} {:?}: {}", s, x, m); }
    }
    0
}

/// Classify violations over a seed range (development aid).
fn survey(prop: &str, f: u64, t: u64) -> i32 {
    let n = jobs();
    let mut pids = vec![];
    for w in 0..n {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let sh = Shared::new();
            let mut out = String::new();
            for s in (f..t).filter(|s| s % n == w) {
                let case = profile::make(prop, s);
                let o = run_case(&case, &sh, false);
                let v = judge_forked(&case, &o, &sh);
                for x in v.viols.iter().take(1) { out += &format!("{} seed={} {}\n", profile::signature(x, &o.err), s, x.msg.chars().take(300).collect::<String>().replace('\n', "\\n")); }
                for x in &v.notes { out += &format!("note:{} seed={}\n", x, s); }
            }
            print!("{}", out);
            use std::io::Write;
            std::io::stdout().flush().unwrap();
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids { unsafe { libc::waitpid(p, std::ptr::null_mut(), 0); } }
    0
}
fn jobs() -> u64 { std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) }

#[derive(Serialize, Deserialize, Default, Clone)]
struct Stats {
    runs: u64, clean: u64, inconclusive: u64, wall_timeouts: u64,
    simtime_ns: u64, edges: u64, points: u64, switches: u64, preempts: u64, threads: u64, clock_jumps: u64,
    fired: Vec<u64>, fired_kind: Vec<u64>, configured: Vec<u64>, runs_with_fault: u64,
    finishes: BTreeMap<String, u64>, counters: BTreeMap<String, u64>, modes: BTreeMap<String, u64>,
    replays_checked: u64, replays_diverged: u64,
    hashes: Vec<u64>, nontrivial: Vec<u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violation: Option<(Case, String, String)>,
    first_seed: u64, last_seed: u64, wall_s: f64,
}

fn worker(prop: &str, w: u64, n: u64, base: u64, sh: &Shared, stop: *mut u32, until: Instant, maxruns: u64, ks: &[Known]) -> Stats {
    let t0 = Instant::now();
    let mut st = Stats { fired: vec![0; 17], fired_kind: vec![0; 8], configured: vec![0; 17], first_seed: base + w, ..Default::default() };
    let mut hashes = HashSet::new();
    let mut nontrivial = HashSet::new();
    let mut i = w;
    while i < maxruns && Instant::now() < until && unsafe { std::ptr::read_volatile(stop) } == 0 {
        let seed = base + i;
        i += n;
        let case = profile::make(prop, seed);
        let o = run_case(&case, sh, false);
        let v = judge_forked(&case, &o, sh);
        st.runs += 1;
        st.last_seed = seed;
        st.simtime_ns += o.simtime; st.edges += o.edges; st.points += o.points; st.switches += o.switches; st.preempts += o.preempts; st.threads += o.nthreads; st.clock_jumps += o.idle_jumps;
        for k in 0..16 { st.fired[k] += o.fired[k]; }
        for k in 0..8 { st.fired_kind[k] += o.fired_kind[k]; }
        for f in &case.faults { st.configured[f.cls as usize & 15] += 1; }
        if o.fired.iter().any(|x| *x > 0) { st.runs_with_fault += 1; }
        *st.finishes.entry(match o.finish { FIN_EXIT => "exit", FIN_DEADLOCK => "idle", FIN_HANG => "hang", FIN_BUDGET => "budget", FIN_ABORT => "abort", FIN_OOM => "oom", _ => "other" }.into()).or_default() += 1;
        *st.modes.entry(format!("{}{}", if case.sched.mode == 1 { "pct" } else { "random" }, if case.sched.edge_gap > 0 { "+preempt" } else { "" })).or_default() += 1;
        hashes.insert(o.hash);
        let mut useful = false;
        for (k, c) in &v.counters { *st.counters.entry(k.clone()).or_default() += c; if *c > 0 && MAINC.contains(&k.as_str()) { useful = true; } }
        if useful { nontrivial.insert(o.hash); }
        if o.wall_timeout { st.wall_timeouts += 1; }
        if !v.notes.is_empty() { st.inconclusive += 1; }
        if st.samples.len() < 2 && useful { st.samples.push(json!({"seed": seed, "hash": format!("{:016x}", o.hash), "finish": o.describe(), "counters": v.counters, "ops": n_ops(&case), "faults": case.faults.len(), "switches": o.switches})); }
        let mut bad = None;
        for x in &v.viols {
            let sig = profile::signature(x, &o.err);
            match is_known(ks, prop, &sig, &x.msg) { Some(k) => { *st.known.entry(k.what.clone()).or_default() += 1; } None => { if bad.is_none() { bad = Some((sig, x.msg.clone())); } } }
        }
        if let Some((sig, msg)) = bad {
            if unsafe { (*(stop as *const std::sync::atomic::AtomicU32)).swap(1, std::sync::atomic::Ordering::SeqCst) } == 0 { st.violation = Some((case, sig, msg)); }
            break;
        }
        if v.viols.is_empty() { st.clean += 1; }
        // every 64th run is executed again from its recorded schedule and must come out identical
        if st.runs % 64 == 1 && o.overflow == 0 && !o.wall_timeout {
            let o2 = run_case(&explicit(&case, &o), sh, false);
            st.replays_checked += 1;
            if o2.hash != o.hash || o2.raw_log != o.raw_log { st.replays_diverged += 1; }
        }
    }
    st.hashes = hashes.into_iter().collect();
    st.nontrivial = nontrivial.into_iter().collect();
    st.wall_s = t0.elapsed().as_secs_f64();
    st
}
const MAINC: &[&str] = &["publications_checked_against_version", "documents_compared", "responses", "ends", "queries_answered", "bytes_streamed", "texts_analysed", "rounds", "discoveries", "edits_measured", "log_lines"];

/// A session of equal rounds: where they begin, and how many operations each has. Minimisation treats them all alike.
fn rounds(c: &Case) -> Option<(usize, usize)> {
    let World::Server(s) = &c.world else { return None };
    if c.property != "C19" { return None; }
    let m: Vec<usize> = s.ops.iter().enumerate().filter(|x| *x.1 == Op::Mark).map(|x| x.0).collect();
    if m.len() < 2 { return None; }
    let l = m[1] - m[0];
    if m.windows(2).any(|w| w[1] - w[0] != l) || m[0] + 1 < l { return None; }
    Some((m[0] + 1 - l, l))
}
fn n_ops(c: &Case) -> usize { if let Some((_, l)) = rounds(c) { return l.saturating_sub(2); } match &c.world { World::Server(s) => s.ops.len(), World::Analysis(a) => a.steps.len(), World::Stream(s) => s.script.len(), World::Discover(d) => d.threads.iter().map(|t| t.len()).sum::<usize>() + d.events.len() + d.fs.len() } }
fn explicit(c: &Case, o: &Outcome) -> Case {
    let mut c = c.clone();
    c.sched.explicit = Some(Explicit { picks: o.picks.clone(), preempts: o.pres.clone() });
    c
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    if !profile::ALL.contains(&prop) { eprintln!("unknown property {}", prop); return 2; }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "quick" || t == "thorough").unwrap_or("quick".into());
    let budget: u64 = std::env::var("DSIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 60 });
    let maxruns: u64 = std::env::var("DSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let n = jobs();
    let base = seed.wrapping_mul(10_000_000);
    println!("property={} tier={} VERIF_SEED={} seeds from {} budget={}s workers={}", prop, tier, seed, base, budget, n);
    let ks = known();
    let shs: Vec<Shared> = (0..n).map(|_| Shared::new()).collect();
    let stop = map_shared(4096) as *mut u32;
    let until = t0 + Duration::from_secs(budget);
    let dir = format!("/tmp/dsim.{}.{}", prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut pids = vec![];
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    for w in 0..n {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            let st = worker(prop, w, n, base, &shs[w as usize], stop, until, maxruns, &ks);
            std::fs::write(format!("{}/{}", dir, w), serde_json::to_vec(&st).unwrap()).unwrap();
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids { unsafe { while libc::waitpid(p, std::ptr::null_mut(), 0) != p {} } }
    let mut all: Vec<Stats> = vec![];
    for w in 0..n {
        match std::fs::read(format!("{}/{}", dir, w)).ok().and_then(|b| serde_json::from_slice(&b).ok()) { Some(s) => all.push(s), None => { eprintln!("worker {} produced no result", w); let _ = std::fs::remove_dir_all(&dir); return 3; } }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let search_wall = t0.elapsed().as_secs_f64();
    let mut cov = vec![false; COV];
    for sh in &shs { for i in 0..COV { if unsafe { *sh.cov.add(i) } != 0 { cov[i] = true; } } }
    let edges_hit = cov.iter().filter(|x| **x).count();
    let viol = all.iter().find_map(|s| s.violation.clone());
    let mut code = 0;
    let mut vj = Value::Null;
    if let Some((case, sig, msg)) = viol {
        println!("seed {} violates {}: {} :: {}", case.seed, prop, sig, msg);
        match report(prop, &case, &sig, &shs[0]) {
            Ok((path, r)) => { println!("{}", r.message); println!("VIOLATION property={} replay={}", prop, path); vj = json!({"seed": case.seed, "signature": sig, "message": r.message, "replay": path}); code = 1; }
            Err(e) => { eprintln!("harness error: {}", e); code = 3; }
        }
    }
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for s in &all { for (k, c) in &s.known { *known_hits.entry(k.clone()).or_default() += c; } }
    for k in ks.iter().filter(|k| k.property == prop) { println!("KNOWN-FINDING: property={} {}", prop, k.what); }
    evidence(prop, &tier, seed, &all, search_wall, t0.elapsed().as_secs_f64(), edges_hit, vj, &known_hits, code);
    code
}

fn report(prop: &str, case: &Case, sig: &str, sh: &Shared) -> Result<(String, Replay), String> {
    let o = run_case(case, sh, false);
    if !has(case, &o, sh, sig).is_some() { return Err(format!("seed {} does not reproduce {}", case.seed, sig)); }
    let limit = Instant::now() + Duration::from_secs(std::env::var("DSIM_MIN_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let start = if o.overflow == 0 { let e = explicit(case, &o); let oe = run_case(&e, sh, false); if has(&e, &oe, sh, sig).is_some() { e } else { case.clone() } } else { case.clone() };
    let best = minimise(start, sig, sh, limit);
    let o = run_case(&best, sh, true);
    let msg = has(&best, &o, sh, sig).ok_or("the minimised case does not reproduce")?;
    let mut trace: Vec<String> = o.ev.lines().map(String::from).collect();
    if trace.len() > 400 { let k = trace.len(); trace = trace[..200].iter().chain([format!("... {} events ...", k - 400)].iter()).chain(trace[k - 200..].iter()).cloned().collect(); }
    let r = Replay { case: best, signature: sig.into(), message: format!("{}: {}", sig, msg), hash: o.hash, log_hash: fnv(&o.raw_log), finish: o.describe(), trace };
    let d = format!("{}/replays", root());
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let path = format!("{}/{}-{}.json", d, prop, case.seed);
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
    // a fresh process must reproduce it exactly
    let s = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).stdout(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
    if s.code() != Some(1) { return Err(format!("replaying {} in a fresh process did not reproduce it (status {:?})", path, s.code())); }
    Ok((path, r))
}
fn has(c: &Case, o: &Outcome, sh: &Shared, sig: &str) -> Option<String> {
    let v = judge_forked(c, o, sh);
    v.viols.iter().find(|x| profile::signature(x, &o.err) == sig).map(|x| x.msg.clone())
}
fn replay(path: &str, verbose: bool) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) { Ok(r) => r, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let sh = Shared::new();
    let o = run_case(&r.case, &sh, verbose);
    if verbose { print!("{}", o.ev); for l in &o.log { println!("{}", l); } println!("--- stderr\n{}", o.err); }
    let same = o.hash == r.hash && fnv(&o.raw_log) == r.log_hash;
    println!("{} execution {}", o.describe(), if same { "identical to the recorded one" } else { "DIFFERS from the recorded one (different code?)" });
    match has(&r.case, &o, &sh, &r.signature) {
        Some(m) => { println!("{}: {}", r.signature, m); println!("VIOLATION property={} replay={}", r.case.property, path); 1 }
        None => { println!("not reproduced: {}", r.signature); 0 }
    }
}

// ---------------------------------------------------------------- minimisation
fn minimise(start: Case, sig: &str, sh: &Shared, limit: Instant) -> Case {
    let mut best = start;
    let late = || Instant::now() > limit;
    // try a candidate under its explicit schedule, and under a few fresh random ones
    let attempt = |c: &Case, fresh: u64| -> Option<Case> {
        if late() { return None; }
        let o = run_case(c, sh, false);
        if has(c, &o, sh, sig).is_some() { return Some(if o.overflow == 0 && c.sched.explicit.is_none() { explicit(c, &o) } else { c.clone() }); }
        for k in 0..fresh {
            if late() { return None; }
            let mut d = c.clone();
            d.sched.explicit = None;
            d.sched.seed = c.sched.seed.wrapping_add(k + 1);
            let o = run_case(&d, sh, false);
            if o.overflow == 0 && has(&d, &o, sh, sig).is_some() { let e = explicit(&d, &o); let oe = run_case(&e, sh, false); if has(&e, &oe, sh, sig).is_some() { return Some(e); } }
        }
        None
    };
    // the plain schedule first
    let mut c = best.clone();
    c.sched.explicit = Some(Explicit::default());
    c.sched.n_cpus = 1;
    if let Some(c) = attempt(&c, 0) { best = c; }
    for round in 0..3 {
        let before = size(&best);
        // operations
        let mut chunk = (n_ops(&best) / 2).max(1);
        loop {
            let mut i = 0;
            while i < n_ops(&best) {
                let mut c = best.clone();
                if !drop_ops(&mut c, i, chunk) { i += chunk; continue; }
                match attempt(&c, if chunk <= 4 { 4 } else { 2 }) { Some(c) => best = c, None => i += chunk }
                if late() { return best; }
            }
            if chunk == 1 { break; }
            chunk /= 2;
        }
        // faults
        let mut i = 0;
        while i < best.faults.len() { let mut c = best.clone(); c.faults.remove(i); match attempt(&c, 1) { Some(c) => best = c, None => i += 1 } }
        // texts, environment, file system
        if round == 0 { simplify(&mut best, &attempt); }
        // schedule
        if let Some(e) = best.sched.explicit.clone() {
            let mut c = best.clone();
            c.sched.explicit = Some(Explicit::default());
            if let Some(c) = attempt(&c, 0) { best = c; } else {
                let mut chunk = (e.picks.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.sched.explicit.as_ref().map_or(0, |e| e.picks.len()) {
                        let mut c = best.clone();
                        let p = &mut c.sched.explicit.as_mut().unwrap().picks;
                        let j = (i + chunk).min(p.len());
                        p.drain(i..j);
                        match attempt(&c, 0) { Some(c) => best = c, None => i += chunk }
                        if late() { return best; }
                    }
                    if chunk == 1 { break; }
                    chunk /= 2;
                }
                let mut chunk = (e.preempts.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.sched.explicit.as_ref().map_or(0, |e| e.preempts.len()) {
                        let mut c = best.clone();
                        let p = &mut c.sched.explicit.as_mut().unwrap().preempts;
                        let j = (i + chunk).min(p.len());
                        p.drain(i..j);
                        match attempt(&c, 0) { Some(c) => best = c, None => i += chunk }
                        if late() { return best; }
                    }
                    if chunk == 1 { break; }
                    chunk /= 2;
                }
            }
        }
        if size(&best) >= before || late() { break; }
    }
    best
}
fn size(c: &Case) -> usize { serde_json::to_vec(c).unwrap().len() }
fn drop_ops(c: &mut Case, i: usize, n: usize) -> bool {
    if let (Some((from, l)), World::Server(s)) = (rounds(c), &mut c.world) {
        let mut k = 0;
        s.ops.retain(|_| { let at = k; k += 1; at < from || { let p = (at - from) % l; p < i || p >= (i + n).min(l - 2) } });
        return true;
    }
    match &mut c.world {
        World::Server(s) => { let j = (i + n).min(s.ops.len()); let keep: Vec<Op> = s.ops.iter().enumerate().filter(|(k, op)| *k < i || *k >= j || (matches!(op, Op::Init { .. } | Op::Initialized) && n > 1)).map(|x| x.1.clone()).collect(); let ch = keep.len() < s.ops.len(); s.ops = keep; ch }
        World::Analysis(a) => { let j = (i + n).min(a.steps.len()); a.steps.drain(i..j); true }
        World::Stream(s) => { let j = (i + n).min(s.script.len()); s.script.drain(i..j); true }
        World::Discover(d) => {
            let mut k = 0;
            let mut gone = false;
            let mut keep = || { let drop = k >= i && k < i + n; k += 1; gone |= drop; !drop };
            for t in &mut d.threads { t.retain(|_| keep()); }
            d.events.retain(|_| keep());
            let mut lost: Vec<String> = vec![];
            // a directory goes with everything in it
            d.fs.retain(|x| { let p = x.path.clone(); if keep() && !lost.iter().any(|l| p.starts_with(l)) { true } else { lost.push(format!("{}/", p)); false } });
            gone
        }
    }
}
fn texts(c: &mut Case) -> Vec<&mut String> {
    let mut v = vec![];
    match &mut c.world {
        World::Server(s) => for op in &mut s.ops { match op { Op::Open { text, .. } => v.push(text), Op::Change { edits, .. } => for e in edits { v.push(&mut e.text) }, _ => {} } },
        World::Analysis(a) => { for t in &mut a.initial { v.push(t) } for s in &mut a.steps { if let AStep::Apply { changes, .. } = s { for (_, t) in changes { if let Some(t) = t { v.push(t) } } } } }
        World::Stream(_) | World::Discover(_) => {}
    }
    v
}
fn simplify(best: &mut Case, attempt: &dyn Fn(&Case, u64) -> Option<Case>) {
    if let World::Server(s) = &best.world {
        let s = s.clone();
        let mut vs: Vec<ServerCase> = vec![];
        let mut t = s.clone(); t.fs.clear(); vs.push(t);
        let mut t = s.clone(); t.env.clear(); vs.push(t);
        let mut t = s.clone(); t.send_chunks.clear(); t.recv_chunk = 1 << 20; t.stdin_cap = 65536; t.stdout_cap = 65536; vs.push(t);
        for v in vs { let mut c = best.clone(); if let World::Server(cur) = &mut c.world { let ops = cur.ops.clone(); let keep = cur.clone(); *cur = v.clone(); cur.ops = ops; if cur.fs.len() == s.fs.len() { cur.fs = keep.fs; } if cur.env.len() == s.env.len() { cur.env = keep.env; } } if let Some(c) = attempt(&c, 1) { *best = c; } }
    }
    let n = texts(best).len();
    // in a session of equal rounds the text at one place is the same in all of them
    let every = match rounds(best) { Some((from, l)) => { let World::Server(s) = &best.world else { return }; let r = (s.ops.len() - from) / l; if n == 0 || n % r != 0 { return; } n / r } None => n };
    for k in 0..every {
        let full = texts(best)[k].clone();
        // by line, then by character when short
        let mut parts: Vec<String> = full.split_inclusive('\n').map(String::from).collect();
        for pass in 0..2 {
            if pass == 1 { let cur = texts(best)[k].clone(); if cur.len() > 400 { break; } parts = cur.chars().map(String::from).collect(); }
            let mut chunk = (parts.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < parts.len() {
                    let mut p = parts.clone();
                    let j = (i + chunk).min(p.len());
                    p.drain(i..j);
                    let mut c = best.clone();
                    for (x, t) in texts(&mut c).into_iter().enumerate() { if x % every == k { *t = p.concat(); } }
                    match attempt(&c, 0) { Some(c) => { *best = c; parts = p; } None => i += chunk }
                }
                if chunk == 1 { break; }
                chunk /= 2;
            }
        }
    }
}

// ---------------------------------------------------------------- evidence
fn evidence(prop: &str, tier: &str, seed: u64, all: &[Stats], search: f64, wall: f64, edges_hit: usize, viol: Value, known: &BTreeMap<String, u64>, code: i32) {
    let sum = |f: &dyn Fn(&Stats) -> u64| all.iter().map(f).sum::<u64>();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut nt: HashSet<u64> = HashSet::new();
    let mut fin: BTreeMap<String, u64> = BTreeMap::new();
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut modes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for s in all {
        hs.extend(&s.hashes);
        nt.extend(&s.nontrivial);
        for (k, c) in &s.finishes { *fin.entry(k.clone()).or_default() += c; }
        for (k, c) in &s.counters { *cnt.entry(k.clone()).or_default() += c; }
        for (k, c) in &s.modes { *modes.entry(k.clone()).or_default() += c; }
        samples.extend(s.samples.iter().cloned());
    }
    samples.truncate(6);
    let runs = sum(&|s| s.runs);
    let faults: BTreeMap<&str, Value> = (0..17).filter(|k| all.iter().any(|s| s.configured[*k] > 0)).map(|k| (FC_NAMES[k], json!({"configured": sum(&|s| s.configured[k]), "fired": sum(&|s| s.fired[k])}))).collect();
    let kinds: BTreeMap<&str, u64> = (1..6).map(|k| (FK_NAMES[k], sum(&|s| s.fired_kind[k]))).collect();
    let real = match prop {
        "C12" => "real: stdx::process::streaming_output, std::process, std I/O; simulated: the child process, its pipes, poll, waitpid, spawn",
        "C20" => "real: project_model (discovery and loading of manifests), paths, toml, std::fs; simulated: threads' scheduling, the file system and what changes it meanwhile; harness: the calling threads",
        "C09" => "real: ide::AnalysisHost/Analysis, ide_db, base_db, salsa, parking_lot, crossbeam, parser, syntax; simulated: threads' scheduling, futexes, clock; harness: writer and reader thread bodies",
        _ => "real: the server binary's main with every crate below it (lsp-server, crossbeam, threadpool, salsa, parking_lot, project_model, ide, parser, std); simulated: thread scheduling, futexes, clocks, stdin/stdout/stderr pipes, file system, randomness, CPU count; stub: the LSP client",
    };
    let e = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": wall,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nt.len(),
            "rule": "a run counts as distinct and non-trivial when its oracle compared at least one observation and its schedule hash (every context switch, blocking, client turn, fault and timer) differs from every other run's",
            "samples": samples,
            "simulated_runs": runs,
            "runs_per_hour": (runs as f64 / search * 3600.0) as u64,
            "seeds": {"from": all.iter().map(|s| s.first_seed).min(), "to": all.iter().map(|s| s.last_seed).max(), "per_hour": (runs as f64 / search * 3600.0) as u64},
            "simulated_seconds": sum(&|s| s.simtime_ns) as f64 / 1e9,
            "distinct_interleavings": hs.len(),
            "scheduling_points": sum(&|s| s.points), "context_switches": sum(&|s| s.switches), "preemptions_inside_code": sum(&|s| s.preempts), "code_edges_executed": sum(&|s| s.edges),
            "threads_simulated": sum(&|s| s.threads), "timer_jumps": sum(&|s| s.clock_jumps),
            "coverage_edges_reached": edges_hit, "coverage_edges_total": unsafe { sim_nguards() },
            "schedulers": modes,
            "faults": {"runs_with_faults": sum(&|s| s.runs_with_fault), "by_place": faults, "by_kind_fired": kinds},
            "outcomes": fin, "oracle": cnt,
            "clean_runs": sum(&|s| s.clean), "inconclusive_runs": sum(&|s| s.inconclusive), "wall_timeouts": sum(&|s| s.wall_timeouts),
            "replay_determinism": {"checked": sum(&|s| s.replays_checked), "diverged": sum(&|s| s.replays_diverged)},
            "components": real,
            "known_findings_hit": known,
            "violation": viol,
        },
        "exit": code,
    });
    let d = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{}/{}.json", d, prop), serde_json::to_string_pretty(&e).unwrap()).unwrap();
    println!("{} runs ({} per hour), {} distinct interleavings, {} non-trivial, {:.1} simulated s, {} clean, {} inconclusive, replay {}/{} identical, {:.1}s", runs, (runs as f64 / search * 3600.0) as u64, hs.len(), nt.len(), sum(&|s| s.simtime_ns) as f64 / 1e9, sum(&|s| s.clean), sum(&|s| s.inconclusive), sum(&|s| s.replays_checked - s.replays_diverged), sum(&|s| s.replays_checked), wall);
}
