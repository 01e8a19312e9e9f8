//! Judges a recorded run against the reference models. Runs in its own forked process.
use crate::case::*;
use crate::client::message;
use crate::ffi::*;
use crate::model::*;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol { pub kind: String, pub msg: String }
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Verdict { pub viols: Vec<Viol>, pub notes: Vec<String>, pub counters: Vec<(String, u64)>, pub done: bool }

fn short(v: &Value) -> String { let s = v.to_string(); if s.len() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s } }
/// First panic message in stderr, location first.
pub fn panic_line(err: &str) -> Option<String> {
    let i = err.find("panicked at ")?;
    let rest = &err[i + 12..];
    let loc = rest.lines().next().unwrap_or("").trim_end_matches(':').to_string();
    let m = rest.lines().nth(1).unwrap_or("").to_string();
    let th = err[..i].rsplit("thread '").next().unwrap_or("").split('\'').next().unwrap_or("").to_string();
    Some(format!("thread {} at {}: {}", th, loc, m))
}
pub fn panic_loc(err: &str) -> String {
    let Some(i) = err.find("panicked at ") else { return String::new() };
    let loc = err[i + 12..].lines().next().unwrap_or("").trim_end_matches(':').to_string();
    let loc = loc.split("crates/").last().unwrap_or(&loc).to_string();
    loc.rsplitn(2, ':').last().unwrap_or("").to_string()
}

struct V { v: Verdict }
impl V {
    fn bad(&mut self, kind: &str, msg: String) { if self.v.viols.len() < 8 { self.v.viols.push(Viol { kind: kind.into(), msg }) } }
    fn count(&mut self, k: &str, n: u64) { self.v.counters.push((k.into(), n)) }
}

pub fn judge(case: &Case, o: &Outcome) -> Verdict {
    let mut v = V { v: Verdict::default() };
    if o.wall_timeout || o.overflow >= 2 { v.v.notes.push("inconclusive".into()); v.v.done = true; return v.v; }
    match &case.world {
        World::Server(c) => server(&case.property, case.seed, c, o, &mut v, case.faults.iter().any(|f| f.cls <= 1 && f.kind == 2 && f.arg != crate::gen::EINTR && o.fired[f.cls as usize] > 0), case.faults.is_empty() && case.sched.edge_gap == 0 && case.sched.p_switch <= 500 && case.sched.starve_id < 0 && case.sched.mode == 0),
        World::Analysis(c) => analysis(c, o, &mut v),
        World::Stream(c) => stream(case, c, o, &mut v),
        World::Discover(c) => discover(c, o, &mut v),
    }
    v.v.done = true;
    v.v
}

pub fn judge_forked(case: &Case, o: &Outcome, sh: &Shared) -> Verdict {
    unsafe {
        std::ptr::write_bytes(sh.verdict, 0, 16);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::alarm(120);
            quiet_panics();
            sim_ref_budget(3_000_000_000);
            let v = judge(case, o);
            let b = serde_json::to_vec(&v).unwrap();
            let n = b.len().min(VERDICT - 16);
            std::ptr::copy_nonoverlapping(b.as_ptr(), sh.verdict.add(8), n);
            *(sh.verdict as *mut u64) = n as u64;
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        let n = *(sh.verdict as *const u64) as usize;
        if n > 0 { return serde_json::from_slice(std::slice::from_raw_parts(sh.verdict.add(8), n)).unwrap_or_default(); }
        let mut v = Verdict::default();
        v.done = true;
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) };
        // The from-scratch analysis itself did not come back for one of the texts.
        if case.property == "C13" && (code == 77 || (code < 0 && code != -libc::SIGALRM && code != -libc::SIGKILL)) {
            v.viols.push(Viol { kind: if code == 77 { "text-hang".into() } else { "text-crash".into() }, msg: format!("analysing one of the texts from scratch ended with {}", if code == 77 { "its step budget exhausted".into() } else { format!("signal {}", -code) }) });
        } else { v.notes.push(format!("inconclusive: reference analysis ended with {}", code)); }
        v
    }
}

fn op_sends(c: &ServerCase, op: &Op) -> Option<Value> {
    match op { Op::Body { text } => serde_json::from_str(text).ok(), Op::Partial { .. } => None, _ => message(c, op) }
}

/// `io_broken`: a stream to the client failed with an I/O error during the run.
fn server(prop: &str, seed: u64, c: &ServerCase, o: &Outcome, v: &mut V, io_broken: bool, calm: bool) {
    let log = &o.log;
    let ended_by_client = c.ops.iter().any(|op| matches!(op, Op::Exit | Op::Eof | Op::CloseOut | Op::Partial { .. })) || c.ops.iter().any(|op| op_sends(c, op).map_or(false, |m| m["method"] == "exit" && m.get("id").is_none()));
    // ---- how the run ended
    let panic = panic_line(&o.err);
    let worker_panic = panic.is_some() && !panic.as_deref().unwrap_or("").starts_with("thread main ");
    let mut died = None;
    if o.signal != 0 { died = Some(("crash", format!("killed by signal {}", o.signal))); }
    else if o.finish == FIN_ABORT { died = Some(("crash", format!("aborted: {}", o.err.lines().last().unwrap_or("")))); }
    else if o.finish == FIN_HANG { died = Some(("hang", format!("{} {}", o.msg, o.states))); }
    else if o.finish == FIN_OOM { died = Some(("oom", o.msg.clone())); }
    else if o.finish == FIN_BUDGET { died = Some(("livelock", format!("{} {}", o.msg, o.states))); }
    else if o.finish == FIN_EXIT && !ended_by_client { died = Some(("died", format!("the server exited with status {} though the client neither sent exit nor closed a stream: {}", o.code, panic.clone().unwrap_or_else(|| o.err.lines().last().unwrap_or("").into())))); }
    if let Some(l) = log.iter().find(|l| l["t"] == "B") { v.bad("bad-output", format!("the server's output is not a sequence of LSP messages: {}", short(l))); }
    if let Some(f) = log.iter().find(|l| l["t"] == "F") {
        let lost_out = c.ops.iter().any(|op| matches!(op, Op::CloseOut));
        let io_fault = io_broken && prop == "C06";
        // ending the input without shutdown makes the server leave with an error status at once, possibly in the middle of a message
        let in_order = !matches!(prop, "C06" | "C22") || o.finish != FIN_EXIT || o.code == 0;
        if f["rest"].as_u64() > Some(0) && !lost_out && died.is_none() && !io_fault && in_order { v.bad("torn-output", format!("the output ends in the middle of a message ({} bytes)", f["rest"])); }
    }
    if prop == "C06" { return end_of_session(c, o, v, died, &panic, io_broken); }
    if let Some((k, m)) = &died { v.bad(k, m.clone()); }
    if worker_panic && matches!(prop, "C13" | "C07" | "C05" | "C11") { v.bad("worker-panic", panic.clone().unwrap()); }

    if prop == "C19" { return steady(log, calm, v); }
    if prop == "C21" { return apart(c, log, v); }
    if prop == "C22" { return records(c, o, v); }

    // ---- requests and responses
    let mut sent: Vec<(Value, String, bool, usize)> = vec![]; // id, method, after shutdown, log index
    let (mut down, mut inited) = (false, false);
    let mut cancelled: Vec<(Value, usize)> = vec![];
    let mut exit_sent = false;
    for (li, l) in log.iter().enumerate() {
        let started = l["t"] == "S";
        if !started { continue; }
        let Some(i) = l["i"].as_u64() else { continue };
        let op = &c.ops[i as usize];
        let Some(m) = op_sends(c, op) else { continue };
        if exit_sent { continue; }
        match (m.get("id"), m["method"].as_str()) {
            (Some(id), Some(me)) => { sent.push((id.clone(), me.into(), down, li)); if me == "shutdown" && inited { down = true; } if me == "initialize" { inited = true; } }
            (None, Some("$/cancelRequest")) => cancelled.push((m["params"]["id"].clone(), li)),
            (None, Some("exit")) => exit_sent = true,
            _ => {}
        }
    }
    let started_ids: Vec<Value> = log.iter().filter(|l| l["t"] == "s").filter_map(|l| op_sends(c, &c.ops[l["i"].as_u64()? as usize])?.get("id").cloned()).collect();
    let resp: Vec<(usize, &Value)> = log.iter().enumerate().filter(|(_, l)| l["t"] == "R" && l["m"].get("method").is_none()).map(|(i, l)| (i, &l["m"])).collect();
    let reqs_from_server: Vec<(usize, &Value)> = log.iter().enumerate().filter(|(_, l)| l["t"] == "R" && l["m"].get("method").is_some() && l["m"].get("id").is_some()).map(|(i, l)| (i, &l["m"])).collect();
    v.count("requests", sent.len() as u64);
    v.count("responses", resp.len() as u64);
    if matches!(prop, "C04" | "C05" | "C07" | "C10" | "C11") {
        let strict_content = matches!(prop, "C04" | "C10" | "C11");
        let mut used = vec![false; sent.len()];
        for (li, m) in &resp {
            // responses come in the order the requests were processed, so the first unanswered one with this id is meant
            let hit = sent.iter().enumerate().find(|(k, s)| !used[*k] && s.0 == m["id"]);
            match hit {
                None => {
                    if started_ids.iter().filter(|x| **x == m["id"]).count() > sent.iter().filter(|s| s.0 == m["id"]).count() { continue; }
                    v.bad("stray-response", format!("a response for an id that is not outstanding: {}", short(m)));
                }
                Some((k, s)) => {
                    used[k] = true;
                    if *li < s.3 && false { v.bad("early-response", short(m)); }
                    if !strict_content { continue; }
                    let code = m["error"]["code"].as_i64();
                    let was_cancelled = cancelled.iter().any(|x| x.0 == s.0 && x.1 > s.3);
                    let ok = if s.1 == "initialize" && k == first_init(&sent) { m.get("result").is_some() && m.get("error").is_none() }
                        else if k < first_init(&sent) { code == Some(-32002) }
                        else if s.2 { code == Some(-32600) }
                        else if s.1 == "shutdown" { m.get("error").is_none() && m.get("result").map_or(false, |r| r.is_null()) }
                        else { code == Some(-32601) };
                    let ok = ok || (was_cancelled && code == Some(-32800));
                    if !ok { v.bad("wrong-response", format!("request {} {} (after shutdown: {}) got {}", s.0, s.1, s.2, short(m))); }
                    if m.get("error").is_none() && m.get("result").is_none() && false { v.bad("wrong-response", short(m)); }
                }
            }
        }
        if died.is_none() && !exit_sent {
            for (k, s) in sent.iter().enumerate() {
                if !used[k] && !cancelled.iter().any(|x| x.0 == s.0 && x.1 > s.3) { v.bad("no-response", format!("request {} {} was never answered although the server is idle [{}]", s.0, s.1, o.states.trim())); }
            }
        }
    }
    if prop == "C05" && died.is_none() && o.finish == FIN_DEADLOCK {
        if let Some(f) = log.iter().rev().find(|l| l["t"] == "F") {
            if f["in"].as_u64() > Some(0) || f["unsent"].as_u64() > Some(0) { v.bad("input-not-read", format!("the server stopped reading: {} bytes wait in its input, {} more cannot be sent [{}]", f["in"], f["unsent"], o.states.trim())); }
            if (f["next"].as_u64().unwrap_or(0) as usize) < c.ops.len() { v.bad("input-not-read", format!("the client could not send operation {} [{}]", f["next"], o.states.trim())); }
        }
    }
    // ---- handshake
    if prop == "C10" || prop == "C11" { handshake(c, log, &sent, &resp, &reqs_from_server, v, died.is_some()); }
    // ---- documents
    if !matches!(prop, "C01" | "C02" | "C03" | "C05" | "C07" | "C08" | "C11" | "C13") { return; }
    let utf8 = resp.iter().find(|(_, m)| m["result"].get("capabilities").is_some()).map_or(false, |(_, m)| m["result"]["offsetEncoding"] == "utf-8");
    let mut docs = Docs::new(c.docs.len());
    let mut cache = Cache::new();
    cache.fresh = seed % if matches!(prop, "C02" | "C08" | "C13") { 8 } else { 3 } == 0;
    let paths: Vec<Option<String>> = c.docs.iter().map(|u| norm_path(u)).collect();
    let doc_of = |uri: &str| { let p = norm_path(uri)?; paths.iter().position(|x| x.as_deref() == Some(&p)) };
    let mut last: Vec<Option<Value>> = vec![None; c.docs.len()];
    let mut lastver: Vec<Option<i64>> = vec![None; c.docs.len()];
    let mut npub = 0u64;
    let (mut matched, mut nonempty) = (0u64, 0u64);
    for l in log {
        match l["t"].as_str() {
            Some("s") => { let op = &c.ops[l["i"].as_u64().unwrap() as usize]; docs.apply(op); if let Op::Open { doc, .. } = op { if docs.d[*doc].opens > 1 { lastver[*doc] = None; } } }
            Some("R") if l["m"]["method"] == "textDocument/publishDiagnostics" => {
                npub += 1;
                let m = &l["m"];
                let Some(d) = m["params"]["uri"].as_str().and_then(|u| doc_of(u)) else { if prop == "C02" || prop == "C03" { v.bad("foreign-document", format!("diagnostics for a document the client does not have: {}", short(&m["params"]["uri"]))); } continue };
                last[d] = Some(m.clone());
                let ver = m["params"]["version"].as_i64();
                if docs.d[d].hist.is_empty() && !docs.d[d].wild { v.bad("unopened", format!("diagnostics for {} before it was opened", c.docs[d])); continue; }
                if let Some(ver) = ver {
                    if prop == "C02" && docs.d[d].opens == 1 && docs.d[d].open && !docs.d[d].wild {
                        if let Some(p) = lastver[d] { if ver < p { v.bad("version-back", format!("{}: version {} after version {}", c.docs[d], ver, p)); } }
                        lastver[d] = Some(ver);
                    }
                    if matches!(prop, "C02" | "C08") && !docs.d[d].wild {
                        let cands: Vec<String> = docs.d[d].hist.iter().filter(|h| h.0 as i64 == ver).map(|h| h.1.clone()).collect();
                        if cands.is_empty() { if prop == "C02" { v.bad("unknown-version", format!("{}: version {} was never sent", c.docs[d], ver)); } }
                        else {
                            let got = received(m);
                            let mut ok = false;
                            let mut exp1 = None;
                            for t in &cands { match cache.expected(t, utf8) { Ok(e) => { if e == got { ok = true; break; } exp1 = Some(e); } Err(_) => { ok = true; break; } } }
                            if ok { matched += 1; if !got.is_empty() { nonempty += 1; } }
                            if !ok && prop == "C02" { v.bad("wrong-version", format!("{} version {}: published {} but the text of that version analyses to {}", c.docs[d], ver, diff(&got, exp1.as_ref().unwrap()).0, diff(&got, exp1.as_ref().unwrap()).1)); }
                            if prop == "C08" {
                                let inside = cands.iter().any(|t| got.iter().all(|g| inside(t, g, utf8)));
                                if !inside { v.bad("outside", format!("{} version {}: a published range lies outside the document or splits a character: {}", c.docs[d], ver, short(&json!(got)))); }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v.count("publications", npub);
    v.count("publications_checked_against_version", matched);
    v.count("publications_nonempty_matched", nonempty);
    if matches!(prop, "C01" | "C03" | "C05" | "C07" | "C08" | "C11" | "C13") {
        let mut checked = 0;
        for (d, doc) in docs.d.iter().enumerate() {
            if prop == "C13" {
                for (ver, t) in &doc.hist { if let Err(m) = cache.expected(t, utf8) { v.bad("text-panic", format!("analysing version {} of {} ({:?}) fails: {}", ver, c.docs[d], clip(t), m)); } }
            }
            if !doc.open || doc.wild { continue; }
            let got = last[d].as_ref().map(|m| received(m)).unwrap_or_default();
            match cache.expected(&doc.text, utf8) {
                Ok(e) => {
                    checked += 1;
                    if !e.is_empty() { nonempty += 1; }
                    // for C05 only a forgotten edit counts: nothing was ever published, or what was is the analysis of an earlier text
                    let mut forgotten = || last[d].is_none() || doc.hist.iter().any(|(_, t)| cache_hit(&mut cache, t, utf8, &got));
                    if e != got && (prop != "C05" || forgotten()) {
                        let (g, x) = diff(&got, &e);
                        v.bad(if died.is_some() { "not-converged-dead" } else { "not-converged" }, format!("{} (version {}, {} bytes): client last received {} but its text analyses to {}", c.docs[d], doc.version, doc.text.len(), if last[d].is_none() { "nothing".into() } else { g }, x));
                    }
                }
                Err(m) => v.v.notes.push(format!("reference analysis panicked: {}", m)),
            }
        }
        v.count("documents_compared", checked);
        v.count("documents_with_diagnostics", nonempty);
    }
}
fn cache_hit(c: &mut Cache, t: &str, utf8: bool, got: &[Value]) -> bool { c.expected(t, utf8).map_or(false, |e| e == got) }
fn clip(t: &str) -> String { t.chars().take(120).collect() }
fn first_init(sent: &[(Value, String, bool, usize)]) -> usize { sent.iter().position(|s| s.1 == "initialize").unwrap_or(usize::MAX) }
fn diff(g: &[Value], e: &[Value]) -> (String, String) {
    let i = g.iter().zip(e.iter()).take_while(|(a, b)| a == b).count();
    let f = |v: &[Value]| format!("{} diagnostics{}", v.len(), v.get(i).map(|x| format!(", #{} {}", i, short(x))).unwrap_or_default());
    (f(g), f(e))
}
/// Path of a URI as the URL standard normalises it (decoded, dot segments resolved).
pub fn norm_path(u: &str) -> Option<String> {
    let p = uri_path(u)?;
    let mut out: Vec<&str> = vec![];
    for s in p.split('/') { match s { "." => {} ".." => { out.pop(); } _ => out.push(s) } }
    Some(out.join("/"))
}
fn inside(t: &str, g: &Value, utf8: bool) -> bool {
    let t = normalise(t);
    let lines: Vec<&str> = t.split('\n').collect();
    let ok = |l: u64, c: u64| -> bool {
        let Some(s) = lines.get(l as usize) else { return false };
        if utf8 { return (c as usize) <= s.len() && s.is_char_boundary(c as usize); }
        let mut u = 0u64;
        if c == 0 { return true; }
        for ch in s.chars() { u += ch.len_utf16() as u64; if u == c { return true; } if u > c { return false; } }
        false
    };
    let r = |i: usize| g[0][i].as_u64().unwrap_or(u64::MAX);
    ok(r(0), r(1)) && ok(r(2), r(3)) && (r(0), r(1)) <= (r(2), r(3))
}

fn handshake(c: &ServerCase, log: &[Value], sent: &[(Value, String, bool, usize)], resp: &[(usize, &Value)], reqs: &[(usize, &Value)], v: &mut V, died: bool) {
    let fi = first_init(sent);
    if fi == usize::MAX { return; }
    let id = &sent[fi].0;
    let early: Vec<&Value> = sent[..fi].iter().map(|s| &s.0).collect();
    let msgs: Vec<(usize, &Value)> = log.iter().enumerate().filter(|(_, l)| l["t"] == "R").map(|(i, l)| (i, &l["m"])).collect();
    let first = msgs.iter().find(|(_, m)| !(m["error"]["code"] == -32002 && early.contains(&&m["id"])));
    match first {
        None => { if !died { v.bad("no-initialize-reply", "initialize was not answered".into()) } return; }
        Some((_, m)) => {
            if m["id"] != *id || m.get("method").is_some() { v.bad("first-message", format!("the first message is not the reply to initialize: {}", short(m))); return; }
            let r = &m["result"];
            if r["capabilities"]["textDocumentSync"]["openClose"] != json!(true) || r["capabilities"]["textDocumentSync"]["change"] != json!(1) { v.bad("capabilities", format!("advertised sync is {}", short(&r["capabilities"]))); }
            let offered = c.caps["offsetEncoding"].as_array().map_or(false, |a| a.iter().any(|x| x == "utf-8"));
            let chosen = r["offsetEncoding"].as_str();
            if chosen.is_some() && chosen != Some("utf-16") && !(chosen == Some("utf-8") && offered) { v.bad("encoding", format!("offered {} chosen {:?}", c.caps["offsetEncoding"], chosen)); }
        }
    }
    if resp.iter().filter(|(_, m)| m["id"] == *id && m["result"].get("capabilities").is_some()).count() != 1 { v.bad("initialize-reply-count", "initialize was not answered exactly once".into()); }
    let s = &c.caps["textDocument"]["synchronization"];
    let want = s["didSave"] == json!(true) && s["dynamicRegistration"] == json!(true);
    let inited = log.iter().position(|l| l["t"] == "s" && matches!(c.ops[l["i"].as_u64().unwrap() as usize], Op::Initialized));
    let regs: Vec<&(usize, &Value)> = reqs.iter().filter(|(_, m)| m["method"] == "client/registerCapability").collect();
    let save = regs.iter().filter(|(_, m)| m["params"]["registrations"].as_array().map_or(false, |a| a.iter().any(|r| r["method"] == "textDocument/didSave"))).count();
    if !want && !regs.is_empty() { v.bad("registration", format!("dynamic registration without the capability: {}", short(regs[0].1))); }
    if want && save != 1 && inited.is_some() && !died { v.bad("registration", format!("didSave was registered {} times", save)); }
    for (i, m) in reqs { if inited.map_or(true, |x| *i < x) { v.bad("early-request", format!("the server sent a request before initialized: {}", short(m))); } }
    let mut ids: Vec<String> = reqs.iter().map(|(_, m)| m["id"].to_string()).collect();
    let n = ids.len();
    ids.sort();
    ids.dedup();
    if ids.len() != n { v.bad("request-id-reused", "the server reused a request id".into()); }
}

fn end_of_session(c: &ServerCase, o: &Outcome, v: &mut V, died: Option<(&str, String)>, panic: &Option<String>, io_broken: bool) {
    if let Some((k, m)) = died { v.bad(k, m); return; }
    let log = &o.log;
    let s_ops: Vec<&Op> = log.iter().filter(|l| l["t"] == "S").filter_map(|l| Some(&c.ops[l["i"].as_u64()? as usize])).collect();
    let ended = s_ops.iter().any(|op| matches!(op, Op::Exit | Op::Eof | Op::CloseOut)) || s_ops.iter().any(|op| matches!(op, Op::Partial { .. }));
    if o.finish != FIN_EXIT {
        if ended && !only_closeout(&s_ops) { v.bad("no-exit", format!("the session ended but the process did not: {} [{}]", o.describe(), o.states.trim())); }
        return;
    }
    let shutdown = s_ops.iter().position(|op| matches!(op, Op::Shutdown { .. }));
    let exit = s_ops.iter().position(|op| matches!(op, Op::Exit));
    let lost = s_ops.iter().any(|op| matches!(op, Op::CloseOut)) || io_broken;
    if let (Some(a), Some(b)) = (shutdown, exit) {
        if a < b && !lost && !s_ops[..b].iter().any(|op| matches!(op, Op::Eof)) {
            v.count("orderly_ends", 1);
            if o.code != 0 { v.bad("exit-status", format!("orderly shutdown and exit, yet status {}: {}", o.code, panic.clone().unwrap_or_else(|| o.err.lines().last().unwrap_or("").into()))); }
            for op in &s_ops[..b] {
                let id = match op { Op::Req { id, .. } | Op::Shutdown { id } | Op::Init { id } => id, _ => continue };
                if !log.iter().any(|l| l["t"] == "R" && l["m"].get("method").is_none() && l["m"]["id"] == *id) { v.bad("response-lost", format!("request {} was sent before exit but its response never arrived", id)); }
            }
        }
    }
    v.count("ends", 1);
    let _ = panic;
}
fn only_closeout(ops: &[&Op]) -> bool { !ops.iter().any(|op| matches!(op, Op::Exit | Op::Eof | Op::Partial { .. })) }

// ---------------------------------------------------------------- analysis host
fn analysis(c: &AnalysisCase, o: &Outcome, v: &mut V) {
    let mut texts: Vec<String> = (0..c.files).map(|i| c.initial.get(i).cloned().unwrap_or_default()).collect();
    let mut at: Vec<Vec<String>> = vec![]; // state before step i
    for st in &c.steps {
        at.push(texts.clone());
        if let AStep::Apply { changes, .. } = st { for (f, t) in changes { texts[*f] = t.clone().unwrap_or_default(); } }
    }
    if o.signal != 0 || o.finish == FIN_ABORT { v.bad("crash", o.describe()); }
    else if o.finish == FIN_HANG || o.finish == FIN_OOM || o.finish == FIN_BUDGET { v.bad("hang", o.describe()); }
    else if o.finish == FIN_DEADLOCK { v.bad("deadlock", format!("no thread can run [{}]", o.states.trim())); }
    else if o.finish == FIN_EXIT && o.code != 0 { v.bad("writer-panic", panic_line(&o.err).unwrap_or_default()); }
    let mut cache: std::collections::HashMap<String, Ref> = Default::default();
    let (mut writes, mut done): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut snap_at: std::collections::HashMap<u64, usize> = Default::default();
    let (mut answered, mut cancelled) = (0, 0);
    let mut concurrent = 0u64;
    for (p, l) in o.log.iter().enumerate() {
        match l["t"].as_str() {
            Some("snap") => { snap_at.insert(l["i"].as_u64().unwrap(), p); }
            Some("a0") => writes.push(p),
            Some("a1") => done.push(p),
            Some("p") => v.bad("query-panic", format!("query of snapshot {} file {} panicked: {}", l["snap"], l["file"], panic_line(&o.err).unwrap_or_default())),
            Some("q") => {
                let k = l["snap"].as_u64().unwrap();
                let f = l["file"].as_u64().unwrap() as usize;
                if l["v"] == "cancelled" {
                    cancelled += 1;
                    // the record of taking the snapshot may come after its first query; the writer takes snapshots itself, so any later write is recorded after
                    let from = snap_at.get(&k).copied().unwrap_or(0);
                    if !writes.iter().any(|w| *w > from && *w < p) { v.bad("cancelled-without-change", format!("snapshot {} answered cancelled although no change was requested since it was taken", k)); }
                    continue;
                }
                answered += 1;
                if done.iter().any(|w| snap_at.get(&k).map_or(false, |s| w > s)) { v.bad("answer-after-change", format!("snapshot {} still answers after a change or cancellation requested later has returned", k)); }
                if writes.iter().any(|w| snap_at.get(&k).map_or(false, |s| w > s) && *w < p) { concurrent += 1; }
                let t = &at[k as usize][f];
                if l["kind"] == 0 {
                    match cache.entry(t.clone()).or_insert_with(|| analyse_raw(t)) {
                        Ref::Diags(e) => if l["v"] != json!(e) { v.bad("wrong-state", format!("snapshot {} file {}: got {} but the state it was taken of analyses to {}", k, f, short(&l["v"]), short(&json!(e)))); },
                        Ref::Panic(_) => {}
                    }
                } else {
                    let e = line_probe(t, l["kind"] == 2);
                    let same = e.as_array().unwrap().iter().enumerate().all(|(i, x)| x.is_null() || l["v"][i] == *x);
                    if !same { v.bad("wrong-state", format!("snapshot {} file {}: line index {} instead of {}", k, f, short(&l["v"]), short(&e))); }
                }
            }
            _ => {}
        }
    }
    v.count("queries_answered", answered);
    v.count("queries_cancelled", cancelled);
    v.count("queries_answered_during_a_pending_change", concurrent);
    if v.v.viols.is_empty() && o.log.last().map_or(true, |l| l["t"] != "end") { v.bad("incomplete", o.describe()); }
}
fn analyse_raw(t: &str) -> Ref { crate::model::analyse(t) }
fn line_probe(t: &str, utf16: bool) -> Value {
    let mut v = vec![];
    let mut off = 0usize;
    while off <= 600 {
        let b = &t.as_bytes()[..off.min(t.len())];
        let line = b.iter().filter(|x| **x == b'\n').count();
        let start = b.iter().rposition(|x| *x == b'\n').map_or(0, |i| i + 1);
        if !utf16 { v.push(json!([line, off - start])); }
        else if off > t.len() || !t.is_char_boundary(off) { v.push(Value::Null); }
        else { v.push(json!([line, t[start..off].chars().map(char::len_utf16).sum::<usize>()])); }
        off += 13;
    }
    Value::Array(v)
}

// ---------------------------------------------------------------- child output
fn stream(case: &Case, c: &StreamCase, o: &Outcome, v: &mut V) {
    let mut exp = [vec![], vec![], vec![]];
    let mut open = [false, true, true];
    // complete lines written before each pause of the child
    let mut marks: Vec<[usize; 3]> = vec![];
    let whole = |b: &[u8]| b.iter().filter(|x| **x == b'\n').count();
    for st in &c.script { match st { CStep::Write { s, hex } => if open[*s as usize] { exp[*s as usize].extend(unhex(hex)) }, CStep::Close { s } => open[*s as usize] = false, CStep::Pause => marks.push([0, whole(&exp[1]), whole(&exp[2])]), CStep::Exit => {} } }
    let spawn_fails = case.faults.iter().any(|f| f.cls == 14 && f.kind == 2 && f.nth == 0);
    if o.signal != 0 || o.finish == FIN_ABORT || o.finish == FIN_HANG || o.finish == FIN_OOM || o.finish == FIN_BUDGET { v.bad("stuck", o.describe()); return; }
    if o.finish == FIN_DEADLOCK { v.bad("deadlock", format!("the caller waits forever [{}]", o.states.trim())); return; }
    if o.code != 0 { v.bad("panic", panic_line(&o.err).unwrap_or_default()); return; }
    let ret = o.log.iter().find(|l| l["t"] == "ret");
    let fail = o.log.iter().find(|l| l["t"] == "fail");
    if spawn_fails { if ret.is_some() { v.bad("spawn-error-lost", "spawning failed yet a result was returned".into()); } return; }
    // a hard I/O error may be reported, but then nothing wrong may have been delivered
    let hard = case.faults.iter().any(|f| f.kind == 2 && f.arg != 4 && matches!(f.cls, 9 | 10 | 15)) && fail.is_some();
    for (s, t) in [(1usize, "o"), (2, "e")] {
        let got: Vec<String> = o.log.iter().filter(|l| l["t"] == t).map(|l| l["l"].as_str().unwrap_or("").to_string()).collect();
        let e: Vec<String> = String::from_utf8_lossy(&exp[s]).lines().map(String::from).collect();
        let ok = if hard { e.len() >= got.len() && e[..got.len()] == got[..] } else { got == e };
        if !ok {
            let i = got.iter().zip(&e).take_while(|(a, b)| a == b).count();
            v.bad("lines", format!("{}: {} lines delivered, {} written; first difference at line {}: {:?} instead of {:?}", if s == 1 { "stdout" } else { "stderr" }, got.len(), e.len(), i, got.get(i).map(|x| clip(x)), e.get(i).map(|x| clip(x))));
        }
    }
    if !hard {
        let (mut n, mut k) = ([0usize; 3], 0);
        for l in &o.log {
            if l["t"] == "o" { n[1] += 1 }
            if l["t"] == "e" { n[2] += 1 }
            if l["t"] == "idle" {
                if let Some(m) = marks.get(k) {
                    for s in 1..3 { if n[s] < m[s] { v.bad("held-back", format!("the child pauses after {} whole lines of {}, the caller is idle, and only {} have been delivered", m[s], if s == 1 { "stdout" } else { "stderr" }, n[s])); } }
                }
                k += 1;
            }
        }
        v.count("pauses", k as u64);
    }
    match ret {
        None => if !hard { v.bad("failed", format!("streaming failed: {}", fail.map(short).unwrap_or_default())); },
        Some(r) => {
            if r["out"] != json!(hex(&exp[1])) || r["err"] != json!(hex(&exp[2])) { v.bad("bytes", "the returned bytes differ from what the child wrote".into()); }
            if r["status"] != json!(c.status) { v.bad("status", format!("exit status {} instead of {}", r["status"], c.status)); }
        }
    }
    v.count("bytes_streamed", (exp[1].len() + exp[2].len()) as u64);
}

/// A session that repeats itself: neither the work per round nor the memory held between rounds may grow.
/// `calm`: no faults and an undisturbed schedule, so that equal rounds cost nearly the same.
fn steady(log: &[Value], calm: bool, v: &mut V) {
    let m: Vec<(u64, i64)> = log.iter().filter(|l| l["t"] == "M").map(|l| (l["edges"].as_u64().unwrap_or(0), l["live"].as_i64().unwrap_or(0))).collect();
    v.count("rounds", m.len() as u64);
    if m.len() < 24 { return; }
    let work: Vec<u64> = m.windows(2).map(|w| w[1].0 - w[0].0).collect();
    let (n, t) = (work.len(), work.len() / 3);
    // equal rounds may take one of several courses (a batch is cancelled or not), so both the cheap and the dear ones must
    // have become dearer, from the first third over the second to the last
    let q = |x: &[u64], p: usize| { let mut x = x.to_vec(); x.sort(); x[(x.len() - 1) * p / 100] };
    let third = [&work[2..2 + t], &work[t + 1..n - t], &work[n - t..]];
    let (first, last) = (q(third[0], 50), q(third[2], 50));
    let dearer = |p: usize| { let (a, b, c) = (q(third[0], p), q(third[1], p), q(third[2], p)); b > a + a / 5 && c > b + b / 20 && c > if calm { a + a / 2 + 5_000 } else { a * 2 + 100_000 } };
    if dearer(10) && dearer(50) && dearer(90) { v.bad("slower", format!("{} equal rounds: one of the first takes {} steps, one of the last {}", m.len(), first, last)); }
    let held = m[4..3 + t].iter().map(|x| x.1).max().unwrap_or(0);
    let end = m[m.len() - t..].iter().map(|x| x.1).min().unwrap_or(0);
    if end - held > if calm { 2048 } else { 32768 } + 8 * m.len() as i64 { v.bad("grows", format!("{} equal rounds: the idle server holds at most {} bytes of heap in the first third and at least {} in the last", m.len(), held, end)); }
    v.count("steps_per_round_first", first);
    v.count("steps_per_round_last", last);
}

// ---------------------------------------------------------------- project discovery
/// What may be found for one folder: `least` must be, nothing beyond `most` may be. They differ only where a call failed
/// or the file system changed.
struct Found { least: Vec<String>, most: Vec<String> }
fn parent(p: &str) -> Option<String> { if p == "/" { return None; } match p.rfind('/') { Some(0) => Some("/".into()), Some(i) => Some(p[..i].into()), None => None } }
fn under(d: &str, n: &str) -> String { if d == "/" { format!("/{}", n) } else { format!("{}/{}", d, n) } }
/// `unsure`: paths about which a call failed, or that came, went, or are oddities (a directory named Dove.toml).
fn look(fs: &[Node], root: &str, unsure: &std::collections::HashSet<String>) -> Found {
    let root = if root.len() > 1 { root.trim_end_matches('/') } else { root };
    let there = |p: &str| fs.iter().any(|n| n.path == p && !n.dangling);
    let mut f = Found { least: vec![], most: vec![] };
    if root.ends_with("/Dove.toml") { f.most.push(root.into()); if there(root) && !unsure.contains(root) { f.least.push(root.into()); return f; } }
    let mut sure = f.most.is_empty();
    let mut at = Some(root.to_string());
    while let Some(d) = at {
        let m = under(&d, "Dove.toml");
        if unsure.contains(&m) || unsure.contains(&d) { if there(&m) { f.most.push(m.clone()); } sure = false; }
        else if there(&m) { if sure { f.least.push(m.clone()); } f.most.push(m); return f; }
        at = parent(&d);
    }
    let listed = root == "/simfs" || fs.iter().any(|n| n.path == root && (n.dir || n.link) && !n.dangling);
    if !listed { return f; }
    let inside = format!("{}/", root);
    for n in fs.iter().filter(|n| n.path.starts_with(&inside) && !n.path[inside.len()..].contains('/')) {
        let m = under(&n.path, "Dove.toml");
        if !there(&m) { continue; }
        if sure && !unsure.contains(root) && !unsure.contains(&n.path) && !unsure.contains(&m) { f.least.push(m.clone()); }
        f.most.push(m);
    }
    f
}
/// The fields of a manifest made of plain lines; None if it says more than this reader understands.
fn plain_manifest(t: &str) -> Option<Value> {
    let mut v = json!({"name": null, "account_address": null, "dove_version": null, "dialect": null});
    let mut l = t.lines();
    if l.next()? != "[package]" { return None; }
    let mut seen: Vec<&str> = vec![];
    for x in l {
        if x.is_empty() || x.starts_with('#') { continue; }
        let (k, val) = x.split_once(" = ")?;
        let val = val.strip_prefix('"')?.strip_suffix('"')?;
        if val.contains('"') || val.contains('\\') || val.chars().any(|c| c < ' ') || seen.contains(&k) || !["name", "account_address", "dove_version", "dialect", "blockchain_api"].contains(&k) { return None; }
        seen.push(k);
        if v.get(k).is_some() { v[k] = json!(val); }
    }
    Some(v)
}
fn discover(c: &DiscoverCase, o: &Outcome, v: &mut V) {
    if o.signal != 0 || matches!(o.finish, FIN_ABORT | FIN_HANG | FIN_OOM | FIN_BUDGET | FIN_DEADLOCK) { v.bad("stuck", o.describe()); return; }
    if let Some(p) = o.log.iter().find(|l| l["t"] == "p") { v.bad("panic", format!("{} {}", short(p), panic_line(&o.err).unwrap_or_default())); return; }
    if o.code != 0 { v.bad("panic", panic_line(&o.err).unwrap_or_default()); return; }
    let plain = |h: &str| { let b = unhex(h); let mut s = String::new(); let mut b = &b[..]; loop { match std::str::from_utf8(b) { Ok(x) => { s.push_str(x); break s } Err(e) => { let k = e.valid_up_to(); s.push_str(std::str::from_utf8(&b[..k]).unwrap()); s.push(char::from_u32(0xf700 + b[k] as u32).unwrap()); b = &b[k + 1..]; } } } };
    let mut unsure = std::collections::HashSet::new(); // for finding
    let mut unread = std::collections::HashSet::new(); // for loading
    for l in o.log.iter().filter(|l| l["t"] == "ff") {
        let mut p = plain(l["p"].as_str().unwrap_or(""));
        while p.len() > 1 && p.ends_with('/') { p.pop(); }
        if !matches!(l["cls"].as_i64(), Some(5 | 6)) { unsure.insert(p.clone()); }
        unread.insert(p);
    }
    for e in &c.events {
        if let DEvent::Hide { path } | DEvent::Show { path } = e {
            unsure.insert(path.clone());
            let below = format!("{}/", path);
            for n in &c.fs { if n.path == *path || n.path.starts_with(&below) { unsure.insert(n.path.clone()); unread.insert(n.path.clone()); } }
        }
    }
    for n in &c.fs { if n.dir && n.path.ends_with("/Dove.toml") { unsure.insert(n.path.clone()); } }
    let as_path = |p: &str| { use std::os::unix::ffi::OsStringExt; std::path::PathBuf::from(std::ffi::OsString::from_vec(raw_path(p))) };
    let (mut calls, mut manifests, mut loads, mut exact) = (0, 0, 0, 0);
    for l in &o.log {
        let k = || &c.threads[l["th"].as_u64().unwrap() as usize][l["i"].as_u64().unwrap() as usize];
        if l["t"] == "d" {
            calls += 1;
            let roots: Vec<String> = match k() { DCall::All { roots } => roots.clone(), DCall::One { root } | DCall::Single { root } => vec![root.clone()] };
            let fs: Vec<Found> = roots.iter().map(|r| look(&c.fs, r, &unsure)).collect();
            let least: std::collections::BTreeSet<&String> = fs.iter().flat_map(|f| &f.least).collect();
            let most: std::collections::BTreeSet<&String> = fs.iter().flat_map(|f| &f.most).collect();
            if least == most { exact += 1; }
            let got: Option<Vec<String>> = l["r"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect());
            let what = short(&serde_json::to_value(k()).unwrap());
            if let DCall::Single { .. } = k() {
                match &got {
                    Some(g) => { if least.len() > 1 || g.iter().any(|x| !most.contains(x)) { v.bad("wrong-project", format!("{} found {:?}, but there are {:?}", what, g, most)); } }
                    None => if least.len() == 1 && most.len() == 1 { v.bad("project-missed", format!("{} failed ({}), but {:?} is the only one", what, l["err"], least)); },
                }
                continue;
            }
            let got = match got { Some(g) => g, None => { if !least.is_empty() { v.bad("project-missed", format!("{} failed ({}), but there are {:?}", what, l["err"], least)); } continue } };
            manifests += got.len() as u64;
            let mut uniq: Vec<&String> = got.iter().collect();
            uniq.sort();
            uniq.dedup();
            if uniq.len() != got.len() { v.bad("duplicate-project", format!("{} found {:?}", what, got)); }
            if let Some(m) = least.iter().find(|m| !got.contains(m)) { v.bad("project-missed", format!("{} did not find {}; found {:?}; failing or changing paths: {:?}", what, m, got, unsure)); }
            if let Some(m) = got.iter().find(|m| !most.contains(m)) { v.bad("wrong-project", format!("{} found {}, which is none of {:?}; failing or changing paths: {:?}", what, m, most, unsure)); }
            if let DCall::All { .. } = k() { if got.windows(2).any(|w| as_path(&w[0]) > as_path(&w[1])) { v.bad("unsorted", format!("{} found {:?}", what, got)); } }
        }
        if l["t"] == "l" {
            loads += 1;
            let p = l["p"].as_str().unwrap_or("");
            let Some(n) = c.fs.iter().find(|n| n.path == p && !n.dir && !n.dangling) else { continue };
            let want = if n.hex { if String::from_utf8(unhex(&n.data)).is_err() { Value::Null } else { continue } } else { match plain_manifest(&n.data) { Some(w) => w, None => continue } };
            if l["v"] != want && !(unread.contains(p) && l["v"].is_null()) { v.bad("wrong-manifest", format!("loading {} gave {} instead of {}", p, l["v"], want)); }
        }
    }
    v.count("discoveries", calls);
    v.count("discoveries_with_one_right_answer", exact);
    v.count("projects_found", manifests);
    v.count("manifests_loaded", loads);
    if v.v.viols.is_empty() && o.log.last().map_or(true, |l| l["t"] != "end") { v.bad("incomplete", o.describe()); }
}

// ---------------------------------------------------------------- work and the other documents
/// Steps to convert one standing diagnostic and compare it with what was published: about 2400.
const A_DIAG: u64 = 3000;

/// What the server does about a message must not depend on the texts of the documents the message is not about: equal
/// messages, to equal states of their documents, cost about the same however long the other documents are, and nothing is
/// published about those.
fn apart(c: &ServerCase, log: &[Value], v: &mut V) {
    let mut text: Vec<Option<String>> = vec![None; c.docs.len()];
    let paths: Vec<Option<String>> = c.docs.iter().map(|u| norm_path(u)).collect();
    let fresh = |d: usize| c.docs[d].contains("/fresh/");
    // one part of the session: from one mark to the next
    let (mut from, mut touched, mut key): (Option<u64>, Vec<usize>, String) = (None, vec![], String::new());
    let mut told: Vec<usize> = vec![];
    let mut sent = 0;
    // what stands published for each document: converting and comparing these is not analysis
    let mut standing: Vec<usize> = vec![0; c.docs.len()];
    // by key: (bytes of the other documents, steps beyond A_DIAG for each diagnostic they have), where one message was sent
    let mut parts: std::collections::BTreeMap<String, Vec<(usize, u64)>> = Default::default();
    for l in log {
        match l["t"].as_str() {
            Some("s") => {
                let op = &c.ops[l["i"].as_u64().unwrap() as usize];
                sent += 1;
                let mut touch = |d: usize, t: Option<String>, key: &mut String| { let name = if fresh(d) { "new".into() } else { d.to_string() }; key.push_str(&format!("{}:{:?}->{:?};", name, text[d], t)); text[d] = t; if !touched.contains(&d) { touched.push(d) } };
                match op {
                    Op::Open { doc, text, .. } => touch(*doc, Some(text.clone()), &mut key),
                    Op::Change { doc, edits, .. } => touch(*doc, edits.last().map(|e| e.text.clone()), &mut key),
                    Op::Close { doc } => touch(*doc, None, &mut key),
                    Op::Save { doc } => key.push_str(&format!("save {};", doc)),
                    Op::Req { method, .. } => key.push_str(&format!("{};", method)),
                    Op::Cancel { .. } => key.push_str("cancel;"),
                    _ => {}
                }
            }
            Some("R") if l["m"]["method"] == "textDocument/publishDiagnostics" => {
                let p = l["m"]["params"]["uri"].as_str().and_then(norm_path);
                if let Some(d) = paths.iter().position(|x| x.is_some() && *x == p) {
                    if !told.contains(&d) { told.push(d) }
                    standing[d] = l["m"]["params"]["diagnostics"].as_array().map_or(0, |a| a.len());
                }
            }
            Some("M") => {
                let e = l["edges"].as_u64().unwrap_or(0);
                if let Some(f) = from {
                    if let Some(d) = told.iter().find(|d| !touched.contains(d)) { v.bad("published-for-others", format!("{} led to diagnostics for {}, which it does not concern", clip(&key), c.docs[*d])); }
                    let size: usize = (0..c.docs.len()).filter(|d| !touched.contains(d)).map(|d| text[d].as_ref().map_or(0, |t| t.len())).sum();
                    let others: usize = (0..c.docs.len()).filter(|d| !touched.contains(d) && text[*d].is_some()).map(|d| standing[d]).sum();
                    let open: Vec<usize> = (0..c.docs.len()).filter(|d| text[*d].is_some() && !fresh(*d)).collect();
                    if sent == 1 { parts.entry(format!("{:?} {}", open, key)).or_default().push((size, (e - f).saturating_sub(A_DIAG * others as u64))); }
                }
                from = Some(e);
                touched.clear(); told.clear(); key.clear(); sent = 0;
            }
            _ => {}
        }
    }
    let mut n = 0;
    for (k, p) in &parts {
        let lo = p.iter().map(|x| x.0).min().unwrap();
        let hi = p.iter().map(|x| x.0).max().unwrap();
        if hi < lo + 5_000 { continue; }
        let beside_small: Vec<u64> = p.iter().filter(|x| x.0 <= lo + 2_000).map(|x| x.1).collect();
        let beside_large: Vec<u64> = p.iter().filter(|x| x.0 + 2_000 >= hi).map(|x| x.1).collect();
        if beside_small.len() < 2 || beside_large.len() < 2 { continue; }
        n += beside_large.len() as u64;
        let (a, b) = (*beside_small.iter().max().unwrap(), *beside_large.iter().min().unwrap());
        if b > a + a / 3 + 20_000 { v.bad("pays-for-others", format!("{} takes at most {} steps beside other documents of {} bytes and at least {} beside {} bytes", clip(k), a, lo, b, hi)); }
    }
    v.count("edits_measured", n);
}

// ---------------------------------------------------------------- the log
/// Values of MOVE_LS_LOG with what they ask for: (prefix of the target, most verbose level), the longest prefix decides.
pub const LOG_FILTERS: [(&str, &[(&str, u8)]); 12] = [
    ("error", &[("", 1)]), ("warn", &[("", 2)]), ("info", &[("", 3)]), ("debug", &[("", 4)]), ("trace", &[("", 5)]), ("off", &[]),
    ("lsp_server=debug", &[("lsp_server", 4)]), ("lsp_server::msg=debug,error", &[("", 1), ("lsp_server::msg", 4)]), ("info,lsp_server=off", &[("", 3), ("lsp_server", 0)]),
    ("move_language_server=trace,warn", &[("", 2), ("move_language_server", 5)]), ("debug", &[("", 4)]), ("lsp_server=trace,salsa=off,info", &[("", 3), ("lsp_server", 5), ("salsa", 0)]),
];

/// The log holds the records asked for, whole and once each, in the place asked for; in particular the messages exchanged.
fn records(c: &ServerCase, o: &Outcome, v: &mut V) {
    let env = |k: &str| c.env.iter().find(|e| e.0 == k).map(|e| e.1.as_str());
    let rules: &[(&str, u8)] = match env("MOVE_LS_LOG") { None => &[("", 1)], Some(f) => LOG_FILTERS.iter().find(|x| x.0 == f).map_or(&[("", 5)], |x| x.1) };
    let most = |target: &str| rules.iter().filter(|r| target.starts_with(r.0)).max_by_key(|r| r.0.len()).map_or(0, |r| r.1);
    let (mut err, mut file, mut pos, mut opened) = (vec![], vec![], 0, None::<String>);
    let mut app = false;
    let (mut sent, mut got): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    let (mut n, mut written) = (0, 0);
    let (mut refused, mut leaving) = (vec![], false);
    let mut look = |err: &[u8], file: &[u8], sent: &[Value], got: &[Value], refused: &[&str], whole: bool, v: &mut V| {
        let log = if env("RA_LOG_FILE").is_some() { file } else { err };
        let text = String::from_utf8_lossy(log);
        if env("RA_LOG_FILE").is_some() && whole { if let Some(l) = String::from_utf8_lossy(err).lines().find(|l| record(l).is_some()) { v.bad("log-elsewhere", format!("a log file was asked for, but stderr has {}", clip(l))); } }
        if !text.is_empty() && !text.ends_with('\n') && whole { v.bad("record-torn", format!("the log ends with {}", clip(text.lines().last().unwrap()))); }
        let (mut inn, mut out, mut errors) = (vec![], vec![], vec![]);
        for l in text.split('\n').filter(|l| !l.is_empty()) {
            let (level, target, msg) = match record(l) { Some(x) => x, None => continue }; // of a record of several lines
            if level > most(target) { v.bad("record-not-asked-for", format!("MOVE_LS_LOG={:?} gives {}", env("MOVE_LS_LOG"), clip(l))); }
            if level == 1 && target.starts_with("move_language_server") { errors.push(msg); }
            if target != "lsp_server::msg" { continue; }
            let (to, body) = if let Some(b) = msg.strip_prefix("< ") { (&mut inn, b) } else if let Some(b) = msg.strip_prefix("> ") { (&mut out, b) } else { continue };
            match serde_json::from_str::<Value>(body) { Ok(m) => to.push(m), Err(e) => { v.bad("record-torn", format!("{}: {}", e, clip(l))); } }
        }
        let on = most("lsp_server::msg") >= 4;
        inn.retain(|m| m.get("method").is_some()); // what the client answers by itself is not among `sent`
        for (name, logged, real, all) in [("received", &inn, sent, whole), ("sent", &out, got, whole)] {
            if !on { continue; }
            for (i, m) in logged.iter().enumerate() { if real.get(i).map_or(all, |x| x != m) { v.bad("message-log", format!("message {} the log calls {} is {}, really {}", i, name, clip(&m.to_string()), clip(&real.get(i).map_or("none".into(), |x| x.to_string())))); return 0; } }
            if all && logged.len() < real.len() { v.bad("message-log", format!("the log has {} of {} messages {}, the next is {}", logged.len(), real.len(), name, clip(&real[logged.len()].to_string()))); return 0; }
        }
        for what in refused.iter().filter(|_| most("move_language_server::main_loop") >= 1) {
            let (n, m) = (errors.iter().filter(|e| e.contains(what)).count(), refused.iter().filter(|x| x == &what).count());
            if n > m || n < m && whole { v.bad("refusal-log", format!("{} messages about {} were refused or ignored, the log has {} such errors", m, what, n)); return 0; }
        }
        text.lines().count() as u64
    };
    for l in &o.log {
        match l["t"].as_str() {
            Some("W") => {
                let b = unhex(l["h"].as_str().unwrap());
                if l["to"] == "e" { err.extend(b) } else {
                    written += b.len();
                    if app { pos = file.len(); }
                    if file.len() < pos + b.len() { file.resize(pos + b.len(), 0) }
                    file[pos..pos + b.len()].copy_from_slice(&b);
                    pos += b.len();
                }
            }
            Some("LO") => {
                let p = String::from_utf8_lossy(&unhex(l["p"].as_str().unwrap())).into_owned();
                if env("RA_LOG_FILE") != Some(&p) { v.bad("log-elsewhere", format!("{} is opened for writing", p)); }
                app = l["app"] == 1;
                if opened.is_none() { file = c.fs.iter().find(|n| n.path == p).map_or(vec![], |n| n.data.clone().into_bytes()); }
                if l["trunc"] == 1 { file.clear(); }
                pos = 0;
                opened = Some(p);
            }
            Some("s") => {
                let op = &c.ops[l["i"].as_u64().unwrap() as usize];
                if let Some(m) = op_sends(c, op) { sent.push(m) }
                match op {
                    Op::Shutdown { .. } | Op::Exit => leaving = true,
                    Op::Note { method, params } if !leaving => {
                        if method.starts_with("foo/") { refused.push(&method[..]) }
                        if params.to_string().contains("never_opened") { refused.push("never_opened") }
                    }
                    _ => {}
                }
            }
            Some("R") => {
                let m = l["m"].clone();
                if m["error"]["code"] == -32601 { if let Some(s) = sent.iter().find(|s| s["id"] == m["id"]).and_then(|s| s["method"].as_str()) { if let Some(Op::Req { method, .. }) = c.ops.iter().find(|o| matches!(o, Op::Req { method, .. } if method == s)) { refused.push(method) } } }
                got.push(m)
            }
            Some("I") => n = look(&err, &file, &sent, &got, &refused, true, v),
            _ => {}
        }
    }
    let ended = o.finish == FIN_EXIT && o.code == 0;
    n = n.max(look(&err, &file, &sent, &got, &refused, ended, v));
    if o.finish == FIN_EXIT && o.code != 0 && err.is_empty() { v.bad("unexplained-end", format!("the server ends with status {} and nothing on stderr", o.code)); }
    v.count("log_lines", n);
    v.count("log_file_bytes", written as u64);
}
/// Level (1 to 5), target and text of a line of the log.
fn record(l: &str) -> Option<(u8, &str, &str)> {
    let (head, text) = l.strip_prefix('[')?.split_once("] ")?;
    let (level, target) = head.split_once(' ')?;
    let n = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].iter().position(|x| *x == level)? as u8 + 1;
    if target.contains(' ') { return None; }
    Some((n, target, text))
}
