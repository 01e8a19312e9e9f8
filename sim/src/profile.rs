//! One workload profile per property: builds the case for a seed.
use crate::case::*;
use crate::gen::*;
use crate::oracle::Viol;
use serde_json::{json, Value};

pub const ALL: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20", "C21", "C22"];

fn finish_case(p: &str, seed: u64, sched: Sched, faults: Vec<Fault>, mut world: World) -> Case {
    // ranged edits are always in UTF-16 (the server asks for whole-document synchronisation, so they only arrive from a
    // client that ignores that), hence utf-8 is not offered together with them
    if let World::Server(c) = &mut world {
        let ranged = c.ops.iter().any(|o| matches!(o, Op::Change { edits, .. } if edits.iter().any(|e| e.range.is_some())));
        if ranged { if let Some(a) = c.caps.get_mut("offsetEncoding").and_then(|a| a.as_array_mut()) { a.retain(|x| x != "utf-8"); } }
    }
    Case { property: p.into(), seed, sched, faults, world, max_idle_edges: 400_000_000, max_edges: 4_000_000_000, max_points: 20_000_000 }
}
/// Now and then one dimension of the workload is stretched far beyond the usual.
fn scale(r: &mut Rng, w: &mut WL) {
    match r.n(100) {
        0 | 1 => { w.docs = r.r(8, 24); w.size = 2; w.ops = w.docs * 2; w.pace = 5; }
        2 => { w.edits = 40; w.ops = w.ops.min(6); }
        3 => { w.cap = 200_000; w.ops = w.ops.min(4); w.docs = 1; w.errs = 60; }
        4 => { w.ops = r.r(60, 150); w.size = 2; w.docs = 2; w.pace = 5; }
        5 => { w.size = 120; w.errs = 95; w.ops = w.ops.min(4); w.docs = 1; w.cap = 20_000; }
        7 | 8 => { w.size = 250; w.errs = *r.pick(&[10usize, 60]); w.docs = 1; w.ops = w.ops.min(6); w.cap = 30_000; w.crlf = *r.pick(&[0usize, 10, 10, 100]); }
        6 if r.p(8) => { w.docs = 270; w.ops = 290; w.size = 0; w.pace = 0; w.close = 30; w.reqs = 0; }
        _ => {}
    }
}
fn wl(r: &mut Rng) -> WL {
    WL { ops: r.r(3, 14), docs: r.r(1, 3), size: *r.pick(&[2usize, 5, 12, 30]), errs: *r.pick(&[0usize, 30, 60, 90]), ranged: *r.pick(&[0usize, 30, 80]), past: false, wild: 0, crlf: *r.pick(&[0usize, 0, 40]), close: *r.pick(&[0usize, 5, 20]), pace: *r.pick(&[0usize, 15, 40, 70]), reqs: *r.pick(&[0usize, 0, 15]), save: 5, hostile: 0, edits: 4, cap: 6000 }
}
/// A burst: many full-text edits of one document alternating between broken and clean text, the classic race workload.
fn burst(r: &mut Rng, c: &mut ServerCase, h: &mut Hist, w: &WL) {
    let d = r.n(w.docs);
    if h.text[d].is_none() { doc_step(r, w, h, d, &mut c.ops); }
    if h.text[d].is_none() { return; }
    for _ in 0..r.r(1, 5) {
        let e = r.pick(&[0usize, 100, 50]).clone();
        let t = text(r, w.size, e, h.crlf[d]);
        h.version[d] += 1;
        h.text[d] = Some(t.clone());
        c.ops.push(Op::Change { doc: d, version: h.version[d], edits: vec![Edit { range: None, text: t }] });
        if r.p(w.pace / 2) { pace(r, 100, &mut c.ops); }
    }
}

pub fn make(p: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ (p.as_bytes()[1] as u64) << 32 ^ (p.as_bytes()[2] as u64) << 40);
    let r = &mut r;
    let mut faults = vec![];
    match p {
        "C01" | "C02" => {
            let mut w = wl(r);
            scale(r, &mut w);
            let mut c = base(r, w.docs);
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            if r.p(50) { burst(r, &mut c, &mut h, &w); }
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            if r.p(50) { burst(r, &mut c, &mut h, &w); }
            c.ops.push(Op::WaitIdle);
            if r.p(40) { benign_faults(r, &mut faults); }
            finish_case(p, seed, sched(r), faults, World::Server(c))
        }
        "C03" => {
            let mut w = wl(r);
            w.ops = r.r(4, 22);
            w.errs = *r.pick(&[40usize, 70, 95]);
            w.ranged = *r.pick(&[50usize, 80, 95]);
            w.past = r.p(40);
            w.crlf = *r.pick(&[0usize, 50, 100]);
            w.close = *r.pick(&[0usize, 10, 25]);
            w.size = *r.pick(&[2usize, 5, 10]);
            scale(r, &mut w);
            if r.p(6) { w.size = 150; w.errs = *r.pick(&[0usize, 0, 5, 20]); w.docs = 1; w.crlf = *r.pick(&[8usize, 8, 100]); w.cap = 30_000; w.ops = r.r(2, 6); w.ranged = 97; w.close = 0; }
            let mut c = base(r, w.docs);
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            c.ops.push(Op::WaitIdle);
            if r.p(30) { benign_faults(r, &mut faults); }
            let s = if r.p(50) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C04" => {
            let mut w = wl(r);
            w.reqs = *r.pick(&[40usize, 70, 100]);
            w.ops = r.r(3, 20);
            scale(r, &mut w);
            let mut c = base(r, w.docs);
            if r.p(20) { c.ops.push(Op::Req { id: json!(900), method: "textDocument/hover".into(), params: json!({}) }); }
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            if r.p(60) {
                if r.p(85) { c.ops.push(Op::Shutdown { id: ident(r, 700) }) } else { c.ops.push(Op::Body { text: format!(r#"{{"id":{},"jsonrpc":"2.0","params":null,"method":"shutdown"}}"#, ident(r, 700)) }) }
                for i in 0..r.n(4) { let id = ident(r, 701 + i); if r.p(25) { c.ops.push(Op::Shutdown { id }) } else { c.ops.push(Op::Req { id, method: "foo/bar".into(), params: Value::Null }) } if r.p(20) { let d = r.n(w.docs); doc_step(r, &w, &mut h, d, &mut c.ops); } }
            }
            // reuse of an id after it was answered; a string and a number with the same digits
            if r.p(30) {
                c.ops.push(Op::WaitResp);
                c.ops.push(Op::Req { id: json!(11), method: "foo/a".into(), params: Value::Null });
                c.ops.push(Op::WaitResp);
                c.ops.push(Op::Req { id: json!(11), method: "foo/b".into(), params: Value::Null });
            }
            if r.p(30) { c.ops.push(Op::Req { id: json!(5000), method: "foo/n".into(), params: Value::Null }); c.ops.push(Op::Req { id: json!("5000"), method: "foo/s".into(), params: Value::Null }); }
            for _ in 0..r.n(3) { c.ops.push(Op::Cancel { id: json!(r.n(40)) }); }
            c.ops.push(Op::WaitIdle);
            if r.p(40) { benign_faults(r, &mut faults); }
            finish_case(p, seed, sched(r), faults, World::Server(c))
        }
        "C05" => {
            let mut w = wl(r);
            w.ops = r.r(4, 24);
            w.size = *r.pick(&[5usize, 20, 60]);
            w.reqs = *r.pick(&[5usize, 20, 50]);
            scale(r, &mut w);
            let mut c = base(r, w.docs);
            c.stdin_cap = *r.pick(&[1u32, 16, 64, 512, 4096, 65536]);
            c.stdout_cap = *r.pick(&[1u32, 16, 64, 512, 4096, 65536]);
            if c.stdin_cap.min(c.stdout_cap) <= 16 { w.size = 5; w.ops = w.ops.min(8); w.docs = 1; w.cap = 6000; }
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            for _ in 0..r.r(1, 3) {
                if r.p(50) { c.ops.push(Op::StopRead); }
                if r.p(50) { burst(r, &mut c, &mut h, &w); }
                traffic(r, &w, &mut h, &mut c.ops, &mut k);
                if r.p(70) { c.ops.push(Op::StartRead); }
            }
            c.ops.push(Op::StartRead);
            c.ops.push(Op::WaitIdle);
            c.ops.push(Op::Req { id: json!(9999), method: "foo/probe".into(), params: Value::Null });
            c.ops.push(Op::WaitIdle);
            if r.p(50) { benign_faults(r, &mut faults); }
            finish_case(p, seed, sched(r), faults, World::Server(c))
        }
        "C06" => {
            let mut w = wl(r);
            w.ops = r.r(0, 10);
            w.size = *r.pick(&[5usize, 30, 80]);
            w.pace = *r.pick(&[0usize, 0, 20]);
            scale(r, &mut w);
            let mut c = base(r, w.docs);
            hello(r, &mut c);
            if r.p(10) { c.ops.truncate(r.n(3)); }
            let full = c.ops.len() == 3;
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            if full {
                traffic(r, &w, &mut h, &mut c.ops, &mut k);
                if r.p(60) { burst(r, &mut c, &mut h, &w); }
            }
            match r.n(10) {
                0..=4 if full => {
                    c.ops.push(Op::Shutdown { id: json!(800) });
                    if r.p(40) { c.ops.push(Op::WaitResp); } else if r.p(30) { let d = r.n(w.docs); doc_step(r, &w, &mut h, d, &mut c.ops); }
                    c.ops.push(Op::Exit);
                    if r.p(50) { c.ops.push(Op::Eof); }
                }
                5 if full => c.ops.push(Op::Exit),
                6 if full => { c.ops.push(Op::CloseOut); let d = r.n(w.docs); doc_step(r, &w, &mut h, d, &mut c.ops); for i in 0..3 { c.ops.push(Op::Req { id: json!(600 + i), method: "foo/x".into(), params: Value::Null }); } c.ops.push(if r.p(50) { Op::Exit } else { Op::Eof }); }
                7 | 8 => {
                    let inner = if full { let mut v = vec![]; let d = r.n(w.docs); doc_step(r, &w, &mut h, d, &mut v); v.into_iter().find(|o| !matches!(o, Op::Save { .. })).unwrap() } else { Op::Req { id: json!(1), method: "foo/x".into(), params: Value::Null } };
                    let keep = *r.pick(&[1u32, 5, 16, 17, 18, 19, 20, 21, 22, 30, 60, 100]);
                    c.ops.push(Op::Partial { inner: Box::new(inner), keep });
                    c.ops.push(Op::Eof);
                }
                _ => c.ops.push(Op::Eof),
            }
            if r.p(35) { benign_faults(r, &mut faults); }
            if r.p(8) { faults.push(Fault { cls: 1, nth: r.n(20) as u32, kind: 2, arg: *r.pick(&[32i64, EIO]) }); }
            if r.p(8) { faults.push(Fault { cls: 0, nth: r.n(30) as u32, kind: 2, arg: EIO }); }
            finish_case(p, seed, sched(r), faults, World::Server(c))
        }
        "C07" => {
            let mut w = wl(r);
            w.docs = 2;
            let mut c = base(r, 4); // documents 2 and 3 are the faulty client's playground
            hello(r, &mut c);
            let mut h = Hist::new(4);
            let mut k = 10;
            for _ in 0..r.r(2, 8) {
                w.ops = r.r(0, 3);
                traffic(r, &w, &mut h, &mut c.ops, &mut k);
                let b = bad_message(r, &h, &c);
                c.ops.extend(b);
            }
            w.ops = 3;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            c.ops.push(Op::Req { id: json!(9999), method: "foo/probe".into(), params: Value::Null });
            c.ops.push(Op::WaitIdle);
            if r.p(20) { benign_faults(r, &mut faults); }
            let s = if r.p(50) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C08" => {
            let mut w = wl(r);
            w.errs = *r.pick(&[40usize, 70, 95]);
            w.crlf = *r.pick(&[0usize, 50, 100]);
            w.pace = 60;
            if r.p(60) { w.ranged = 0; }
            w.ops = r.r(2, 8);
            scale(r, &mut w);
            let mut c = base(r, w.docs);
            c.caps["offsetEncoding"] = match r.n(6) { 0 => json!(["utf-8"]), 1 => json!(["utf-16"]), 2 => json!(["utf-16", "utf-8"]), 3 => json!(["utf-8", "utf-16"]), 4 => json!([]), _ => Value::Null };
            if c.caps["offsetEncoding"].is_null() { c.caps.as_object_mut().unwrap().remove("offsetEncoding"); }
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            c.ops.push(Op::WaitIdle);
            let s = if r.p(30) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C09" => {
            let many = r.p(3);
            let files = if many { *r.pick(&[12usize, 140]) } else { r.r(1, 3) };
            let size = if many { 1 } else { *r.pick(&[2usize, 10, 40]) };
            let t = |r: &mut Rng| { let e = *r.pick(&[0usize, 50, 90]); if r.p(6) && !many { big_text(r, false) } else { text(r, size, e, false) } };
            let initial = (0..files).map(|_| t(r)).collect();
            let readers = r.r(1, 3);
            let mut steps = vec![];
            for _ in 0..r.r(3, 16) {
                match r.n(12) {
                    0..=4 => { let n = r.r(1, 6); steps.push(AStep::Snap { reader: r.n(readers), queries: (0..n).map(|_| (r.n(files), *r.pick(&[0u8, 0, 0, 0, 0, 1, 2]))).collect() }) }
                    5..=8 => { let n = r.r(1, files); let mut fs: Vec<usize> = (0..files).collect(); while fs.len() > n { let i = r.n(fs.len()); fs.remove(i); } let ch = fs.into_iter().map(|f| (f, if r.p(8) { None } else { Some(t(r)) })).collect::<Vec<_>>(); let mut ch = ch; if r.p(10) { let f = ch[0].0; ch.push((f, Some(t(r)))); } if r.p(5) { ch.clear(); } steps.push(AStep::Apply { changes: ch, roots: if r.p(25) { r.r(1, 5) as u8 } else { 0 } }) }
                    9 => steps.push(AStep::CancelAll),
                    10 => steps.push(AStep::Drain),
                    _ => steps.push(AStep::Local { file: r.n(files), kind: *r.pick(&[0u8, 0, 1, 2]) }),
                }
            }
            if r.p(30) { benign_faults(r, &mut faults); faults.retain(|f| f.cls == 3 || f.cls == 12); }
            let mut s = sched(r);
            if s.edge_gap == 0 && r.p(60) { s.edge_gap = *r.pick(&[200u64, 2000, 20000]); }
            finish_case(p, seed, s, faults, World::Analysis(AnalysisCase { files, initial, readers, steps }))
        }
        "C10" => {
            let nd = r.r(1, 2);
            let mut c = base(r, nd);
            c.stdin_cap = *r.pick(&[1u32, 3, 64, 4096, 65536]);
            c.stdout_cap = *r.pick(&[1u32, 3, 64, 4096, 65536]);
            c.send_chunks = match r.n(4) { 0 => vec![], 1 => vec![1], 2 => vec![r.r(1, 40) as u32, r.r(1, 300) as u32, 17], _ => vec![r.r(1, 90) as u32] };
            for i in 0..r.n(3) { if r.p(40) { c.ops.push(Op::Req { id: ident(r, 900 + i), method: r.f(&["textDocument/hover", "shutdown", "foo/bar"]), params: Value::Null }); } }
            let id = match r.n(4) { 0 => json!(0), 1 => json!("init"), 2 => json!(i32::MAX), _ => json!(1) };
            c.ops.push(Op::Init { id });
            if r.p(80) { c.ops.push(Op::WaitResp); }
            if r.p(30) { c.ops.push(Op::WaitIdle); }
            c.ops.push(Op::Initialized);
            c.auto_reply = r.p(85);
            let mut w = wl(r);
            w.docs = nd;
            w.ops = r.n(4);
            let mut h = Hist::new(nd);
            let mut k = 10;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            c.ops.push(Op::Req { id: json!(9999), method: "foo/probe".into(), params: Value::Null });
            c.ops.push(Op::WaitIdle);
            if r.p(40) { benign_faults(r, &mut faults); }
            if r.p(20) { fs_faults(r, &mut faults); }
            let s = if r.p(60) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C11" => {
            let mut w = wl(r);
            w.ops = r.r(2, 6);
            w.reqs = 20;
            let mut c = base(r, w.docs);
            if r.p(25) { c.env.push(("RA_LOG_FILE".into(), "/simfs/log/ls.log".into())); if !c.env.iter().any(|e| e.0 == "MOVE_LS_LOG") { c.env.push(("MOVE_LS_LOG".into(), "trace".into())); } }
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            c.ops.push(Op::Req { id: json!(9999), method: "foo/probe".into(), params: Value::Null });
            c.ops.push(Op::WaitIdle);
            if r.p(90) { fs_faults(r, &mut faults); }
            if r.p(20) { benign_faults(r, &mut faults); }
            if c.env.iter().any(|e| e.0 == "RA_LOG_FILE") {
                faults.retain(|f| f.cls != 5 || f.nth > 0); // the log file itself opens
                for _ in 0..r.n(5) { faults.push(Fault { cls: 13, nth: r.n(30) as u32, kind: 2, arg: *r.pick(&[ENOSPC, EIO]) }); }
                if r.p(30) { for n in 0..300 { faults.push(Fault { cls: 13, nth: n, kind: 2, arg: ENOSPC }); } }
            }
            let s = if r.p(50) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C12" => stream_case(r, seed),
        "C21" => {
            // the same messages about some documents, first beside small other documents, then beside large ones
            let (mine, others) = (r.r(1, 2), *r.pick(&[1usize, 1, 1, 2, 2, 3, 3, 8, 8, 25, 25, 70]));
            let mut c = base(r, mine + others);
            if c.stdin_cap.min(c.stdout_cap) <= 64 { c.stdin_cap = 512; c.stdout_cap = 512; }
            hello(r, &mut c);
            let e = *r.pick(&[0usize, 40, 90]);
            let mut small = vec![];
            let mut version = vec![1; mine + others];
            for d in 0..mine + others {
                let t = text(r, 2, e, false);
                c.ops.push(Op::Open { doc: d, version: 1, text: t.clone() });
                small.push(t);
            }
            c.ops.push(Op::WaitIdle);
            c.ops.push(Op::Mark);
            let kinds: Vec<(usize, usize, String)> = (0..r.r(1, 4)).map(|_| { let (s, e) = (*r.pick(&[0usize, 2, 5]), *r.pick(&[0usize, 50, 90])); (r.n(10), r.n(mine), text(r, s, e, false)) }).collect();
            let reps = r.r(2, 4);
            let mut fresh = 0;
            let mut open = vec![true; mine];
            for phase in 0..2 {
                for _ in 0..reps {
                    for (k, d, t) in &kinds {
                        let d = *d;
                        version[d] += 1;
                        match k {
                            0 => { if open[d] { c.ops.push(Op::Close { doc: d }) } else { c.ops.push(Op::Open { doc: d, version: version[d], text: t.clone() }) } open[d] = !open[d]; }
                            1 => c.ops.push(Op::Save { doc: d }),
                            2 => c.ops.push(Op::Req { id: json!(10 + c.ops.len()), method: "textDocument/hover".into(), params: json!({}) }),
                            8 | 9 => {
                                // a document the server has not seen before comes and goes
                                c.docs.push(format!("file:///simfs/w/fresh/m{:03}.move", fresh));
                                fresh += 1;
                                c.ops.push(Op::Open { doc: c.docs.len() - 1, version: 1, text: t.clone() });
                                if *k == 8 { c.ops.push(Op::WaitIdle); c.ops.push(Op::Mark); }
                                c.ops.push(Op::Close { doc: c.docs.len() - 1 });
                            }
                            _ if open[d] => c.ops.push(Op::Change { doc: d, version: version[d], edits: vec![Edit { range: None, text: t.clone() }] }),
                            _ => c.ops.push(Op::Cancel { id: json!("none") }),
                        }
                        c.ops.push(Op::WaitIdle);
                        c.ops.push(Op::Mark);
                    }
                }
                if phase == 1 { break; }
                for d in mine..mine + others {
                    if others > 8 && d % (others / 8) > 0 { continue; }
                    version[d] += 1;
                    let tail = r.f(&["\n    const C: u64 = 1;", "\n    // \u{43c}\u{438}\u{440} 😀", "\n    struct S { a: u8 }", "\n", "\n    fun f() { let a = 1 + 2; }"]);
                    let t = format!("{}\nmodule 0x2::Big {{{}\n}}\n", small[d], tail.repeat(*r.pick(&[15_000usize, 40_000]) / tail.len()));
                    c.ops.push(Op::Change { doc: d, version: version[d], edits: vec![Edit { range: None, text: t }] });
                }
                c.ops.push(Op::WaitIdle);
                c.ops.push(Op::Mark);
            }
            let s = if r.p(65) { sched_calm(r) } else { sched(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C20" => discover_case(r, seed),
        "C22" => {
            let mut w = wl(r);
            w.ops = r.r(1, 10);
            w.reqs = *r.pick(&[15usize, 40]);
            let mut c = base(r, w.docs);
            if r.p(15) { let id = ident(r, 900); c.ops.push(Op::Req { id, method: "foo/early".into(), params: Value::Null }); }
            hello(r, &mut c);
            c.env.clear();
            if let Some(f) = crate::oracle::LOG_FILTERS.get(r.n(crate::oracle::LOG_FILTERS.len() + 1)) { c.env.push(("MOVE_LS_LOG".into(), f.0.into())); }
            if r.p(50) {
                let p = r.f(&["/simfs/w/ls.log", "/simfs/w/new/ls.log", "/simfs/w/new/and/deeper/ls.log", "/simfs/w/old.log", "/simfs/w/w s/m\u{438}r.log"]);
                c.env.push(("RA_LOG_FILE".into(), p.into()));
                c.fs.push(Node { path: "/simfs/w/old.log".into(), dir: false, data: "[ERROR a::b] what an earlier run left\n".repeat(r.n(40)), hex: false, dangling: false, link: false });
            }
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            if r.p(30) { let d = r.n(w.docs); c.ops.push(Op::Note { method: r.f(&["foo/note", "$/setTrace", "workspace/didChangeConfiguration"]).into(), params: json!({"d": d, "t": "line\nbreak \u{2028} \u{1b}[1m"}) }); }
            if r.p(30) { for _ in 0..r.r(1, 3) { c.ops.push(Op::Note { method: r.f(&["textDocument/didClose", "textDocument/didChange"]).into(), params: json!({"textDocument": {"uri": "file:///simfs/w/never_opened.move", "version": 3}, "contentChanges": []}) }); } }
            c.ops.push(Op::WaitIdle);
            match r.n(4) { 0 => { c.ops.push(Op::Shutdown { id: json!(800) }); if r.p(50) { c.ops.push(Op::WaitResp); } c.ops.push(Op::Exit); } 1 => c.ops.push(Op::Exit), _ => {} }
            if r.p(30) { for _ in 0..r.r(1, 20) { faults.push(Fault { cls: *r.pick(&[2, 13]), nth: r.n(40) as u32, kind: 2, arg: EINTR }); } }
            if r.p(30) { benign_faults(r, &mut faults); faults.retain(|f| f.cls != 2 && f.cls != 13 || f.arg == EINTR); }
            let s = if r.p(75) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        "C19" => {
            // the same short part of a session over and over, each time up to the point where the server is idle
            let mut w = wl(r);
            w.ops = r.r(1, 6);
            w.size = *r.pick(&[0usize, 1, 2, 4]);
            w.reqs = *r.pick(&[0usize, 15, 50]);
            w.save = 10;
            w.docs = r.r(1, 3);
            let keep = r.p(50); // documents stay open from one round to the next
            if keep { w.close = 0; }
            let bad = r.p(25); // the round includes misbehaviour
            let rounds = if w.size * w.ops <= 6 { *r.pick(&[100usize, 300]) } else { *r.pick(&[40usize, 80]) };
            let mut c = base(r, 4);
            if c.stdin_cap.min(c.stdout_cap) <= 16 { c.stdin_cap = 64; c.stdout_cap = 512; }
            hello(r, &mut c);
            c.ops.push(Op::WaitIdle);
            let mut h = Hist::new(4);
            let mut k = 10;
            let fixed: Vec<String> = (0..w.docs).map(|_| text(r, w.size, w.errs, false)).collect();
            let round = Rng::new(r.next());
            for _ in 0..rounds {
                let mut q = round.clone();
                let mut ops = vec![];
                for d in 0..4 {
                    h.crlf[d] = false;
                    if !keep || d >= w.docs { h.version[d] = 1; h.text[d] = None; continue; }
                    h.version[d] += 1;
                    let t = fixed[d].clone();
                    ops.push(if h.text[d].is_some() { Op::Change { doc: d, version: h.version[d], edits: vec![Edit { range: None, text: t.clone() }] } } else { Op::Open { doc: d, version: h.version[d], text: t.clone() } });
                    h.text[d] = Some(t);
                }
                traffic(&mut q, &w, &mut h, &mut ops, &mut k);
                if bad { let b = bad_message(&mut q, &h, &c); ops.extend(b); }
                for d in 0..4 { if (!keep && h.text[d].is_some()) || (bad && d >= 2) { ops.push(Op::Close { doc: d }); } }
                c.ops.extend(ops);
                c.ops.push(Op::WaitIdle);
                c.ops.push(Op::Mark);
            }
            let calm = r.p(65);
            if !calm && r.p(40) { benign_faults(r, &mut faults); }
            let s = if calm { sched_calm(r) } else { sched(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
        _ => {
            // C13: hostile document texts next to a healthy document
            let mut w = wl(r);
            w.docs = r.r(1, 3);
            w.wild = *r.pick(&[40usize, 80, 100]);
            w.ops = r.r(3, 24);
            w.ranged = *r.pick(&[0usize, 50, 90]);
            w.size = *r.pick(&[1usize, 3, 8]);
            w.hostile = *r.pick(&[0usize, 50, 90, 90]);
            let mut c = base(r, w.docs);
            hello(r, &mut c);
            let mut h = Hist::new(w.docs);
            let mut k = 10;
            if r.p(25) {
                // type a document keystroke by keystroke
                let t = text(r, 2, 20, false);
                let d = r.n(w.docs);
                h.version[d] = 1;
                c.ops.push(Op::Open { doc: d, version: 1, text: String::new() });
                let mut cur = String::new();
                for ch in t.chars().take(r.r(20, 160)) {
                    let l = cur.matches('\n').count() as u32;
                    let col: usize = cur.rsplit('\n').next().unwrap_or("").chars().map(char::len_utf16).sum();
                    h.version[d] += 1;
                    c.ops.push(Op::Change { doc: d, version: h.version[d], edits: vec![Edit { range: Some([l, col as u32, l, col as u32]), text: ch.to_string() }] });
                    cur.push(ch);
                }
                h.text[d] = Some(cur);
            }
            if r.p(16) {
                let d = r.n(w.docs);
                if h.text[d].is_some() { c.ops.push(Op::Close { doc: d }); }
                let t = long_text(r);
                h.version[d] += 1;
                h.text[d] = Some(t.clone());
                c.ops.push(Op::Open { doc: d, version: h.version[d], text: t });
            }
            traffic(r, &w, &mut h, &mut c.ops, &mut k);
            c.ops.push(Op::WaitIdle);
            let s = if r.p(50) { sched(r) } else { sched_calm(r) };
            finish_case(p, seed, s, faults, World::Server(c))
        }
    }
}
/// Deep nesting: one or two openers repeated where the grammar recurses, closed or not.
fn deep(r: &mut Rng) -> String {
    let (pre, ops, post): (&str, &[(&str, &str)], &str) = *r.pick(&[
        ("module 0x1::M { fun f() { ", EXPR_NEST, "; let } }"),
        ("module 0x1::M { fun f() { let a = ", EXPR_NEST, "; let } }"),
        ("script { fun main() { ", EXPR_NEST, " } fun }"),
        ("module 0x1::M { fun f() { let ", PAT_NEST, " = 1; let } }"),
        ("module 0x1::M { fun f() { let x: ", TYPE_NEST, " = 1; let } }"),
        ("module 0x1::M { fun f(x: ", TYPE_NEST, ") { let } }"),
        ("module 0x1::M { fun f(): ", TYPE_NEST, " { let } }"),
        ("module 0x1::M { struct S { x: ", TYPE_NEST, " } fun }"),
        ("module 0x1::M { fun f() { g<", TYPE_NEST, ">(1); let } }"),
        ("module 0x1::M { struct S<", TYPE_NEST, "> { } fun }"),
        ("module 0x1::M { ", ITEM_NEST, " fun }"),
        ("", ITEM_NEST, ""),
    ]);
    let n = *r.pick(&[40usize, 120, 250, 600, 1500, 4000]);
    let (o, c) = *r.pick(ops);
    let (o2, c2) = if r.p(30) { *r.pick(ops) } else { (o, c) };
    let mut s = pre.to_string();
    for i in 0..n { s.push_str(if i % 2 == 0 { o } else { o2 }) }
    if r.p(80) { s.push_str(&r.f(&["x", "1", "x: u8", "u8", "", "0x1::A::B"])) }
    if r.p(60) { let k = if r.p(70) { n } else { r.n(n) }; for i in (n - k..n).rev() { s.push_str(if i % 2 == 0 { c } else { c2 }) } }
    s.push_str(post);
    s
}
const EXPR_NEST: &[(&str, &str)] = &[("(", ")"), ("!", ""), ("{", "}"), ("x + ", ""), ("x(", ")"), ("A { x: ", " }"), ("((", "))"), ("-(", ")"), ("{(", ")}"), ("f(x, ", ")"), ("if (", ") 1 else 2"), ("if (x) ", " else 1"), ("while (", ") {}"), ("while (x) ", ""), ("loop ", ""), ("loop {", "}"), ("x = ", ""), ("return ", ""), ("abort ", ""), ("*", ""), ("&", ""), ("&mut ", ""), ("move ", ""), ("copy ", ""), ("x as A<", ">"), ("a[", "]"), ("f<A<", ">>"), ("x && ", ""), ("x == ", ""), ("1, ", ""), ("(1, ", ")"), ("{ let x = ", "; }"), ("spec {", "}"), ("x.y.", ""), ("0x1::A::", "")];
const PAT_NEST: &[(&str, &str)] = &[("(", ")"), ("A { x: ", " }"), ("(x, ", ")"), ("A { x, y: ", " }"), ("mut ", ""), ("&", "")];
const TYPE_NEST: &[(&str, &str)] = &[("A<", ">"), ("&mut ", ""), ("(", ")"), ("0x1::A::B<", ">"), ("A<u8, ", ">"), ("& ", ""), ("vector<", ">"), ("T: ", "")];
const ITEM_NEST: &[(&str, &str)] = &[("module 0x1::M {", "}"), ("module ", ""), ("script {", "}"), ("address 0x1 {", "}"), ("use 0x1::{", "};"), ("fun f() {", "}"), ("struct S {", "}"), ("spec {", "}"), ("spec module {", "}"), ("{", "}"), ("(", ")"), ("[", "]"), ("<", ">"), ("#[", "]"), ("/*", "*/"), ("public ", ""), ("friend ", ""), ("const A: ", ";")];
fn long_text(r: &mut Rng) -> String {
    if r.p(60) { return deep(r); }
    match r.n(8) {
        5 => {
            let c = r.f(&["(", "!", "{", "x + ", "x(", "A { x: ", "let (", "let A { x: ", "((", "-(", "{(", "f(x, "]);
            format!("module 0x1::M {{ fun f() {{ {} }} }}", c.repeat(*r.pick(&[300usize, 900, 3000])))
        }
        6 => {
            let c = r.f(&["+1", ".y", "()", "::y", "(x)", " * 2", " == 3"]);
            format!("module 0x1::M {{ fun f() {{ x{}; let }} }}", c.repeat(*r.pick(&[500usize, 2500, 8000])))
        }
        7 => {
            let c = r.f(&["&", "&mut ", "x: ", "<", "A<", "//\n", "\n", "/**/", " ", ";", "}", "fun ", "module ", "struct S {"]);
            let n = *r.pick(&[1000usize, 4000, 10000]);
            match r.n(3) { 0 => c.repeat(n), 1 => format!("module 0x1::M {{ fun f(x: {}", c.repeat(n)), _ => format!("module 0x1::M {{ struct S {{ x: {} }} }}", c.repeat(n)) }
        }
        0 => text(r, 150, 30, false),
        1 => format!("module 0x1::M {{\n    fun f() {{\n{}    }}\n}}\n", "        x = 1 + 2 * (3 - 4);\n".repeat(r.r(100, 600))),
        2 => format!("module 0x1::M {{ fun f() {{ {}1{} }} }}", "(".repeat(r.r(10, 120)), ")".repeat(r.r(0, 120))),
        3 => format!("// {}\nmodule 0x1::M {{}}", "é".repeat(r.r(1000, 20000))),
        _ => format!("module 0x1::M {{\n{}}}\n", "    const C: u64 = 1;\n".repeat(r.r(200, 1500))),
    }
}
/// Folders, projects and oddities of a file system, callers, failing calls, and changes in between.
fn discover_case(r: &mut Rng, seed: u64) -> Case {
    let node = |p: &str, dir: bool, data: String| Node { path: p.into(), dir, data, hex: false, dangling: false, link: false };
    let mut fs: Vec<Node> = vec![];
    let mut dirs: Vec<String> = vec!["/simfs".into()];
    let manifest = |r: &mut Rng| -> (String, bool) {
        match r.n(10) {
            0 => (hex(format!("[package]\nname = \"{}\"", "x").as_bytes()) + "ff", true),
            1 => (r.f(&["[package", "", "[package]\nname = 3\n", "package = {}\n", "[package]\n[package]\n"]), false),
            _ => {
                let mut m: String = "[package]\n".into();
                for k in ["name", "account_address", "dove_version", "dialect", "blockchain_api"] { if r.p(60) { let v = r.f(&["", "a", "pkg", "0x1", "\u{43c}\u{438}\u{440}", "pont", ">=1.2", "a b"]); let n = r.n(100); m.push_str(&format!("{} = \"{}{}\"\n", k, v, n)); } }
                if r.p(10) { m.push_str(&format!("# {}\n", "\u{e9}".repeat(r.r(100, 20000)))); }
                (m, false)
            }
        }
    };
    let toml = |r: &mut Rng, d: &str, fs: &mut Vec<Node>| { let (data, h) = manifest(r); fs.push(Node { path: format!("{}/Dove.toml", d), dir: false, data, hex: h, dangling: false, link: false }); };
    let names = ["a", "b", "proj", "with space", "\u{43c}\u{438}\u{440}", ".hidden", "src", "a.b", "bad\u{f7ff}\u{f7fe}", "A", "Dove", "node_modules", "target", "z\u{301}"];
    let many = r.p(3);
    for i in 0..if many { 150 } else { r.r(1, 10) } {
        let up = if many { if i == 0 { "/simfs".into() } else { dirs[1].clone() } } else { dirs[r.n(dirs.len())].clone() };
        let d = format!("{}/{}{}", up, names[r.n(names.len())], if many || r.p(30) { i.to_string() } else { String::new() });
        if dirs.contains(&d) || d.len() > 200 { continue; }
        fs.push(Node { path: d.clone(), dir: true, data: String::new(), hex: false, dangling: false, link: !many && r.p(12) });
        let full = if up == "/simfs" { r.p(25) } else { r.p(55) };
        if full { toml(r, &d, &mut fs); }
        else if r.p(6) { fs.push(Node { dangling: true, ..node(&format!("{}/Dove.toml", d), false, String::new()) }); }
        else if r.p(4) { fs.push(node(&format!("{}/Dove.toml", d), true, String::new())); }
        if r.p(20) { fs.push(node(&format!("{}/{}", d, r.f(&["dove.toml", "Dove.toml.bak", "Move.toml", "x.move", "Cargo.toml"])), false, "[package]\nname = \"no\"\n".into())); }
        dirs.push(d);
    }
    if r.p(8) { toml(r, "/simfs", &mut fs); }
    if r.p(15) { fs.push(Node { dangling: true, ..node("/simfs/gone", false, String::new()) }); }
    if r.p(30) { fs.push(node("/simfs/file.txt", false, "x".into())); }
    // directories list their entries in any order
    for i in (1..fs.len()).rev() { let j = r.n(i + 1); fs.swap(i, j); }
    let tomls: Vec<String> = fs.iter().filter(|n| n.path.ends_with("/Dove.toml") && !n.dir && !n.dangling).map(|n| n.path.clone()).collect();
    let root = |r: &mut Rng| -> String {
        match r.n(20) {
            0 => "/simfs/missing/dir".into(),
            1 => format!("{}/", dirs[r.n(dirs.len())]),
            2 => "/simfs/file.txt".into(),
            3 if !tomls.is_empty() => tomls[r.n(tomls.len())].clone(),
            5 => format!("{}/nothing", dirs[r.n(dirs.len())]),
            _ => dirs[r.n(dirs.len())].clone(),
        }
    };
    let threads = (0..if r.p(25) { 2 } else { 1 }).map(|_| (0..r.r(1, 3)).map(|_| match r.n(8) { 0 => DCall::One { root: root(r) }, 1 => DCall::Single { root: root(r) }, _ => DCall::All { roots: (0..*r.pick(&[0usize, 1, 1, 2, 2, 3, 5, 12])).map(|_| root(r)).collect() } }).collect()).collect();
    let mut faults = vec![];
    if r.p(60) {
        for _ in 0..r.r(1, 4) {
            let cls = *r.pick(&[4, 4, 5, 6, 6, 7, 7, 8, 8]);
            let nth = r.n(if many { 200 } else { 14 }) as u32;
            match r.n(10) {
                0 => faults.push(Fault { cls, nth, kind: 5, arg: 2_000_000_000 }),
                1 | 2 if cls == 6 => faults.push(Fault { cls, nth, kind: 1, arg: r.r(1, 30) as i64 }),
                3 if cls == 5 || cls == 6 => faults.push(Fault { cls, nth, kind: 2, arg: EINTR }),
                _ => faults.push(Fault { cls, nth, kind: 2, arg: *r.pick(&[ENOENT, EACCES, EIO, EMFILE, 40, 23, 36, 20, 116]) }),
            }
        }
    }
    let mut events = vec![];
    if r.p(30) {
        let what: Vec<String> = if r.p(60) && !tomls.is_empty() { tomls.clone() } else { dirs[1..].to_vec() };
        for _ in 0..r.r(1, 3) {
            for _ in 0..r.n(30) { events.push(DEvent::Nothing); }
            if what.is_empty() { break; }
            let path = what[r.n(what.len())].clone();
            events.push(if r.p(50) { DEvent::Hide { path } } else { DEvent::Show { path } });
        }
    }
    let mut s = if r.p(60) { sched(r) } else { sched_calm(r) };
    s.starve_id = -1;
    finish_case("C20", seed, s, faults, World::Discover(DiscoverCase { fs, untyped: r.p(25), threads, events }))
}
fn stream_case(r: &mut Rng, seed: u64) -> Case {
    let mut faults = vec![];
    let mut script = vec![];
    let mut open = [false, true, true];
    let line = |r: &mut Rng| -> Vec<u8> {
        let n = *r.pick(&[0usize, 1, 3, 20, 200]);
        let mut v: Vec<u8> = match r.n(6) { 0 => "é😀".repeat(n / 4).into_bytes(), 1 => vec![0xff; n.min(5)], _ => (0..n).map(|_| b'a' + r.n(26) as u8).collect() };
        match r.n(8) { 0 => {} 1 => v.extend(b"\r\n"), 2 => v.extend(b"\n\n"), _ => v.push(b'\n') }
        v
    };
    let big = r.p(10);
    for _ in 0..r.r(0, 14) {
        let s = 1 + r.n(2) as u8;
        if r.p(7) { script.push(CStep::Pause); }
        if r.p(2) { script.push(CStep::Exit); }
        if r.p(6) { open[s as usize] = false; script.push(CStep::Close { s }); continue; }
        if !open[s as usize] { continue; }
        let mut b = vec![];
        for _ in 0..r.r(1, if big { 60 } else { 4 }) { b.extend(line(r)); }
        if big && r.p(30) { b.extend(vec![b'z'; r.r(4000, 200_000)]); b.push(b'\n'); }
        // split the bytes anywhere, also inside characters
        while !b.is_empty() { let k = if r.p(50) { b.len() } else { r.r(1, b.len()) }; let rest = b.split_off(k); script.push(CStep::Write { s, hex: hex(&b) }); b = rest; }
    }
    for _ in 0..r.n(6) {
        match r.n(6) {
            0 | 1 => faults.push(Fault { cls: 9, nth: r.n(12) as u32, kind: 2, arg: EINTR }),
            2 | 3 => faults.push(Fault { cls: 10, nth: r.n(20) as u32, kind: if r.p(60) { 2 } else { 1 }, arg: if r.p(50) { EINTR } else { 4 } }),
            4 => faults.push(Fault { cls: 15, nth: 0, kind: 2, arg: EINTR }),
            _ => faults.push(Fault { cls: 10, nth: r.n(20) as u32, kind: 1, arg: r.r(1, 9) as i64 }),
        }
    }
    if r.p(4) { faults.push(Fault { cls: 14, nth: 0, kind: 2, arg: *r.pick(&[ENOENT, EACCES, 11]) }); }
    if r.p(4) { faults.push(Fault { cls: *r.pick(&[9, 10]), nth: r.n(10) as u32, kind: 2, arg: EIO }); }
    let status = match r.n(4) { 0 => 256, 1 => 9, 2 => (r.n(256) as i32) << 8, _ => 0 };
    let mut s = sched(r);
    s.starve_id = *r.pick(&[-1, -1, 0, 67]);
    let total: usize = script.iter().map(|x| if let CStep::Write { hex, .. } = x { hex.len() / 2 } else { 0 }).sum();
    let pipe_cap = if total > 20_000 { *r.pick(&[65536u32, 16384]) } else { *r.pick(&[65536u32, 4096, 100, 1]) };
    finish_case("C12", seed, s, faults, World::Stream(StreamCase { script, status, pipe_cap }))
}

/// Messages of a faulty client: lost, duplicated, reordered or garbled notifications, all well framed.
fn bad_message(r: &mut Rng, h: &Hist, c: &ServerCase) -> Vec<Op> {
    let good = r.n(2);
    let hostile = 2 + r.n(2);
    let guri = c.docs[good].clone();
    let huri = c.docs[hostile].clone();
    let ht = |r: &mut Rng| text(r, 3, 40, false);
    let note = |m: &str, p: Value| vec![Op::Note { method: m.into(), params: p }];
    match r.n(20) {
        // several edits at any position, also inverted ones, in one notification about a document with multi-byte text
        17 | 18 | 19 => {
            let mut t = String::new();
            for _ in 0..r.r(1, 8) { for _ in 0..r.n(8) { t.push(*r.pick(&['a', 'é', '😀', '日', ' ', ';', '{', 'x'])); } t.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", ""])); }
            let n = t.lines().count() + 2;
            let mut edits = vec![];
            for _ in 0..r.r(1, 5) {
                if r.p(8) { edits.push(Edit { range: None, text: ht(r) }); continue; }
                let at = |r: &mut Rng| (r.n(n) as u32, r.n(14) as u32);
                let (a, b) = (at(r), at(r));
                let (a, b) = if r.p(60) && b < a { (b, a) } else { (a, b) };
                edits.push(Edit { range: Some([a.0, a.1, b.0, b.1]), text: r.f(&["", "", "x", "é", "😀", "日本\n", "\n", "\r\n"]) });
            }
            let mut v = vec![Op::Open { doc: hostile, version: 1, text: t }, Op::Change { doc: hostile, version: 2, edits }];
            if r.p(50) { v.push(Op::Change { doc: hostile, version: 3, edits: vec![Edit { range: None, text: ht(r) }] }); }
            v
        }
        // documents that are not open
        0 => { if h.text[good].is_none() { vec![Op::Change { doc: good, version: 5, edits: vec![Edit { range: None, text: ht(r) }] }] } else { vec![Op::Change { doc: hostile, version: 5, edits: vec![Edit { range: Some([0, 0, 0, 0]), text: "x".into() }] }] } }
        1 => vec![Op::Close { doc: hostile }],
        2 => vec![Op::Close { doc: hostile }, Op::Close { doc: hostile }],
        // opened twice, or reordered
        3 => vec![Op::Open { doc: hostile, version: 1, text: ht(r) }, Op::Open { doc: hostile, version: 2, text: ht(r) }],
        4 => vec![Op::Change { doc: hostile, version: 2, edits: vec![Edit { range: None, text: ht(r) }] }, Op::Open { doc: hostile, version: 1, text: ht(r) }],
        // edits outside the document
        5 => { let t = ht(r); let n = t.lines().count() as u32; let rg = match r.n(5) { 0 => [n + 5, 0, n + 5, 0], 1 => [0, 100000, 0, 100000], 2 => [1, 0, 0, 0], 3 => [0, 0, n + 9, 3], _ => [u32::MAX, u32::MAX, u32::MAX, u32::MAX] };
            vec![Op::Open { doc: hostile, version: 1, text: t }, Op::Change { doc: hostile, version: 2, edits: vec![Edit { range: Some(rg), text: "x".into() }] }] }
        6 => vec![Op::Open { doc: hostile, version: 1, text: "// 😀é\nmodule".into() }, Op::Change { doc: hostile, version: 2, edits: vec![Edit { range: Some([0, 4, 0, 4]), text: "y".into() }] }],
        // responses to requests never made
        7 => vec![Op::Resp { id: match r.n(3) { 0 => json!(77), 1 => json!("nobody"), _ => json!(0) }, error: r.p(50) }],
        // malformed parameters
        8 => note(&r.f(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "$/cancelRequest", "window/workDoneProgress/cancel", "textDocument/didSave"]), match r.n(6) { 0 => Value::Null, 1 => json!({}), 2 => json!([1, 2]), 3 => json!("x"), 4 => json!({"textDocument": 5}), _ => json!({"id": {"a": 1}}) }),
        9 => note("textDocument/didChange", match r.n(4) { 0 => json!({"textDocument": {"uri": guri, "version": "three"}, "contentChanges": []}), 1 => json!({"textDocument": {"uri": guri}}), 2 => json!({"textDocument": {"uri": guri, "version": 99}, "contentChanges": [{"range": {"start": {"line": -1, "character": 0}, "end": {"line": 0, "character": 0}}, "text": "boo"}]}), _ => json!({"textDocument": {"uri": guri, "version": 99}, "contentChanges": [{"rangeLength": 3}]}) }),
        10 => note("textDocument/didOpen", match r.n(3) { 0 => json!({"textDocument": {"uri": huri, "version": 1}}), 1 => json!({"textDocument": {"uri": "not a uri", "languageId": "move", "version": 1, "text": ""}}), _ => json!({"textDocument": {"uri": huri, "languageId": "move", "version": 1, "text": 7}}) }),
        // other URI schemes
        11 => { let u = r.f(&["untitled:Untitled-1", "http://example.com/a.move", "git:/simfs/w/a.move?x", "file://host/share/a.move", "data:,x", "file:///", "file:///simfs/w/%FF%FE.move", "file:///simfs/w/%00.move", "file:", "file:///C:/x.move", "FILE:///simfs/w/upper.move", "file://localhost/simfs/w/lh.move", "file:///simfs/w/../../../up.move", "vscode-notebook-cell:/simfs/w/n#x", "file:///simfs/w/q.move?query#frag", "file:///simfs/w/%zz.move", "mailto:x@y", "file://[::1]/a.move", "untitled:", "file:///simfs/w/dir/"]); match r.n(5) { 3 | 4 => { let mut v = note("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "move", "version": 1, "text": ht(r)}})); v.push(Op::WaitIdle); v.extend(note("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": ht(r)}]}))); if r.p(50) { v.extend(note("textDocument/didClose", json!({"textDocument": {"uri": u}}))); } v } 0 => note("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "move", "version": 1, "text": ht(r)}})), 1 => note("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": "x"}]})), _ => note("textDocument/didClose", json!({"textDocument": {"uri": u}})) } }
        // unknown methods
        12 => note(&r.f(&["foo/bar", "$/setTrace", "workspace/didChangeConfiguration", "", "textDocument/didopen"]), match r.n(3) { 0 => Value::Null, 1 => json!({}), _ => json!([{}]) }),
        13 => vec![Op::Req { id: json!(3000 + r.n(1000)), method: r.f(&["shutdownn", "", "textDocument/hover", "initialize", "exit", "initialized", "textDocument/didOpen", "$/cancelRequest", "textDocument/publishDiagnostics"]), params: match r.n(3) { 0 => json!("s"), 1 => json!({"a": [1]}), _ => Value::Null } }],
        14 => match r.n(6) {
            0 => vec![Op::Req { id: json!(8000 + r.n(100)), method: "shutdown".into(), params: match r.n(3) { 0 => json!({"a": 1}), 1 => json!("x"), _ => json!([]) } }],
            1 => note(&r.f(&["shutdown", "initialize", "textDocument/hover"]), Value::Null),
            2 => { let id = 8200 + r.n(100); vec![Op::Body { text: format!(r#"{{"jsonrpc":"2.0","id":{},"method":"textDocument/hover","params":null}}"#, id) }] }
            _ => vec![Op::Cancel { id: json!("never") }, Op::Cancel { id: json!(123456) }],
        },
        15 => vec![Op::Initialized, Op::Save { doc: hostile }],
        _ => vec![Op::Body { text: match r.n(4) { 0 => r#"{"jsonrpc":"2.0","method":"foo"}"#.into(), 1 => r#"{"jsonrpc":"2.0","id":4001,"method":"foo/extra","params":{},"extra":[1,2,3]}"#.into(), 2 => r#"{"method":"$/x","params":null}"#.into(), _ => format!(r#"{{"jsonrpc":"2.0","method":"textDocument/didSave","params":{{"textDocument":{{"uri":{:?}}},"text":"{}"}}}}"#, huri, "y".repeat(r.n(3000))) } }],
    }
}

/// Signature used to keep one violation while minimising and to match known findings.
pub fn signature(v: &Viol, err: &str) -> String {
    match v.kind.as_str() { "worker-panic" | "died" | "panic" | "query-panic" | "exit-status" => format!("{}@{}", v.kind, crate::oracle::panic_loc(err)), "text-panic" => format!("{}@{}", v.kind, v.msg.rsplit(" at ").next().unwrap_or("").rsplit("crates/").next().unwrap_or("")), _ => v.kind.clone() }
}
