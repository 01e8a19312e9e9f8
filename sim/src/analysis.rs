//! World for the analysis host: one writer thread applies changes, reader threads query snapshots.
use crate::case::*;
use crate::ffi::*;
use crate::run::log;
use base_db::{Change, SourceRoot};
use ide::{Analysis, AnalysisHost};
use serde_json::{json, Value};
use std::sync::mpsc;
use std::sync::Arc;
use vfs::{file_set::FileSet, FileId, VfsPath};

static mut AC: Option<AnalysisCase> = None;
pub fn install(c: AnalysisCase) { unsafe { AC = Some(c) } }

fn lg(v: impl FnOnce() -> Value) { unsafe { sim_enter() }; log(v()); unsafe { sim_leave() } }

pub fn roots(n: usize) -> Vec<SourceRoot> {
    let mut fs = FileSet::default();
    for i in 0..n { fs.insert(FileId(i as u32), VfsPath::new_virtual_path(format!("/f{}.move", i))); }
    vec![SourceRoot::new_local(fs)]
}
/// Layouts of source roots: 1 one local, 2 a local and a library root, 3 one library, 4 library first, 5 two local roots.
fn layout(n: usize, k: u8) -> Vec<SourceRoot> {
    let set = |keep: &dyn Fn(usize) -> bool| { let mut fs = FileSet::default(); for i in (0..n).filter(|i| keep(*i)) { fs.insert(FileId(i as u32), VfsPath::new_virtual_path(format!("/f{}.move", i))); } fs };
    let (a, b) = (set(&|i| i % 2 == 0), set(&|i| i % 2 == 1));
    match k { 2 => vec![SourceRoot::new_local(a), SourceRoot::new_library(b)], 3 => vec![SourceRoot::new_library(set(&|_| true))], 4 => vec![SourceRoot::new_library(b), SourceRoot::new_local(a)], 5 => vec![SourceRoot::new_local(b), SourceRoot::new_local(a)], _ => roots(n) }
}
pub fn diag_json(d: &ide_diagnostics::Diagnostic) -> Value {
    let sev = match d.severity { ide_diagnostics::Severity::Error => 1, _ => 4 };
    json!([u32::from(d.range.start()), u32::from(d.range.end()), d.message, d.code.as_str(), sev])
}
fn query(a: &Analysis, file: usize, kind: u8) -> Value {
    let f = FileId(file as u32);
    match kind {
        0 => match a.diagnostics(f) { Ok(v) => Value::Array(v.iter().map(diag_json).collect()), Err(_) => json!("cancelled") },
        _ => match a.file_line_index(f) {
            Ok(ix) => {
                let mut v = vec![];
                let mut off = 0u32;
                while off <= 600 { let lc = ix.line_col(off.into()); if kind == 2 { let u = ix.to_utf16(lc); v.push(json!([u.line, u.col])); } else { v.push(json!([lc.line, lc.col])); } off += 13; }
                Value::Array(v)
            }
            Err(_) => json!("cancelled"),
        },
    }
}

enum Job { Run { snap: usize, a: Analysis, q: Vec<(usize, u8)> }, Stop }

pub fn entry() -> i32 {
    #[allow(static_mut_refs)]
    let c = unsafe { AC.clone().unwrap() };
    let mut host = AnalysisHost::new();
    let mut ch = Change::new();
    ch.set_roots(roots(c.files));
    for i in 0..c.files { ch.change_file(FileId(i as u32), Some(Arc::new(c.initial.get(i).cloned().unwrap_or_default()))); }
    host.apply_change(ch);
    lg(|| json!({"t":"ready"}));
    let (ack_tx, ack_rx) = mpsc::channel::<usize>();
    let mut tx = vec![];
    let mut handles = vec![];
    for r in 0..c.readers {
        let (t, rx) = mpsc::channel::<Job>();
        tx.push(t);
        let ack = ack_tx.clone();
        handles.push(std::thread::Builder::new().name(format!("reader{}", r)).stack_size(8 << 20).spawn(move || {
            while let Ok(Job::Run { snap, a, q }) = rx.recv() {
                for (file, kind) in q {
                    lg(|| json!({"t":"q0","snap":snap,"r":r}));
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| query(&a, file, kind)));
                    match res {
                        Ok(v) => lg(|| json!({"t":"q","snap":snap,"r":r,"file":file,"kind":kind,"v":v})),
                        Err(_) => lg(|| json!({"t":"p","snap":snap,"r":r,"file":file,"kind":kind})),
                    }
                }
                drop(a);
                lg(|| json!({"t":"d","snap":snap}));
                let _ = ack.send(snap);
            }
        }).unwrap());
    }
    let mut outstanding = 0;
    for (i, st) in c.steps.iter().enumerate() {
        match st {
            AStep::Snap { reader, queries } => {
                let a = host.analysis();
                lg(|| json!({"t":"snap","i":i}));
                outstanding += 1;
                tx[*reader % c.readers.max(1)].send(Job::Run { snap: i, a, q: queries.clone() }).unwrap();
            }
            AStep::Apply { changes, roots: rt } => {
                lg(|| json!({"t":"a0","i":i}));
                let mut ch = Change::new();
                if *rt > 0 { ch.set_roots(layout(c.files, *rt)); }
                for (f, t) in changes { ch.change_file(FileId(*f as u32), t.clone().map(Arc::new)); }
                host.apply_change(ch);
                lg(|| json!({"t":"a1","i":i}));
            }
            AStep::CancelAll => { lg(|| json!({"t":"a0","i":i})); host.request_cancellation(); lg(|| json!({"t":"a1","i":i})); }
            AStep::Drain => { while outstanding > 0 { ack_rx.recv().unwrap(); outstanding -= 1; } }
            AStep::Local { file, kind } => {
                let a = host.analysis();
                let v = query(&a, *file, *kind);
                lg(|| json!({"t":"snap","i":i}));
                lg(|| json!({"t":"q","snap":i,"r":-1,"file":file,"kind":kind,"v":v}));
            }
        }
    }
    for t in &tx { let _ = t.send(Job::Stop); }
    for h in handles { let _ = h.join(); }
    drop(host);
    lg(|| json!({"t":"end"}));
    0
}
