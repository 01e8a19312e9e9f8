//! Independent reference models: the client's text under LSP edits, position encodings, from-scratch analysis.
use crate::analysis::{diag_json, roots};
use crate::case::*;
use base_db::Change;
use ide::AnalysisHost;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use vfs::FileId;

/// Byte offset of an LSP UTF-16 position in `text`; a character past the end of its line means the end of the line.
/// `None` if the line does not exist or the position splits a surrogate pair, and for the character right after a line
/// break, which the existing unit tests pin to the start of the next line where LSP says the end of this one.
pub fn offset16(text: &str, line: u32, ch: u32) -> Option<usize> {
    let mut start = 0usize;
    for _ in 0..line { start += text[start..].find('\n')? + 1; }
    let rest = &text[start..];
    let end = rest.find('\n').unwrap_or(rest.len());
    let mut l = &rest[..end];
    if let Some(x) = l.strip_suffix('\r') { if start + end < text.len() { l = x; } }
    let mut u = 0u32;
    for (i, c) in l.char_indices() {
        if u == ch { return Some(start + i); }
        if u > ch { return None; }
        u += c.len_utf16() as u32;
    }
    if u > ch { return None; }
    let brk = (rest.len().min(end + 1) - l.len()) as u32;
    if brk > 0 && end < rest.len() && ch == u + brk { return None; }
    Some(start + l.len())
}
/// LSP edits applied to the client's text. `None` if an edit is not legal.
pub fn apply_edits(text: &str, edits: &[Edit]) -> Option<String> {
    let mut t = text.to_string();
    for e in edits {
        match e.range {
            None => t = e.text.clone(),
            Some([a, b, c, d]) => {
                let s = offset16(&t, a, b)?;
                let f = offset16(&t, c, d)?;
                if s > f { return None; }
                t = format!("{}{}{}", &t[..s], e.text, &t[f..]);
            }
        }
    }
    Some(t)
}
pub fn normalise(text: &str) -> String { text.replace("\r\n", "\n") }

/// (line, column) of a byte offset in LF text; the column in UTF-16 units or bytes.
pub fn position(text: &str, off: usize, utf8: bool) -> Option<(u32, u32)> {
    if off > text.len() || !text.is_char_boundary(off) { return None; }
    let before = &text[..off];
    let line = before.bytes().filter(|b| *b == b'\n').count() as u32;
    let ls = before.rfind('\n').map_or(0, |i| i + 1);
    let col = if utf8 { off - ls } else { before[ls..].chars().map(char::len_utf16).sum() };
    Some((line, col as u32))
}

#[derive(Clone, Debug)]
pub enum Ref { Diags(Vec<Value>), Panic(String) }

static mut LAST_PANIC: String = String::new();
#[allow(static_mut_refs)]
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| unsafe {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC = format!("{} at {}", m, loc);
    }));
}
/// Analyse a text from scratch with the real analysis, outside any server: a fresh host holding only this file.
#[allow(static_mut_refs)]
pub fn analyse(text: &str) -> Ref {
    let t = normalise(text);
    let r = std::panic::catch_unwind(|| {
        let mut host = AnalysisHost::new();
        let mut ch = Change::new();
        ch.set_roots(roots(1));
        ch.change_file(FileId(0), Some(Arc::new(t.clone())));
        host.apply_change(ch);
        let a = host.analysis();
        a.diagnostics(FileId(0)).map(|v| v.iter().map(diag_json).collect::<Vec<_>>())
    });
    match r {
        Ok(Ok(v)) => Ref::Diags(v),
        Ok(Err(_)) => Ref::Panic("cancelled without a change".into()),
        Err(_) => Ref::Panic(unsafe { LAST_PANIC.clone() }),
    }
}
/// What the server should publish for `text`: an ordered list of (range, message, code, severity, source).
pub fn expected(text: &str, utf8: bool) -> Result<Vec<Value>, String> {
    let t = normalise(text);
    match analyse(text) {
        Ref::Panic(m) => Err(m),
        Ref::Diags(v) => {
            let mut out = vec![];
            for d in v {
                let (s, e) = (d[0].as_u64().unwrap() as usize, d[1].as_u64().unwrap() as usize);
                let (Some(a), Some(b)) = (position(&t, s, utf8), position(&t, e, utf8)) else { return Err(format!("diagnostic range {}..{} is not a span of the text", s, e)) };
                out.push(json!([[a.0, a.1, b.0, b.1], d[2], d[3], d[4], "move-language-server"]));
            }
            Ok(out)
        }
    }
}
/// A received publishDiagnostics in the same form.
pub fn received(m: &Value) -> Vec<Value> {
    m["params"]["diagnostics"].as_array().cloned().unwrap_or_default().iter().map(|d| {
        let r = &d["range"];
        json!([[r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]], d["message"], d["code"], d["severity"], d["source"]])
    }).collect()
}

/// Decoded path of a file URI, used to compare URIs irrespective of their escaping.
pub fn uri_path(u: &str) -> Option<String> {
    let r = u.strip_prefix("file://")?;
    let b = r.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            if let Ok(x) = u8::from_str_radix(r.get(i + 1..i + 3)?, 16) { o.push(x); i += 3; continue; }
        }
        o.push(b[i]);
        i += 1;
    }
    Some(String::from_utf8_lossy(&o).into_owned())
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub open: bool,
    pub opens: u32,
    pub version: i32,
    pub text: String,
    /// every (version, text) the document has had
    pub hist: Vec<(i32, String)>,
    /// an operation on it was not legal: its text is no longer determined
    pub wild: bool,
}
#[derive(Default)]
pub struct Docs { pub d: Vec<Doc> }
impl Docs {
    pub fn new(n: usize) -> Docs { Docs { d: vec![Doc::default(); n] } }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Open { doc, version, text } => {
                let d = &mut self.d[*doc];
                d.wild = false;
                d.open = true;
                d.opens += 1;
                d.version = *version;
                d.text = text.clone();
                d.hist.push((*version, text.clone()));
            }
            Op::Change { doc, version, edits } => {
                let d = &mut self.d[*doc];
                if !d.open { return; } // a change for a document that is not open is ignored
                d.version = *version;
                // a replacement of the whole text determines it again, whatever came before
                let from = edits.iter().rposition(|e| e.range.is_none()).unwrap_or(0);
                if edits.get(from).map_or(false, |e| e.range.is_none()) { d.wild = false; }
                match apply_edits(&d.text, &edits[from..]) { Some(t) => d.text = t, None => d.wild = true }
                d.hist.push((*version, d.text.clone()));
            }
            Op::Close { doc } => self.d[*doc].open = false,
            _ => {}
        }
    }
}
/// `expected`, computed in a process of its own, so that nothing an earlier analysis left behind can colour it.
fn expected_fresh(text: &str, utf8: bool) -> Result<Vec<Value>, String> {
    const SIZE: usize = 8 << 20;
    static mut BUF: *mut u8 = std::ptr::null_mut();
    unsafe {
        if BUF.is_null() {
            let p = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            if p == libc::MAP_FAILED { return expected(text, utf8); }
            BUF = p as *mut u8;
        }
        *(BUF as *mut u64) = 0;
        let pid = libc::fork();
        if pid < 0 { return expected(text, utf8); }
        if pid == 0 {
            let b = serde_json::to_vec(&match expected(text, utf8) { Ok(v) => json!({ "ok": v }), Err(m) => json!({ "err": m }) }).unwrap();
            if b.len() + 8 <= SIZE {
                std::ptr::copy_nonoverlapping(b.as_ptr(), BUF.add(8), b.len());
                *(BUF as *mut u64) = b.len() as u64;
            }
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        let n = *(BUF as *const u64) as usize;
        if n == 0 {
            // end as the analysis ended: the caller of this process tells hang and crash apart
            if libc::WIFSIGNALED(st) { libc::signal(libc::WTERMSIG(st), libc::SIG_DFL); libc::raise(libc::WTERMSIG(st)); }
            if libc::WEXITSTATUS(st) != 0 { libc::_exit(libc::WEXITSTATUS(st)); }
            return expected(text, utf8);
        }
        let v: Value = serde_json::from_slice(std::slice::from_raw_parts(BUF.add(8), n)).unwrap_or_default();
        match v.get("ok") { Some(d) => Ok(d.as_array().cloned().unwrap_or_default()), None => Err(v["err"].as_str().unwrap_or("").to_string()) }
    }
}
/// With `fresh` every text is analysed in a process of its own.
pub struct Cache { m: HashMap<(String, bool), Result<Vec<Value>, String>>, pub fresh: bool }
impl Cache {
    pub fn new() -> Cache { Cache { m: HashMap::new(), fresh: true } }
    pub fn expected(&mut self, t: &str, utf8: bool) -> Result<Vec<Value>, String> {
        let fresh = self.fresh;
        self.m.entry((t.to_string(), utf8)).or_insert_with(|| if fresh { expected_fresh(t, utf8) } else { expected(t, utf8) }).clone()
    }
}
