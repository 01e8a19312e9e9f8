//! The simulated LSP client: plays the operations of a `ServerCase` against the server's stdin/stdout pipes.
use crate::case::*;
use crate::ffi::*;
use crate::run::log;
use serde_json::{json, Value};
use std::collections::VecDeque;

#[derive(Debug, PartialEq)]
enum Wait { No, Resp, Idle, Pub(u32) }

struct Client {
    c: ServerCase,
    next: usize,
    out: Vec<u8>,
    pos: usize,
    cur: Option<usize>,
    chunk_i: usize,
    inbuf: Vec<u8>,
    broken: bool,
    wait: Wait,
    auto: VecDeque<Value>,
    reading: bool,
    eof_in: bool,
    eof_out: bool,
    outstanding: Vec<Value>,
    nrecv: u64,
}
static mut CL: Option<Client> = None;
#[allow(static_mut_refs)]
fn cl() -> &'static mut Client { unsafe { CL.as_mut().unwrap() } }
#[allow(static_mut_refs)]
pub fn active() -> bool { unsafe { CL.is_some() } }
pub fn install(c: ServerCase) {
    unsafe {
        CL = Some(Client { c, next: 0, out: vec![], pos: 0, cur: None, chunk_i: 0, inbuf: vec![], broken: false, wait: Wait::No, auto: VecDeque::new(), reading: true, eof_in: false, eof_out: false, outstanding: vec![], nrecv: 0 });
    }
    cl().flags();
}

pub fn doc_uri(c: &ServerCase, doc: usize) -> String { c.docs[doc].clone() }

/// The JSON message an operation sends, if it sends one.
pub fn message(c: &ServerCase, op: &Op) -> Option<Value> {
    let note = |m: &str, p: Value| Some(json!({"jsonrpc":"2.0","method":m,"params":p}));
    match op {
        Op::Init { id } => {
            let mut p = json!({"processId": null, "capabilities": c.caps.clone(), "rootUri": c.root.clone()});
            if let Some(x) = c.init.as_object() { for (k, v) in x { p[k] = v.clone(); } }
            if let Some(f) = &c.folders { p["workspaceFolders"] = Value::Array(f.iter().map(|u| json!({"uri":u,"name":"w"})).collect()); }
            Some(json!({"jsonrpc":"2.0","id":id,"method":"initialize","params":p}))
        }
        Op::Initialized => note("initialized", json!({})),
        Op::Open { doc, version, text } => note("textDocument/didOpen", json!({"textDocument":{"uri":doc_uri(c,*doc),"languageId":c.lang.clone(),"version":version,"text":text}})),
        Op::Change { doc, version, edits } => {
            let ch: Vec<Value> = edits.iter().map(|e| match e.range {
                Some([a, b, x, y]) => json!({"range":{"start":{"line":a,"character":b},"end":{"line":x,"character":y}},"text":e.text}),
                None => json!({"text":e.text}),
            }).collect();
            note("textDocument/didChange", json!({"textDocument":{"uri":doc_uri(c,*doc),"version":version},"contentChanges":ch}))
        }
        Op::Close { doc } => note("textDocument/didClose", json!({"textDocument":{"uri":doc_uri(c,*doc)}})),
        Op::Save { doc } => note("textDocument/didSave", json!({"textDocument":{"uri":doc_uri(c,*doc)}})),
        Op::Req { id, method, params } => {
            let mut m = json!({"jsonrpc":"2.0","id":id,"method":method});
            if !params.is_null() { m["params"] = params.clone(); }
            Some(m)
        }
        Op::Cancel { id } => note("$/cancelRequest", json!({"id":id})),
        Op::Note { method, params } => note(method, params.clone()),
        Op::Resp { id, error } => Some(if *error { json!({"jsonrpc":"2.0","id":id,"error":{"code":-32803,"message":"no"}}) } else { json!({"jsonrpc":"2.0","id":id,"result":null}) }),
        Op::Shutdown { id } => Some(json!({"jsonrpc":"2.0","id":id,"method":"shutdown"})),
        Op::Exit => note("exit", Value::Null),
        _ => None,
    }
}
pub fn frame(c: &ServerCase, body: &[u8]) -> Vec<u8> {
    let mut v = if c.content_type.is_empty() { format!("Content-Length: {}\r\n\r\n", body.len()) } else { format!("Content-Length: {}\r\nContent-Type: {}\r\n\r\n", body.len(), c.content_type) }.into_bytes();
    v.extend_from_slice(body);
    v
}
pub fn bytes_of(c: &ServerCase, op: &Op) -> Option<Vec<u8>> {
    match op {
        Op::Body { text } => Some(frame(c, text.as_bytes())),
        Op::Partial { inner, keep } => bytes_of(c, inner).map(|b| b[..b.len().min(*keep as usize)].to_vec()),
        _ => message(c, op).map(|m| frame(c, &serde_json::to_vec(&m).unwrap())),
    }
}

impl Client {
    fn flags(&mut self) {
        unsafe {
            sim_env_set(ENV_RECV, if self.reading && !self.eof_out { 2 } else { 0 });
            let can = self.pos < self.out.len() || !self.auto.is_empty();
            let f = if self.eof_in { if self.next < self.c.ops.len() && self.wait == Wait::No { 1 } else { 0 } }
                else if can { 3 }
                else if self.wait != Wait::No || self.next >= self.c.ops.len() { 0 }
                else if bytes_of(&self.c, &self.c.ops[self.next]).is_some() { 3 } else { 1 };
            sim_env_set(ENV_SEND, f);
        }
    }
    fn send(&mut self) {
        if self.pos >= self.out.len() && !self.eof_in {
            if let Some(m) = self.auto.pop_front() {
                self.out = frame(&self.c, &serde_json::to_vec(&m).unwrap());
                self.pos = 0;
                self.cur = None;
            }
        }
        if self.pos >= self.out.len() {
            if self.next >= self.c.ops.len() || self.wait != Wait::No { return; }
            let i = self.next;
            self.next += 1;
            let op = self.c.ops[i].clone();
            match &op {
                Op::Eof => { log(json!({"t":"S","i":i})); unsafe { sim_close_w(0) }; self.eof_in = true; return; }
                Op::CloseOut => { log(json!({"t":"S","i":i})); self.drain(usize::MAX); unsafe { sim_close_r(1) }; self.eof_out = true; return; }
                Op::StopRead => { log(json!({"t":"S","i":i})); self.reading = false; return; }
                Op::StartRead => { log(json!({"t":"S","i":i})); self.reading = true; return; }
                Op::WaitResp => { if !self.outstanding.is_empty() { self.wait = Wait::Resp; } return; }
                Op::WaitIdle => { self.wait = Wait::Idle; return; }
                Op::WaitPub { n } => { if *n > 0 { self.wait = Wait::Pub(*n); } return; }
                Op::Mark => { unsafe { log(json!({"t":"M","i":i,"edges":sim_edges(),"live":sim_live(),"ns":sim_now()})) }; return; }
                Op::Think { ns } => { unsafe { sim_advance(*ns) }; return; }
                _ => {}
            }
            if self.eof_in { return; }
            log(json!({"t":"s","i":i}));
            match &op {
                Op::Req { id, .. } | Op::Shutdown { id } | Op::Init { id } => self.outstanding.push(id.clone()),
                _ => {}
            }
            self.out = bytes_of(&self.c, &op).unwrap_or_default();
            self.pos = 0;
            self.cur = Some(i);
        }
        if self.pos < self.out.len() {
            let n = if self.c.send_chunks.is_empty() { usize::MAX } else { self.c.send_chunks[self.chunk_i % self.c.send_chunks.len()].max(1) as usize };
            self.chunk_i += 1;
            let e = self.out.len().min(self.pos.saturating_add(n));
            let k = unsafe { sim_push(0, self.out[self.pos..e].as_ptr(), (e - self.pos) as u32) } as usize;
            self.pos += k;
        }
        if self.pos >= self.out.len() {
            if let Some(i) = self.cur.take() { log(json!({"t":"S","i":i})); }
        }
    }
    fn drain(&mut self, max: usize) {
        let mut buf = [0u8; 4096];
        let mut left = max;
        while left > 0 {
            let n = left.min(buf.len());
            let k = unsafe { sim_pop(1, buf.as_mut_ptr(), n as u32) } as usize;
            if k == 0 { break; }
            self.inbuf.extend_from_slice(&buf[..k]);
            left = left.saturating_sub(k);
        }
        self.parse();
    }
    fn parse(&mut self) {
        while !self.broken {
            let Some(h) = self.inbuf.windows(4).position(|w| w == b"\r\n\r\n") else {
                if self.inbuf.len() > 4096 { self.broken = true; log(json!({"t":"B","why":"no header terminator"})); }
                return;
            };
            let head = String::from_utf8_lossy(&self.inbuf[..h]).into_owned();
            let len = head.split("\r\n").filter_map(|l| { let (k, v) = l.split_once(':')?; if k.eq_ignore_ascii_case("content-length") { v.trim().parse::<usize>().ok() } else { None } }).next();
            let Some(len) = len else { self.broken = true; log(json!({"t":"B","why":"bad header","head":head})); return; };
            if self.inbuf.len() < h + 4 + len { return; }
            let body: Vec<u8> = self.inbuf[h + 4..h + 4 + len].to_vec();
            self.inbuf.drain(..h + 4 + len);
            match serde_json::from_slice::<Value>(&body) {
                Ok(v) => self.got(v),
                Err(e) => { self.broken = true; log(json!({"t":"B","why":format!("bad json: {}", e)})); return; }
            }
        }
    }
    fn got(&mut self, v: Value) {
        self.nrecv += 1;
        let is_pub = v["method"] == "textDocument/publishDiagnostics";
        if v.get("method").is_some() && v.get("id").is_some() && self.c.auto_reply {
            self.auto.push_back(json!({"jsonrpc":"2.0","id":v["id"],"result":null}));
        }
        if v.get("method").is_none() {
            if let Some(p) = self.outstanding.iter().position(|x| *x == v["id"]) { self.outstanding.remove(p); }
        }
        log(json!({"t":"R","m":v}));
        match &mut self.wait {
            Wait::Resp if self.outstanding.is_empty() => self.wait = Wait::No,
            Wait::Pub(n) if is_pub => { *n -= 1; if *n == 0 { self.wait = Wait::No } }
            _ => {}
        }
    }
}
pub fn env_run(id: i32) {
    let c = cl();
    match id {
        ENV_SEND => c.send(),
        ENV_RECV => {
            let n = if c.c.recv_chunk == 0 { usize::MAX } else { c.c.recv_chunk as usize };
            c.drain(n);
            if unsafe { sim_pipe_len(1) == 0 && sim_pipe_wclosed(1) != 0 } { c.eof_out = true; log(json!({"t":"E"})); }
        }
        _ => {}
    }
    c.flags();
}
pub fn quiescent() -> i32 {
    let c = cl();
    unsafe {
        log(json!({"t":"I","i":c.next,"in":sim_pipe_len(0),"out":sim_pipe_len(1),"reading":c.reading,"wait":format!("{:?}",c.wait),"outstanding":c.outstanding.len(),"unsent":c.out.len()-c.pos,"ns":sim_now()}));
    }
    let mut r = 0;
    if !c.reading && unsafe { sim_pipe_len(1) } > 0 { c.reading = true; r = 1; }
    else if c.wait != Wait::No { c.wait = Wait::No; r = 1; }
    c.flags();
    r
}
pub fn finish() {
    let c = cl();
    c.drain(usize::MAX);
    unsafe { log(json!({"t":"F","rest":c.inbuf.len(),"next":c.next,"in":sim_pipe_len(0),"unsent":c.out.len()-c.pos,"partial_op":c.cur})); }
}
