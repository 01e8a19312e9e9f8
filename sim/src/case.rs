//! A `Case` is everything that determines one simulated run: workload, faults and schedule. Replay files are cases.
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault { pub cls: i32, pub nth: u32, pub kind: i32, pub arg: i64 }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Sched {
    pub seed: u64,
    pub mode: i32,
    pub p_switch: u32,
    pub w_env: u32,
    pub edge_gap: u64,
    pub pct_depth: i32,
    pub pct_len: u64,
    pub starve_id: i32,
    pub starve_from: u64,
    pub starve_to: u64,
    pub n_cpus: i32,
    /// Explicit schedule (deviations from the default policy); when present the seed is not used.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub explicit: Option<Explicit>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Explicit {
    pub picks: Vec<(u64, i32)>,
    pub preempts: Vec<(i32, u64, i32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub seed: u64,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub world: World,
    pub max_idle_edges: u64,
    pub max_edges: u64,
    pub max_points: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "world", rename_all = "snake_case")]
pub enum World {
    Server(ServerCase),
    Analysis(AnalysisCase),
    Stream(StreamCase),
    Discover(DiscoverCase),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node { pub path: String, pub dir: bool, #[serde(default)] pub data: String, #[serde(default)] pub hex: bool, #[serde(default)] pub dangling: bool, #[serde(default)] pub link: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ServerCase {
    pub caps: Value,
    pub root: Option<String>,
    pub folders: Option<Vec<String>>,
    pub docs: Vec<String>,
    pub fs: Vec<Node>,
    pub stdin_cap: u32,
    pub stdout_cap: u32,
    pub send_chunks: Vec<u32>,
    pub recv_chunk: u32,
    pub env: Vec<(String, String)>,
    pub auto_reply: bool,
    /// Further fields of the initialize parameters
    #[serde(default)]
    pub init: Value,
    /// languageId of didOpen
    #[serde(default)]
    pub lang: String,
    /// Content-Type header, if any
    #[serde(default)]
    pub content_type: String,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit { #[serde(default, skip_serializing_if = "Option::is_none")] pub range: Option<[u32; 4]>, pub text: String }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum Op {
    Init { id: Value },
    Initialized,
    Open { doc: usize, version: i32, text: String },
    Change { doc: usize, version: i32, edits: Vec<Edit> },
    Close { doc: usize },
    Save { doc: usize },
    Req { id: Value, method: String, params: Value },
    Cancel { id: Value },
    Note { method: String, params: Value },
    Resp { id: Value, error: bool },
    /// Arbitrary message body, framed
    Body { text: String },
    /// First `keep` bytes of the frame of `inner` (then normally followed by Eof)
    Partial { inner: Box<Op>, keep: u32 },
    Shutdown { id: Value },
    Exit,
    /// Close the client's end of the server's stdin
    Eof,
    /// Close the client's end of the server's stdout
    CloseOut,
    /// Stop / resume reading the server's output
    StopRead,
    StartRead,
    /// Wait until every request sent so far has been answered
    WaitResp,
    /// Wait until the server is idle (nothing can run)
    WaitIdle,
    /// Wait for `n` more publishDiagnostics (or idleness)
    WaitPub { n: u32 },
    /// Record the work done and the memory held so far
    Mark,
    /// Let simulated time pass
    Think { ns: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnalysisCase {
    pub files: usize,
    pub initial: Vec<String>,
    pub readers: usize,
    pub steps: Vec<AStep>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "step", rename_all = "snake_case")]
pub enum AStep {
    /// Take a snapshot and hand it to reader `reader` with the queries to run: (file, kind) kind 0 diagnostics, 1 line index, 2 its UTF-16 columns
    Snap { reader: usize, queries: Vec<(usize, u8)> },
    /// Apply a change: (file, Some(text) | None = deleted); `roots` > 0 also sets that layout of source roots
    Apply { changes: Vec<(usize, Option<String>)>, roots: u8 },
    /// Request cancellation only
    CancelAll,
    /// Wait until all readers are idle
    Drain,
    /// Query directly on the writer thread
    Local { file: usize, #[serde(default)] kind: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StreamCase {
    pub script: Vec<CStep>,
    pub status: i32,
    pub pipe_cap: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "c", rename_all = "snake_case")]
pub enum CStep {
    /// Write bytes (latin1-escaped hex) to stream 1 (stdout) or 2 (stderr)
    Write { s: u8, hex: String },
    Close { s: u8 },
    /// Write nothing until the caller has nothing left to do
    Pause,
    /// The child ends; what follows is written by a descendant that inherited its streams
    Exit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiscoverCase {
    pub fs: Vec<Node>,
    /// Directory entries come without their type
    pub untyped: bool,
    /// One list of calls per thread
    pub threads: Vec<Vec<DCall>>,
    /// What happens to the file system meanwhile
    pub events: Vec<DEvent>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "call", rename_all = "snake_case")]
pub enum DCall {
    /// Discover the projects of all these folders, then load each
    All { roots: Vec<String> },
    One { root: String },
    Single { root: String },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "event", rename_all = "snake_case")]
pub enum DEvent { Nothing, Hide { path: String }, Show { path: String } }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
