//! Runs one case: forks, executes the real code under the simulator in the child, collects the shared record.
use crate::case::*;
use crate::ffi::*;
use crate::{analysis, client, discover, stream};
use serde_json::Value;
use std::ffi::CString;

pub struct Shared { pub out: *mut simout_t, pub verdict: *mut u8, pub cov: *mut u8 }
pub const VERDICT: usize = 8 << 20;
pub const COV: usize = 1 << 19;

pub fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}
impl Shared {
    pub fn new() -> Shared {
        let sh = Shared { out: map_shared(std::mem::size_of::<simout_t>()) as *mut simout_t, verdict: map_shared(VERDICT), cov: map_shared(COV) };
        // one-time initialisations of this process (CPU feature detection and the like) must not depend on which run comes first
        static WARM: std::sync::Once = std::sync::Once::new();
        WARM.call_once(|| { use std::io::Write; let _ = std::io::stdout().flush(); let _ = std::io::stderr().flush(); for p in crate::profile::ALL { for s in 0..2 {
            let c = crate::profile::make(p, s);
            let c: Case = serde_json::from_slice(&serde_json::to_vec(&c).unwrap()).unwrap();
            let _ = run_case(&c, &sh, false);
        } } });
        unsafe { std::ptr::write_bytes(sh.cov, 0, COV); }
        sh
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub finish: i32,
    pub code: i32,
    pub msg: String,
    pub states: String,
    pub signal: i32,
    pub wall_timeout: bool,
    pub err: String,
    pub log: Vec<Value>,
    pub raw_log: Vec<u8>,
    pub ev: String,
    pub picks: Vec<(u64, i32)>,
    pub pres: Vec<(i32, u64, i32)>,
    pub edges: u64, pub points: u64, pub switches: u64, pub preempts: u64, pub simtime: u64, pub hash: u64, pub nthreads: u64,
    pub live: u64, pub idle_jumps: u64, pub picks_total: u64, pub heap_peak: u64,
    pub fired: [u64; 17], pub fired_kind: [u64; 8],
    pub overflow: u32,
}
impl Outcome {
    pub fn crashed(&self) -> bool { self.signal != 0 || self.finish == FIN_ABORT }
    pub fn stuck(&self) -> bool { matches!(self.finish, FIN_HANG | FIN_BUDGET | FIN_OOM) }
    pub fn describe(&self) -> String {
        let k = match self.finish { FIN_EXIT => "exit", FIN_DEADLOCK => "idle", FIN_HANG => "hang", FIN_BUDGET => "budget", FIN_ABORT => "abort", FIN_OOM => "oom", FIN_STOP => "stop", 0 => "none", _ => "?" };
        format!("{}({}) signal={} {} [{}]", k, self.code, self.signal, self.msg, self.states.trim())
    }
}

fn cstr(b: &[u8]) -> String { let n = b.iter().position(|x| *x == 0).unwrap_or(b.len()); String::from_utf8_lossy(&b[..n]).into_owned() }

pub fn run_case(case: &Case, sh: &Shared, verbose: bool) -> Outcome {
    unsafe {
        let o = &mut *sh.out;
        let hdr = (std::ptr::addr_of!(o.picks) as usize) - (sh.out as usize);
        std::ptr::write_bytes(sh.out as *mut u8, 0, hdr);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(120);
            sim_set_cov(sh.cov);
            child(case, sh.out, verbose);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid { break; }
            assert!(r >= 0 || *libc::__errno_location() == libc::EINTR);
        }
        let signal = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        let raw = o.log[..o.loglen as usize].to_vec();
        Outcome {
            finish: o.finish, code: o.code, msg: cstr(&o.finish_msg), states: cstr(&o.states),
            signal: if signal == libc::SIGALRM { 0 } else { signal }, wall_timeout: signal == libc::SIGALRM,
            err: String::from_utf8_lossy(&o.err[..o.errlen as usize]).into_owned(),
            log: raw.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(|l| serde_json::from_slice(l).unwrap_or(Value::Null)).collect(),
            raw_log: raw,
            ev: String::from_utf8_lossy(&o.ev[..o.evlen as usize]).into_owned(),
            picks: o.picks[..o.n_pick as usize].iter().map(|p| (p.idx, p.id)).collect(),
            pres: o.pre[..o.n_pre as usize].iter().map(|p| (p.task, p.edge, p.to)).collect(),
            edges: o.edges, points: o.points, switches: o.switches, preempts: o.preempts, simtime: o.simtime.saturating_sub(1_000_000_000_000), hash: o.hash,
            nthreads: o.nthreads, live: o.live_threads, idle_jumps: o.idle_jumps, picks_total: o.picks_total, heap_peak: o.heap_peak,
            fired: o.fired, fired_kind: o.fired_kind, overflow: o.overflow,
        }
    }
}

fn leak<T>(v: Vec<T>) -> (*const T, u64) { let n = v.len() as u64; (Box::leak(v.into_boxed_slice()).as_ptr(), n) }

/// U+F700 to U+F7FF in a path stand for single bytes, so that names need not be UTF-8.
pub fn raw_path(p: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in p.chars() { match c as u32 { x @ 0xf700..=0xf7ff => v.push((x - 0xf700) as u8), _ => v.extend(c.to_string().bytes()) } }
    v
}

unsafe fn child(case: &Case, out: *mut simout_t, verbose: bool) -> ! {
    for k in ["RA_LOG_FILE", "MOVE_LS_LOG", "RUST_LOG", "RUST_MIN_STACK"] { std::env::remove_var(k); }
    std::env::set_var("RUST_BACKTRACE", "0");
    let s = &case.sched;
    let (faults, n_faults) = leak(case.faults.iter().map(|f| fault_t { cls: f.cls, nth: f.nth, kind: f.kind, pad: 0, arg: f.arg }).collect());
    let ex = s.explicit.clone().unwrap_or_default();
    let (picks, n_picks) = leak(ex.picks.iter().map(|p| pickdev_t { idx: p.0, id: p.1, pad: 0 }).collect());
    let (preempts, n_preempts) = leak(ex.preempts.iter().map(|p| preempt_t { task: p.0, edge: p.1, to: p.2 }).collect());
    let mut nodes = vec![];
    let fs: Vec<Node> = match &case.world { World::Server(c) => c.fs.clone(), World::Discover(c) => c.fs.clone(), _ => vec![] };
    for d in [Node { path: "/simfs".into(), dir: true, data: String::new(), hex: false, dangling: false, link: false }, Node { path: "/simfs/cwd".into(), dir: true, data: String::new(), hex: false, dangling: false, link: false }].iter().chain(fs.iter()) {
        let data = if d.hex { unhex(&d.data) } else { d.data.clone().into_bytes() };
        let (p, n) = leak(data);
        nodes.push(vnode_t { path: CString::new(raw_path(&d.path)).unwrap().into_raw(), kind: if d.dangling { 2 } else if d.link { 3 } else { d.dir as i32 }, pad: 0, data: p, len: n });
    }
    let (vnodes, n_vnodes) = leak(nodes);
    let cfg = simcfg_t {
        seed: s.seed, replay: s.explicit.is_some() as i32, mode: s.mode, p_switch: s.p_switch, w_env: s.w_env, edge_gap: s.edge_gap,
        pct_depth: s.pct_depth, starve_id: s.starve_id, pct_len: s.pct_len, starve_from: s.starve_from, starve_to: s.starve_to,
        max_idle_edges: case.max_idle_edges, max_edges: case.max_edges, max_points: case.max_points, max_heap: 768 << 20,
        n_cpus: s.n_cpus.max(1), verbose: verbose as i32,
        faults, n_faults, picks, n_picks, preempts, n_preempts, vnodes, n_vnodes,
    };
    sim_begin(&cfg, out);
    sim_fd(2, V_ERR, 0);
    let entry: fn() -> i32 = match &case.world {
        World::Server(c) => {
            for (k, v) in &c.env { std::env::set_var(k, v); }
            sim_pipe(0, c.stdin_cap.max(1));
            sim_pipe(1, c.stdout_cap.max(1));
            sim_fd(0, V_PR, 0);
            sim_fd(1, V_PW, 1);
            sim_sink((case.property == "C22") as i32);
            client::install(c.clone());
            || crate::server_bin::__dsim_entry()
        }
        World::Analysis(c) => {
            sim_fd(0, V_NULL, 0);
            sim_fd(1, V_NULL, 0);
            analysis::install(c.clone());
            analysis::entry
        }
        World::Stream(c) => {
            sim_fd(0, V_NULL, 0);
            sim_fd(1, V_NULL, 0);
            stream::install(c.clone());
            stream::entry
        }
        World::Discover(c) => {
            sim_fd(0, V_NULL, 0);
            sim_fd(1, V_NULL, 0);
            discover::install(c.clone());
            discover::entry
        }
    };
    sim_activate();
    let _h = std::thread::Builder::new().name("main".into()).stack_size(8 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(entry));
        sim_main_returned(r.unwrap_or(101));
    });
    sim_start_wait();
    unreachable!()
}

// ---- environment callbacks (called by the simulator with the baton held, outside the system under test) ----
#[no_mangle]
pub extern "C" fn sim_env_run(id: i32) {
    if stream::active() { stream::env_run(id) } else if discover::active() { discover::env_run() } else { client::env_run(id) }
}
#[no_mangle]
pub extern "C" fn sim_env_quiescent() -> i32 {
    if client::active() { client::quiescent() } else if stream::active() { stream::quiescent() } else { 0 }
}
#[no_mangle]
pub extern "C" fn sim_env_finish() {
    if client::active() { client::finish() }
}
#[no_mangle]
pub extern "C" fn sim_env_spawn(_prog: *const std::ffi::c_char, outp: i32, errp: i32) -> i32 {
    if stream::active() { stream::spawned(outp, errp) } else { libc::ENOENT }
}
pub fn log(v: Value) {
    let mut s = serde_json::to_vec(&v).unwrap();
    s.push(b'\n');
    unsafe { sim_log(s.as_ptr(), s.len() as u32) }
}
