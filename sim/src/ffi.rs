//! Bindings to the C simulator core and the allocator that gives the system under test its own fixed-address heap.
#![allow(non_camel_case_types, dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::{c_char, c_int};

pub const FIN_EXIT: i32 = 1;
pub const FIN_DEADLOCK: i32 = 2;
pub const FIN_HANG: i32 = 3;
pub const FIN_BUDGET: i32 = 4;
pub const FIN_ABORT: i32 = 5;
pub const FIN_OOM: i32 = 6;
pub const FIN_STOP: i32 = 7;

pub const FC_NAMES: [&str; 17] = [
    "read_stdin", "write_stdout", "write_stderr", "futex_wait", "stat", "open", "read_file", "opendir", "readdir", "poll",
    "read_child", "thread_create", "clock", "write_file", "spawn", "waitpid", "getcwd",
];
pub const FK_NAMES: [&str; 8] = ["", "short", "errno", "spurious_wakeup", "clock_jump", "slow", "", ""];
pub const MAXDEV: usize = 60000;
pub const ERRCAP: usize = 32768;
pub const EVCAP: usize = 4 << 20;
pub const LOGCAP: usize = 24 << 20;

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct fault_t { pub cls: i32, pub nth: u32, pub kind: i32, pub pad: i32, pub arg: i64 }
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct pickdev_t { pub idx: u64, pub id: i32, pub pad: i32 }
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct preempt_t { pub task: i32, pub to: i32, pub edge: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct vnode_t { pub path: *const c_char, pub kind: i32, pub pad: i32, pub data: *const u8, pub len: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct simcfg_t {
    pub seed: u64,
    pub replay: i32, pub mode: i32,
    pub p_switch: u32, pub w_env: u32,
    pub edge_gap: u64,
    pub pct_depth: i32, pub starve_id: i32,
    pub pct_len: u64, pub starve_from: u64, pub starve_to: u64,
    pub max_idle_edges: u64, pub max_edges: u64, pub max_points: u64, pub max_heap: u64,
    pub n_cpus: i32, pub verbose: i32,
    pub faults: *const fault_t, pub n_faults: u64,
    pub picks: *const pickdev_t, pub n_picks: u64,
    pub preempts: *const preempt_t, pub n_preempts: u64,
    pub vnodes: *const vnode_t, pub n_vnodes: u64,
}
#[repr(C)]
pub struct simout_t {
    pub finish: i32, pub code: i32,
    pub edges: u64, pub points: u64, pub switches: u64, pub preempts: u64, pub simtime: u64, pub hash: u64, pub nthreads: u64,
    pub live_threads: u64, pub idle_jumps: u64, pub futex_waits: u64, pub heap_peak: u64, pub picks_total: u64,
    pub fired: [u64; 17], pub fired_kind: [u64; 8],
    pub n_pick: u32, pub n_pre: u32, pub overflow: u32, pub errlen: u32, pub evlen: u32, pub loglen: u32,
    pub finish_msg: [u8; 256],
    pub states: [u8; 1024],
    pub picks: [pickdev_t; MAXDEV], pub pre: [preempt_t; MAXDEV],
    pub err: [u8; ERRCAP],
    pub ev: [u8; EVCAP],
    pub log: [u8; LOGCAP],
}
extern "C" {
    pub fn sim_begin(c: *const simcfg_t, o: *mut simout_t);
    pub fn sim_pipe(i: c_int, cap: u32) -> c_int;
    pub fn sim_fd(fd: c_int, kind: c_int, idx: c_int);
    pub fn sim_pipe_len(i: c_int) -> u32;
    pub fn sim_pipe_space(i: c_int) -> u32;
    pub fn sim_push(i: c_int, b: *const u8, n: u32) -> u32;
    pub fn sim_pop(i: c_int, b: *mut u8, n: u32) -> u32;
    pub fn sim_close_w(i: c_int);
    pub fn sim_close_r(i: c_int);
    pub fn sim_pipe_rclosed(i: c_int) -> c_int;
    pub fn sim_pipe_wclosed(i: c_int) -> c_int;
    pub fn sim_child_exit(st: c_int);
    pub fn sim_advance(ns: u64);
    pub fn sim_now() -> u64;
    pub fn sim_points() -> u64;
    pub fn sim_edges() -> u64;
    pub fn sim_live() -> u64;
    pub fn sim_log(b: *const u8, n: u32);
    pub fn sim_note(s: *const c_char);
    pub fn sim_stop(s: *const c_char);
    pub fn sim_enter();
    pub fn sim_leave();
    pub fn sim_in_sut() -> c_int;
    pub fn sim_yield_point(k: c_int);
    pub fn sim_env_set(id: c_int, f: c_int);
    pub fn sim_activate();
    pub fn sim_start_wait();
    pub fn sim_main_returned(c: c_int);
    pub fn sim_alloc(n: usize, al: usize) -> *mut u8;
    pub fn sim_free(p: *mut u8, n: usize, al: usize);
    pub fn sim_owns(p: *mut u8) -> c_int;
    pub fn sim_heap_on() -> c_int;
    pub fn sim_set_child_cap(c: u32);
    pub fn sim_ref_budget(n: i64);
    pub fn sim_nguards() -> u32;
    pub fn sim_fs(log: c_int, untyped: c_int);
    pub fn sim_sink(on: c_int);
    pub fn sim_vnode_hide(i: c_int, h: c_int);
    pub fn sim_set_cov(p: *mut u8);
}
pub const V_PR: c_int = 1;
pub const V_PW: c_int = 2;
pub const V_NULL: c_int = 3;
pub const V_ERR: c_int = 5;
pub const ENV_SEND: c_int = 64;
pub const ENV_RECV: c_int = 65;
pub const ENV_CHILD: c_int = 67;

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sim_heap_on() != 0 { sim_alloc(l.size(), l.align()) } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sim_owns(p) != 0 { sim_free(p, l.size(), l.align()) } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sim_owns(p) == 0 && sim_heap_on() == 0 { return System.realloc(p, l, n); }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static A: Alloc = Alloc;
