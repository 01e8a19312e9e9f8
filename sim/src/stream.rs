//! World for `stdx::process::streaming_output`: a scripted child process writes to two pipes.
use crate::case::*;
use crate::ffi::*;
use crate::run::log;
use serde_json::json;
use std::process::Command;

struct St { c: StreamCase, pos: usize, off: usize, pipes: [i32; 3], exited: bool, paused: bool }
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St { unsafe { ST.as_mut().unwrap() } }
#[allow(static_mut_refs)]
pub fn active() -> bool { unsafe { ST.is_some() } }
pub fn install(c: StreamCase) { unsafe { sim_set_child_cap(c.pipe_cap); ST = Some(St { c, pos: 0, off: 0, pipes: [-1; 3], exited: false, paused: false }); sim_env_set(ENV_CHILD, 0); } }
pub fn spawned(outp: i32, errp: i32) -> i32 {
    let s = st();
    s.pipes = [-1, outp, errp];
    log(json!({"t":"spawn","out":outp,"err":errp}));
    unsafe { sim_env_set(ENV_CHILD, 1) };
    0
}
pub fn env_run(id: i32) {
    if id != ENV_CHILD { return; }
    let s = st();
    // One step of the child: write what fits of the current write, close, or exit.
    if s.pos >= s.c.script.len() {
        for i in 1..3 { if s.pipes[i] >= 0 { unsafe { sim_close_w(s.pipes[i]) } s.pipes[i] = -1; } }
        exit();
        unsafe { sim_env_set(ENV_CHILD, 0) };
        return;
    }
    match &s.c.script[s.pos] {
        CStep::Write { s: fd, hex } => {
            let b = unhex(hex);
            let p = s.pipes[*fd as usize];
            if p >= 0 && s.off < b.len() {
                let k = unsafe { sim_push(p, b[s.off..].as_ptr(), (b.len() - s.off) as u32) } as usize;
                s.off += k;
                if k == 0 { // pipe full: try again when there is space
                    unsafe { sim_env_set(ENV_CHILD, 16 + p) };
                    return;
                }
            }
            if p < 0 || s.off >= b.len() { s.pos += 1; s.off = 0; }
        }
        CStep::Close { s: fd } => {
            let p = s.pipes[*fd as usize];
            if p >= 0 { unsafe { sim_close_w(p) } }
            s.pos += 1;
        }
        CStep::Pause => {
            s.pos += 1;
            s.paused = true;
            unsafe { sim_env_set(ENV_CHILD, 0) };
            return;
        }
        CStep::Exit => {
            s.pos += 1;
            exit();
        }
    }
    unsafe { sim_env_set(ENV_CHILD, 1) };
}
fn exit() {
    let s = st();
    if s.exited { return; }
    s.exited = true;
    unsafe { sim_child_exit(s.c.status) };
    log(json!({"t":"exit"}));
}
/// The caller has nothing left to do: a pausing child goes on.
pub fn quiescent() -> i32 {
    let s = st();
    if !s.paused { return 0; }
    s.paused = false;
    log(json!({"t":"idle"}));
    unsafe { sim_env_set(ENV_CHILD, 1) };
    1
}
pub fn entry() -> i32 {
    let cmd = Command::new("child");
    let mut so = |l: &str| unsafe { sim_enter(); log(json!({"t":"o","l":l})); sim_leave() };
    let mut se = |l: &str| unsafe { sim_enter(); log(json!({"t":"e","l":l})); sim_leave() };
    let r = stdx::process::streaming_output(cmd, &mut so, &mut se);
    unsafe { sim_enter() };
    match r {
        Ok(o) => {
            use std::os::unix::process::ExitStatusExt;
            log(json!({"t":"ret","out":hex(&o.stdout),"err":hex(&o.stderr),"status":o.status.into_raw()}))
        }
        Err(e) => log(json!({"t":"fail","e":e.to_string(),"os":e.raw_os_error()})),
    }
    unsafe { sim_leave() };
    0
}
