//! World for `project_model`: threads discover and load projects in a file system that fails and changes meanwhile.
use crate::case::*;
use crate::ffi::*;
use crate::run::{log, raw_path};
use paths::AbsPathBuf;
use project_model::{ProjectManifest, ProjectWorkspace};
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

struct St { c: DiscoverCase, pos: usize }
static mut ST: Option<St> = None;
fn st() -> &'static mut St { unsafe { ST.as_mut().unwrap() } }
pub fn active() -> bool { unsafe { ST.is_some() } }
/// The simulator's own two directories precede the nodes of the case.
const FIRST: usize = 2;
fn hide(c: &DiscoverCase, path: &str, h: bool) {
    let below = format!("{}/", path);
    for (i, n) in c.fs.iter().enumerate() { if n.path == path || n.path.starts_with(&below) { unsafe { sim_vnode_hide((i + FIRST) as i32, h as i32) } } }
}
pub fn install(c: DiscoverCase) {
    unsafe { sim_fs(1, c.untyped as i32) }
    let mut seen: Vec<&String> = vec![];
    for e in &c.events { match e { DEvent::Show { path } => { if !seen.contains(&path) { hide(&c, path, true); } seen.push(path); } DEvent::Hide { path } => seen.push(path), DEvent::Nothing => {} } }
    unsafe { sim_env_set(ENV_CHILD, !c.events.is_empty() as i32); ST = Some(St { c, pos: 0 }); }
}
pub fn env_run() {
    let s = st();
    match s.c.events.get(s.pos) {
        Some(DEvent::Hide { path }) => hide(&s.c, path, true),
        Some(DEvent::Show { path }) => hide(&s.c, path, false),
        _ => {}
    }
    s.pos += 1;
    if s.pos >= s.c.events.len() { unsafe { sim_env_set(ENV_CHILD, 0) } }
}
/// Bytes that are not UTF-8 become U+F700 to U+F7FF, as in the case.
fn name(p: &Path) -> String {
    let mut b = p.as_os_str().as_bytes();
    let mut s = String::new();
    loop {
        match std::str::from_utf8(b) {
            Ok(x) => { s.push_str(x); return s }
            Err(e) => { let k = e.valid_up_to(); s.push_str(std::str::from_utf8(&b[..k]).unwrap()); s.push(char::from_u32(0xf700 + b[k] as u32).unwrap()); b = &b[k + 1..]; }
        }
    }
}
fn lg(v: impl FnOnce() -> Value) { unsafe { sim_enter() }; log(v()); unsafe { sim_leave() } }
fn abs(p: &str) -> AbsPathBuf { AbsPathBuf::try_from(PathBuf::from(OsString::from_vec(raw_path(p)))).unwrap() }
fn file(m: &ProjectManifest) -> String { match m { ProjectManifest::DoveToml(p) => name(p.as_ref()), #[allow(unreachable_patterns)] _ => String::new() } }

fn call(t: usize, i: usize, c: &DCall) {
    let found = match c {
        DCall::All { roots } => {
            let roots: Vec<AbsPathBuf> = roots.iter().map(|r| abs(r)).collect();
            Ok(ProjectManifest::discover_all(&roots))
        }
        DCall::One { root } => ProjectManifest::discover(&abs(root)).map_err(|e| e.to_string()),
        DCall::Single { root } => ProjectManifest::discover_single(&abs(root)).map(|m| vec![m]).map_err(|e| e.to_string()),
    };
    match &found {
        Ok(l) => { let r: Vec<String> = l.iter().map(file).collect(); lg(|| json!({"t":"d","th":t,"i":i,"r":r})) }
        Err(e) => lg(|| json!({"t":"d","th":t,"i":i,"err":e})),
    }
    for m in found.unwrap_or_default() {
        let p = file(&m);
        let w = ProjectWorkspace::load(m);
        let v = match w {
            Ok(ProjectWorkspace::Dove { dove_toml }) => { let k = &dove_toml.package; json!({"name": k.name, "account_address": k.account_address, "dove_version": k.dove_version, "dialect": k.dialect}) }
            Ok(_) => json!("other"),
            Err(_) => Value::Null,
        };
        lg(|| json!({"t":"l","th":t,"i":i,"p":p,"v":v}));
    }
}
pub fn entry() -> i32 {
    let c = st().c.clone();
    let hs: Vec<_> = c.threads.into_iter().enumerate().map(|(t, calls)| std::thread::Builder::new().name(format!("caller{}", t)).stack_size(8 << 20).spawn(move || {
        for (i, k) in calls.iter().enumerate() {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(t, i, k))).is_err() { lg(|| json!({"t":"p","th":t,"i":i})); }
        }
    }).unwrap()).collect();
    for h in hs { let _ = h.join(); }
    lg(|| json!({"t":"end"}));
    0
}
