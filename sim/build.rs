use std::{env, fs, path::PathBuf, process::Command};
fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let core = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("core");
    let obj = out.join("simcore.o");
    let st = Command::new("gcc").args(["-O2", "-w", "-fno-omit-frame-pointer", "-fno-delete-null-pointer-checks", "-c"]).arg(core.join("simcore.c")).arg("-o").arg(&obj).status().unwrap();
    assert!(st.success());
    println!("cargo:rerun-if-changed={}", core.display());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg={}", obj.display());
    println!("cargo:rustc-link-arg=-no-pie");
    // The real server binary's source, unchanged except that its private `main` becomes callable: inner attributes cannot
    // be included, sibling modules get their absolute path, and an entry that reports the exit status is appended.
    let bin = server_main();
    let dir = bin.parent().unwrap().to_path_buf();
    println!("cargo:rerun-if-changed={}", dir.display());
    let src = fs::read_to_string(&bin).unwrap();
    let mut text = String::new();
    for l in src.lines() {
        let t = l.trim_start();
        if t.starts_with("#![") || t.starts_with("//!") { text.push_str("\n"); continue; }
        let m = l.strip_prefix("pub ").unwrap_or(l);
        if let Some(name) = m.strip_prefix("mod ").and_then(|x| x.trim_end().strip_suffix(';')) {
            let cand = [dir.join(format!("{}.rs", name)), dir.join(name).join("mod.rs")];
            if let Some(p) = cand.iter().find(|p| p.exists()) { text.push_str(&format!("#[path = {:?}] {}\n", p.display().to_string(), l)); continue; }
        }
        text.push_str(l);
        text.push('\n');
    }
    text.push_str("trait DsimTermination { fn dsim_code(self) -> i32; }\nimpl DsimTermination for () { fn dsim_code(self) -> i32 { 0 } }\nimpl<E: std::fmt::Debug> DsimTermination for std::result::Result<(), E> { fn dsim_code(self) -> i32 { match self { Ok(()) => 0, Err(e) => { eprintln!(\"Error: {:?}\", e); 1 } } } }\npub fn __dsim_entry() -> i32 { DsimTermination::dsim_code(main()) }\n");
    fs::write(out.join("server_bin.rs"), text).unwrap();
    println!("cargo:rustc-env=REV=dsim");
}
fn server_main() -> PathBuf {
    let root = PathBuf::from("/repo/crates/move_language_server/src");
    for c in ["bin/move_language_server.rs", "bin/main.rs", "main.rs"] {
        if root.join(c).exists() { return root.join(c); }
    }
    let d = fs::read_dir(root.join("bin")).expect("server binary source");
    d.filter_map(Result::ok).map(|e| e.path()).find(|p| p.extension().map_or(false, |e| e == "rs")).expect("server binary source")
}
