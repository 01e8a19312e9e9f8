//! dsim: deterministic simulation of the Move language server. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod analysis;
mod case;
mod client;
mod discover;
mod driver;
mod ffi;
mod gen;
mod model;
mod oracle;
mod profile;
mod run;
mod stream;
#[allow(warnings)]
mod server_bin { include!(concat!(env!("OUT_DIR"), "/server_bin.rs")); }
fn main() { std::env::set_var("RUST_BACKTRACE", "0"); std::process::exit(driver::main()) }
