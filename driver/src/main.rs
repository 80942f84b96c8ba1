//! Fact extractor: runs as the compiler for the harness crate and dumps, as JSON,
//! the monomorphic MIR reachable from the harness roots (with type layouts and
//! evaluated constants) and the public surface of the analysed crates.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

mod facts;
mod json;
mod mono;

use rustc_middle::ty::TyCtxt;
use std::ops::ControlFlow;

fn analyse(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("VP_OUT").expect("VP_OUT");
    mono::dump(tcx, &out);
    facts::dump(tcx, &out);
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // invoked as wrapper: args[0] is the real rustc
    let is_target = args
        .iter()
        .position(|v| v == "--crate-name")
        .and_then(|p| args.get(p + 1))
        .map(|v| v == "vpharness")
        .unwrap_or(false);
    if !is_target || std::env::var("VP_OUT").is_err() {
        let st = std::process::Command::new(&args[0])
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    args[0] = "rustc".into();
    let r = run_with_tcx!(&args, analyse);
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
