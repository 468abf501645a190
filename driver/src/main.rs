//! Compiler driver: acts as rustc for every crate, and in addition dumps
//! * for the crate `vroots`: the monomorphised MIR of everything reachable from its functions
//!   and from the non-generic functions of the crate under analysis;
//! * for the crate under analysis itself: items, attributes, impls, unsafe blocks.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate serde;
#[macro_use]
extern crate serde_json;

mod items;
mod mir;

use rustc_public::run_with_tcx;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls the wrapper as: wrapper <rustc> <args>
    if args.len() > 1 && (args[1] == "rustc" || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "gvas".to_string());
    let mir = std::env::var("MIRDUMP_MIR").unwrap_or_else(|_| "mir.json".to_string());
    let ok = if !out.is_empty() && crate_name == "vroots" && !mir.is_empty() {
        run_with_tcx!(&args, |tcx| {
            mir::dump(tcx, &target, &format!("{out}/{mir}"));
            std::ops::ControlFlow::<(), ()>::Continue(())
        })
        .is_ok()
    } else if !out.is_empty() && crate_name == target {
        run_with_tcx!(&args, |tcx| {
            items::dump(tcx, &format!("{out}/{}", std::env::var("MIRDUMP_ITEMS").unwrap_or_else(|_| "items.json".to_string())));
            std::ops::ControlFlow::<(), ()>::Continue(())
        })
        .is_ok()
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
            == std::process::ExitCode::SUCCESS
    };
    std::process::exit(if ok { 0 } else { 1 });
}
