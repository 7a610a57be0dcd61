//! rustc wrapper that dumps the type-checked program (MIR with resolved callees, type
//! definitions, impls, visibilities) of the crate `pddl` as JSON. Nothing of the crate is run.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, _c: &mut interface::Config) {}
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump::dump(tcx);
        std::fs::write(&self.out, j).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    // argv: [wrapper, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "pddl");
    let out = std::env::var("PDDL_FACTS_OUT").ok();
    if let (true, Some(out)) = (is_target, out) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
