//! `rowan-mir`: a rustc driver that dumps the type-checked program (MIR with resolved callees,
//! ADTs, impls, auto-trait facts, visibility) of the workspace crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.  For the crates named in
//! ROWAN_MIR_CRATES it runs the front end twice (debug assertions off / on) and writes
//! $ROWAN_MIR_OUT/<crate>.<config>.json.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb {
    config: &'static str,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = dump::dump_crate(tcx, self.config);
        let mut s = String::new();
        j.write(&mut s);
        let dir = std::env::var("ROWAN_MIR_OUT").expect("ROWAN_MIR_OUT");
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let path = format!("{dir}/{name}.{}.json", self.config);
        std::fs::write(&path, s).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let wanted = std::env::var("ROWAN_MIR_CRATES").unwrap_or_else(|_| "rowan,xtask".to_string());
    let is_test = args.iter().any(|a| a == "--test");
    let hit = !is_test && wanted.split(',').any(|w| w == crate_name);
    if !hit {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    for (config, on) in [("debug", "on"), ("release", "off")] {
        let mut a = args.clone();
        a.push("-Zmir-opt-level=0".into());
        a.push(format!("-Cdebug-assertions={on}"));
        a.push(format!("-Coverflow-checks={on}"));
        a.push("-Zub-checks=no".into());
        a.push("--cap-lints=allow".into());
        rustc_driver::compiler_entrypoint(&a, &mut Cb { config });
    }
}
