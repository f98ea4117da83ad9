//! Fact extractor: a rustc driver that behaves exactly like rustc, and additionally writes, for every crate named in
//! `MIRFACTS_CRATES`, one JSON file `$MIRFACTS_OUT/<crate>.json` with the crate's MIR (built from /repo's current
//! source), resolved callees, evaluated constants and statics, type layouts, trait impls and signatures.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        // Keep the MIR close to the source: no inlining, no copy propagation.
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.ub_checks = Some(false);
        config.opts.unstable_opts.always_encode_mir = false;
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let text = dump::dump_crate(tcx);
            let tmp = format!("{out}.tmp{}", std::process::id());
            std::fs::write(&tmp, text).expect("write facts");
            std::fs::rename(&tmp, out).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER calls `wrapper rustc args...`.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().is_some_and(|s| s == "rustc") {
        args.remove(1);
    }
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let krate = get("--crate-name").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let is_build = krate == "build_script_build";
    let wanted = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let out_dir = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let out = (!is_test
        && !is_build
        && !out_dir.is_empty()
        && wanted.split(',').any(|c| !c.is_empty() && c == krate))
    .then(|| format!("{out_dir}/{krate}.json"));
    rustc_driver::install_ice_hook("about:blank", |_| ());
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
