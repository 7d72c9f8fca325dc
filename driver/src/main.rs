//! MIR fact extractor. Used as RUSTC_WRAPPER: for the crates under analysis it runs rustc with
//! callbacks that dump, after analysis, every local body plus every workspace instance reachable
//! from it (callees resolved, generic arguments substituted) as JSON. All other crates are
//! compiled by the plain rustc.
#![feature(rustc_private)]
#![feature(deref_patterns)]
#![allow(incomplete_features)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Dumper {
    out: String,
}

impl Callbacks for Dumper {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.trim_diagnostic_paths = false;
        config.opts.cg.overflow_checks = Some(true);
        config.opts.cg.debug_assertions = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kind = format!("{:?}", tcx.crate_types());
        let bin = kind.contains("Executable");
        let json = dump::dump(tcx);
        let name = format!("{}/{}{}.json", self.out, krate, if bin { ".bin" } else { ".lib" });
        std::fs::write(&name, json).expect("write mirdump output");
        Compilation::Continue
    }
}

fn rustc_interface_run(args: &[String], d: &mut Dumper) {
    rustc_driver::compiler_entrypoint(args, d)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv = [wrapper, rustc, args...]
    let rustc = args.remove(1);
    args[0] = rustc.clone();
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let wanted: Vec<String> = std::env::var("MIRDUMP_CRATES")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if out.is_empty() || !wanted.contains(&krate) {
        let st = std::process::Command::new(&rustc).args(&args[1..]).status().expect("run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_interface_run(&args, &mut Dumper { out });
    });
    std::process::exit(if format!("{:?}", code).contains("SUCCESS") || format!("{:?}", code).contains("(0)") { 0 } else { 1 });
}
