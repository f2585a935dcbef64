//! vebdump: a rustc driver that writes the monomorphic MIR reachable from the
//! analysis roots (the public functions of the harness crate's module `roots`)
//! as JSON.  It runs nothing: the compiler type-checks, borrow-checks and
//! lowers /repo's crate and the harness, and this driver serialises the result.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod json;
mod mirdump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
    facts: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let s = mirdump::dump(tcx);
            std::fs::write(out, s).expect("cannot write dump");
        }
        if let Some(out) = &self.facts {
            let s = facts::dump(tcx);
            std::fs::write(out, s).expect("cannot write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    // Used as RUSTC_WRAPPER: argv[1] is the path of the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut krate = String::new();
    let mut i = 0;
    while i + 1 < args.len() {
        if args[i] == "--crate-name" {
            krate = args[i + 1].clone();
        }
        i += 1;
    }
    let dir = std::env::var("VEBDUMP_OUT").ok();
    let mut cb = Cb { out: None, facts: None };
    if let Some(dir) = dir {
        if krate == "veb_harness" {
            cb.out = Some(format!("{dir}/mir.json"));
        }
        if krate == "veb_tree" {
            cb.facts = Some(format!("{dir}/facts.json"));
        }
    }
    rustc_driver::install_ice_hook("vebdump", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
