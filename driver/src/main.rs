//! rustc driver used as RUSTC_WORKSPACE_WRAPPER. Dumps the promoted MIR of every body of the
//! crates being compiled, with resolved callees and evaluated constants, as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_data_structures;
extern crate rustc_index;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            dump::dump(tcx, dir);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name")
        || args.iter().any(|a| a == "___");
    let out = if probing { None } else { std::env::var("VQFACTS_OUT").ok() };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
