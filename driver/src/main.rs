// MIR fact extractor: a rustc wrapper that writes the type-checked, resolved
// program of each wrapped crate as JSON.  It runs nothing of the analysed crate.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            let suffix = if tcx.sess.is_test_crate() { "-test" } else { "" };
            let path = format!("{dir}/{name}{suffix}.json");
            let text = rustc_middle::ty::print::with_no_trimmed_paths!(dump::dump(tcx));
            let tmp = format!("{path}.tmp{}", std::process::id());
            std::fs::write(&tmp, text).expect("write dump");
            std::fs::rename(&tmp, &path).expect("rename dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_query = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V");
    rustc_driver::catch_with_exit_code(move || {
        if is_query {
            struct No;
            impl Callbacks for No {}
            rustc_driver::compiler_entrypoint(&args, &mut No);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        }
    })
}
