// Facts extractor: dumps, for every body of the crate being compiled, its MIR together with
// resolved callees, types, trait implementations and type definitions, as one JSON file.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("VPFACTS_OUT") {
            let crate_name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            let wanted = std::env::var("VPFACTS_CRATES").unwrap_or_default();
            if wanted.split(',').any(|c| c == crate_name) {
                let out = facts::dump(tcx);
                std::fs::create_dir_all(&dir).expect("facts dir");
                let path = format!("{}/{}.json", dir, crate_name);
                let tmp = format!("{}.tmp{}", path, std::process::id());
                std::fs::write(&tmp, out).expect("write facts");
                std::fs::rename(&tmp, &path).expect("rename facts");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Awarnings".into());
    std::process::exit(if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)).is_ok() { 0 } else { 1 });
}
