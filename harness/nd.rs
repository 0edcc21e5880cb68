// Root of the in-crate harness; pulled into nd's main.rs under cfg(nd_verif).
// Built with ND_VERIF_BLOCK=<block size>. Without NDV_PROP in the environment the binary is an ordinary nd
// (with that block size).

#[path = "spec.rs"]
#[allow(dead_code)]
mod spec;
#[path = "explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "cases.rs"]
#[allow(dead_code)]
mod cases;
#[path = "exprs.rs"]
#[allow(dead_code)]
mod exprs;
#[path = "grammar.rs"]
#[allow(dead_code)]
mod grammar;
#[path = "roundtrip.rs"]
#[allow(dead_code)]
mod roundtrip;
#[path = "streaming.rs"]
#[allow(dead_code)]
mod streaming;

use crate::pipeline::{Pipeline, PipelineArgs};
use clap::Parser as _;
use explore::*;
include!("util.rs");

include!("inproc.rs");

impl Exec for InProc {
    fn run(&mut self, case: &Case) -> Got {
        let has_files = case.args.iter().any(|x| x.contains("/out/"));
        if has_files {
            for (n, b) in case.stale {
                std::fs::write(format!("{}/out/{}", case.dir, n), b).unwrap();
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_impl(case)));
        let files = if has_files { collect(case.dir) } else { Vec::new() };
        match r {
            Ok(Ok(out)) => Got::Out(out, files),
            Ok(Err(e)) if e.starts_with('!') => Got::Bad(e[1..].to_string()),
            Ok(Err(e)) => Got::Reject(e),
            Err(e) => {
                let s = panic_text(&e);
                if s.contains("no progress at the end") {
                    Got::Bad(s)
                } else {
                    Got::Reject(format!("panic: {s}"))
                }
            }
        }
    }

    fn check_args(&mut self, args: &[String]) -> Result<(), String> {
        let argv = std::iter::once("nd".to_string()).chain(args.iter().cloned());
        let args = PipelineArgs::try_parse_from(argv).map_err(|e| format!("{e}"))?;
        Pipeline::from_args(&args).map_err(|e| format!("{e:?}"))?;
        Ok(())
    }

    fn name(&self) -> &'static str {
        "in-process"
    }
}

pub fn main() -> bool {
    if env("NDV_PROP").is_none() {
        return false;
    }
    if env("NDV_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // a panic out here is the harness's own
    if let Err(e) = std::panic::catch_unwind(|| drive(&mut InProc, BLOCK_SIZE, &cases::run)) {
        eprintln!("harness error: {}", panic_text(&e));
        std::process::exit(3);
    }
    true
}
