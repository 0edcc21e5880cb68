// Root of the harness that explores every schedule of the threads behind --patch-back; see sched.rs.

#[path = "spec.rs"]
#[allow(dead_code)]
mod spec;
#[path = "explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "cases.rs"]
#[allow(dead_code)]
mod cases;
#[path = "exprs.rs"]
#[allow(dead_code)]
mod exprs;
#[path = "grammar.rs"]
#[allow(dead_code)]
mod grammar;
#[path = "roundtrip.rs"]
#[allow(dead_code)]
mod roundtrip;
#[path = "streaming.rs"]
#[allow(dead_code)]
mod streaming;
#[path = "sched.rs"]
#[allow(dead_code)]
mod sched;

pub use sched::{process, sync, thread};

use crate::pipeline::{Pipeline, PipelineArgs};
use clap::Parser as _;
use explore::*;
include!("util.rs");
include!("inproc.rs");

struct Sched {
    inner: InProc,
    stats: sched::Stats,
    cut: u64,
    whole: u64,
    delayed: u64,
    validated: u64,
    mismatches: u64,
}

impl Sched {
    fn once(&mut self, case: &Case) -> Got {
        let has_files = case.args.iter().any(|x| x.contains("/out/"));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inner.run_impl(case)));
        let files = if has_files { collect(case.dir) } else { Vec::new() };
        match r {
            Ok(Ok(out)) => Got::Out(out, files),
            Ok(Err(e)) if e.starts_with('!') => Got::Bad(e[1..].to_string()),
            Ok(Err(_)) => Got::Reject(String::new()),
            Err(e) if e.is::<sched::Abort>() => std::panic::resume_unwind(e),
            Err(e) => Got::Reject(format!("panic: {}", panic_text(&e))),
        }
    }
}

impl Exec for Sched {
    fn run(&mut self, case: &Case) -> Got {
        let num = |k: &str, d: usize| env(k).map_or(d, |x| x.parse().unwrap());
        let setup = sched::Setup {
            capacity: case.stale.iter().find(|x| x.0 == "capacity").map_or(4096, |x| x.1.len()),
            chunk: case.stale.iter().find(|x| x.0 == "chunk").map_or(4096, |x| x.1.len()),
            spurious: case.stale.iter().filter(|x| x.0 == "spurious").count(),
            delays: env("NDV_DELAYS").map(|x| x.parse().unwrap()),
            reduce: env("NDV_BRUTE").is_none(),
            limit: num("NDV_SCHEDULES", if env("NDV_TIER").as_deref() == Some("thorough") { 200_000 } else { 12_000 }) as u64,
        };
        let mut first: Option<Got> = None;
        let bad = std::cell::RefCell::new(None::<String>);
        let mut stats = self.stats.clone();
        let before = stats.schedules;
        let validate = case.stale.iter().any(|x| x.0 == "validate");
        stats.classes = if validate || env("NDV_CLASSES").is_some() { Some(Default::default()) } else { None };
        let mut each = |end: sched::End<Got>, schedule: &dyn Fn() -> String| {
            let why = match end {
                sched::End::Deadlock => "deadlock".to_string(),
                sched::End::Livelock => "no end in sight".to_string(),
                sched::End::Value(Got::Bad(s)) => s,
                sched::End::Value(v) => match &first {
                    None => {
                        first = Some(v);
                        return true;
                    }
                    Some(f) if *f == v => return true,
                    Some(f) => {
                        let show = |g: &Got| match g {
                            Got::Out(o, f) => format!("{} bytes {:?} and files {:?}", o.len(), String::from_utf8_lossy(&o[..o.len().min(200)]), f.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>()),
                            g => format!("{g:?}"),
                        };
                        format!("the result depends on the schedule: {} or {}", show(f), show(&v))
                    }
                },
            };
            *bad.borrow_mut() = Some(format!("{why}; schedule: {}", schedule()));
            false
        };
        let mut complete = sched::explore(&setup, &mut stats, &mut || self.once(case), &mut each);
        if !complete && bad.borrow().is_none() {
            // too many: those with few delays
            let setup = sched::Setup { delays: Some(num("NDV_DELAYS", if setup.limit > 100_000 { 3 } else { 2 })), ..setup };
            complete = sched::explore(&setup, &mut stats, &mut || self.once(case), &mut each);
            self.delayed += complete as u64;
        } else {
            self.whole += complete as u64;
        }
        if validate && complete && matches!(first, Some(Got::Out(..))) {
            // without the reduction (sleep sets alone): there must be as many classes of schedules
            let mut all = sched::Stats { classes: Some(Default::default()), ..Default::default() };
            let whole = sched::Setup { reduce: false, limit: 20_000, ..setup };
            if sched::explore(&whole, &mut all, &mut || self.once(case), &mut |_, _| true) {
                self.validated += 1;
                self.mismatches += (all.classes.map(|x| x.len()) != stats.classes.as_ref().map(|x| x.len())) as u64;
            }
        }
        self.stats = stats;
        if env("NDV_LOUD").is_some() {
            eprintln!("{} schedules, {} classes, depth {}: {:?} {:?}", self.stats.schedules - before, self.stats.classes.as_ref().map_or(0, |x| x.len()), self.stats.max_depth, case.args, case.stale.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>());
        }
        if let Some(b) = bad.into_inner() {
            return Got::Bad(b);
        }
        self.cut += !complete as u64;
        first.unwrap_or(Got::Bad("no schedule ends".into()))
    }

    fn check_args(&mut self, _: &[String]) -> Result<(), String> {
        Ok(())
    }

    fn name(&self) -> &'static str {
        "in-process, under every schedule"
    }

    fn extra(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("schedules", self.stats.schedules),
            ("cut_by_sleep_sets", self.stats.redundant),
            ("steps", self.stats.steps),
            ("longest_schedule", self.stats.max_depth as u64),
            ("cases_with_all_schedules", self.whole),
            ("cases_with_all_schedules_of_few_delays", self.delayed),
            ("cases_cut_at_the_limit", self.cut),
            ("cases_explored_without_reduction_too", self.validated),
            ("of_which_with_other_classes_of_schedules", self.mismatches),
        ]
    }
}

extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
}

/// one thread runs at a time: switching between them is much faster on one processor
fn pin(k: usize) {
    let mut mask = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) < 0 {
            return;
        }
        let all: Vec<usize> = (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
        if !all.is_empty() {
            let c = all[k % all.len()];
            mask = [0; 16];
            mask[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, mask.as_ptr());
        }
    }
}

pub fn main() -> bool {
    if env("NDV_PROP").is_none() {
        return false;
    }
    pin(env("NDV_SHARD").map_or(0, |x| x.split('/').next().unwrap().parse().unwrap()));
    if env("NDV_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut exec = Sched { inner: InProc, stats: Default::default(), cut: 0, whole: 0, delayed: 0, validated: 0, mismatches: 0 };
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(&mut exec, BLOCK_SIZE, &cases::run))) {
        eprintln!("harness error: {}", panic_text(&e));
        std::process::exit(3);
    }
    true
}
