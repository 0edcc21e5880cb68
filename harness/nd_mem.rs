// Root of the harness that watches the heap; see streaming.rs.

#[path = "spec.rs"]
#[allow(dead_code)]
mod spec;
#[path = "explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "cases.rs"]
#[allow(dead_code)]
mod cases;
#[path = "exprs.rs"]
#[allow(dead_code)]
mod exprs;
#[path = "grammar.rs"]
#[allow(dead_code)]
mod grammar;
#[path = "roundtrip.rs"]
#[allow(dead_code)]
mod roundtrip;
#[path = "streaming.rs"]
#[allow(dead_code)]
mod streaming;

use crate::pipeline::{Pipeline, PipelineArgs};
use clap::Parser as _;
use explore::*;
include!("util.rs");


struct InProc;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// an input that is never copied, and tells where it was when
struct Watched {
    data: Arc<Vec<Vec<u8>>>,
    id: usize,
    rest: usize,
    pos: Arc<Vec<AtomicUsize>>,
    marks: Vec<usize>,
    out: Arc<AtomicUsize>,
    seen: Arc<Vec<AtomicUsize>>,
}

impl std::io::Read for Watched {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let data = &self.data[self.id];
        let pos = self.pos[self.id].load(Relaxed);
        for (k, m) in self.marks.iter().enumerate() {
            if pos >= *m && self.seen[k].load(Relaxed) == usize::MAX {
                self.seen[k].store(self.out.load(Relaxed), Relaxed);
            }
        }
        let n = self.rest.max(1).min(buf.len()).min(data.len() - pos);
        buf[..n].copy_from_slice(&data[pos..pos + n]);
        self.pos[self.id].store(pos + n, Relaxed);
        Ok(n)
    }
}

fn watch(args: &[String], inputs: &Arc<Vec<Vec<u8>>>, rest: usize, expect: &[u8], marks: &[usize]) -> Result<Meas, String> {
    let argv = std::iter::once("nd".to_string()).chain(args.iter().cloned());
    let args = PipelineArgs::try_parse_from(argv).map_err(|e| format!("{e}"))?;
    let pipeline = Pipeline::from_args(&args).map_err(|e| format!("{e:?}"))?;
    let pos: Arc<Vec<_>> = Arc::new(inputs.iter().map(|_| AtomicUsize::new(0)).collect());
    let seen: Arc<Vec<_>> = Arc::new(marks.iter().map(|_| AtomicUsize::new(usize::MAX)).collect());
    let out = Arc::new(AtomicUsize::new(0));
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let sources: Vec<Box<dyn std::io::Read + Send>> = (0..inputs.len())
        .map(|id| {
            let marks = if id + 1 == inputs.len() { marks.to_vec() } else { Vec::new() };
            let r = Watched { data: inputs.clone(), id, rest, pos: pos.clone(), marks, out: out.clone(), seen: seen.clone() };
            let r: Box<dyn std::io::Read + Send> = Box::new(r);
            r
        })
        .collect();
    let mut stream = pipeline.spawn_stream(sources).map_err(|e| format!("{e:?}"))?;
    let mut done = 0;
    loop {
        let (is_eof, bytes) = stream.fill_buf(BLOCK_SIZE).map_err(|e| format!("{e:?}"))?;
        if is_eof && bytes == 0 {
            break;
        }
        if expect.get(done..done + bytes) != Some(&stream.as_slice()[..bytes]) {
            return Err(format!("the output differs from the expected one within {done}..{}", done + bytes));
        }
        stream.consume(bytes);
        done += bytes;
        out.store(done, Relaxed);
    }
    if done != expect.len() {
        return Err(format!("the output ends at {done} instead of {}", expect.len()));
    }
    drop(stream);
    let peak = PEAK.load(Relaxed) - before;
    let at = seen.iter().map(|x| x.load(Relaxed)).collect();
    let taken = pos.iter().map(|x| x.load(Relaxed)).collect();
    Ok(Meas { peak, taken, at, files: Vec::new() })
}

impl Exec for InProc {
    fn run(&mut self, _: &Case) -> Got {
        Got::Bad("this harness only watches the heap".into())
    }

    fn measure(&mut self, args: &[String], inputs: &Arc<Vec<Vec<u8>>>, rest: usize, expect: &[u8], marks: &[usize], dir: &str) -> Result<Option<Meas>, String> {
        let r = watch(args, inputs, rest, expect, marks);
        let files = if args.iter().any(|x| x.contains("/out/")) { collect(dir) } else { Vec::new() };
        let mut m = r?;
        m.files = files.into_iter().filter(|x| !x.1.is_empty()).collect();
        Ok(Some(m))
    }

    fn check_args(&mut self, _: &[String]) -> Result<(), String> {
        Ok(())
    }

    fn name(&self) -> &'static str {
        "in-process, with a counting allocator"
    }
}

pub fn main() -> bool {
    if env("NDV_PROP").is_none() {
        return false;
    }
    if env("NDV_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // a panic out here is the harness's own
    if let Err(e) = std::panic::catch_unwind(|| drive(&mut InProc, BLOCK_SIZE, &cases::run)) {
        eprintln!("harness error: {}", panic_text(&e));
        std::process::exit(3);
    }
    true
}
