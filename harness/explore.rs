// Explorer: enumerates cases (configuration x inputs x read fragmentation x consumer behaviour), runs each one on the
// real code through an `Exec`, and compares the outcome with the reference model (spec.rs).

use super::spec::*;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;

/// how reads of one input are fragmented: the listed sizes first, then chunks of `rest` bytes
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frag {
    pub head: Vec<usize>,
    pub rest: usize,
}

pub fn fr(head: &[usize], rest: usize) -> Frag {
    Frag { head: head.to_vec(), rest: if rest == 0 { usize::MAX } else { rest } }
}

pub fn full() -> Frag {
    fr(&[], 0)
}

/// what the consumer at the end of the pipeline does at each step: (bytes requested, bytes taken)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Take {
    All,
    Nothing,
    Upto(usize),
}

#[derive(Clone, Debug)]
pub struct Case<'a> {
    pub args: &'a [String],
    pub inputs: &'a [Vec<u8>],
    pub frags: Vec<Frag>,
    pub consumer: &'a [(usize, Take)], // cycled; empty: the loop in nd's main function
    pub dir: &'a str,
    pub stale: &'a [(String, Vec<u8>)], // files that already exist in the output directory
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Got {
    Out(Vec<u8>, Vec<(String, Vec<u8>)>),
    Reject(String),
    Bad(String), // violates the protocol in itself (no progress, ...)
}

pub trait Exec {
    fn run(&mut self, case: &Case) -> Got;
    /// only parse and validate the arguments
    fn check_args(&mut self, args: &[String]) -> Result<(), String>;
    fn name(&self) -> &'static str;
    /// every case is a process: neither the consumer nor (with files) the fragmentation of the reads can be chosen
    fn external(&self) -> bool {
        false
    }
    /// runs on endless-looking streams and watches the heap; None if this cannot
    fn measure(&mut self, _args: &[String], _inputs: &std::sync::Arc<Vec<Vec<u8>>>, _rest: usize, _expect: &[u8], _marks: &[usize], _dir: &str) -> Result<Option<Meas>, String> {
        Ok(None)
    }
    /// numbers for the report
    fn extra(&self) -> Vec<(&'static str, u64)> {
        Vec::new()
    }
}

pub struct Meas {
    pub peak: usize,       // of the heap, in bytes
    pub taken: Vec<usize>, // bytes read from each input
    pub at: Vec<usize>,    // bytes of output when each mark on the last input was passed
    pub files: Vec<(String, Vec<u8>)>,
}

pub struct Violation {
    pub case: u64,
    pub detail: String, // json
}

pub struct X<'a> {
    pub b: usize,
    pub thorough: bool,
    pub big: bool, // large block sizes: only a thinned enumeration is affordable
    pub exec: &'a mut dyn Exec,
    pub shard: (u64, u64),
    pub groups: u64,
    pub cases: u64,
    pub ran: u64,
    pub rejects: u64,
    pub unspecified: u64,
    pub only: Option<u64>,
    pub violations: Vec<Violation>,
    pub max_violations: usize,
    pub outcomes: HashSet<u64>,
    pub digest: u64,
    pub bounds: Vec<String>,
    pub progress: Option<std::fs::File>,
    pub trace: Option<std::io::BufWriter<std::fs::File>>, // the outcome of every case, to compare builds
    pub dir: String,
    pub written: Vec<(String, Vec<u8>)>,
    pub samples: Vec<String>,
    pub consumers: Vec<Vec<(usize, Take)>>, // consumers to try on every case
    pub stale: Vec<(String, Vec<u8>)>,
    pub deadline: Option<std::time::Instant>,
    pub cut_short: bool,
    pub all_frags: bool,
    pub longest: usize,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn show(b: &[u8]) -> String {
    if b.len() <= 4096 {
        b.iter().map(|x| format!("{x:02x}")).collect()
    } else {
        let h: String = b[..2048].iter().map(|x| format!("{x:02x}")).collect();
        format!("{h}...({} bytes, fnv {:016x})", b.len(), fnv(0xcbf29ce484222325, b))
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let ctx = |v: &[u8]| String::from_utf8_lossy(&v[p.saturating_sub(40).min(v.len())..(p + 40).min(v.len())]).to_string();
    format!("lengths {} vs {}, first difference at {}: expected {:?} got {:?}", a.len(), b.len(), p, ctx(a), ctx(b))
}

impl<'a> X<'a> {
    pub fn bound(&mut self, s: &str) {
        self.bounds.push(s.to_string());
    }

    pub fn stopped(&self) -> bool {
        self.violations.len() >= self.max_violations
    }

    /// only when the in-crate harness does not build: the processes are too slow for the whole enumeration
    fn late(&mut self) -> bool {
        let late = self.deadline.map_or(false, |d| std::time::Instant::now() > d);
        self.cut_short |= late;
        late
    }

    /// takes the next group number, and tells if the group belongs to this shard
    pub fn mine(&mut self) -> bool {
        let g = self.groups;
        self.groups += 1;
        (g + g / self.shard.1 + g / self.shard.1 / self.shard.1) % self.shard.1 == self.shard.0 && !self.stopped() && !self.late()
    }

    /// one configuration on the same inputs with several fragmentations
    pub fn group(&mut self, cfg: &Cfg, inputs: &[Input], frags: &[Vec<Frag>]) {
        if !self.mine() {
            return;
        }
        let expect = spec(cfg, inputs);
        self.run_group(cfg, inputs, frags, &expect);
    }

    pub fn group1(&mut self, cfg: &Cfg, input: Input, frags: &[Frag]) {
        if !self.mine() {
            return;
        }
        let inputs = [input];
        let expect = spec(cfg, &inputs);
        let frags: Vec<_> = frags.iter().map(|f| vec![f.clone()]).collect();
        self.run_group(cfg, &inputs, &frags, &expect);
    }

    fn begin_case(&mut self) -> bool {
        let c = self.cases;
        self.cases += 1;
        if let Some(only) = self.only {
            if c != only {
                return false;
            }
        }
        if let Some(p) = &self.progress {
            let _ = p.write_all_at(&c.to_le_bytes(), 0);
        }
        self.ran += 1;
        true
    }

    pub fn run_group(&mut self, cfg: &Cfg, inputs: &[Input], frags: &[Vec<Frag>], expect: &Expect) {
        let (args, files) = cfg.args();
        let args: Vec<String> = args.iter().map(|x| x.replace("@DIR@", &self.dir)).collect();
        for (name, body) in &files {
            if self.written.iter().any(|x| x.0 == *name && x.1 == *body) {
                continue;
            }
            std::fs::write(format!("{}/{}", self.dir, name), body).unwrap();
            self.written.retain(|x| x.0 != *name);
            self.written.push((name.clone(), body.clone()));
        }
        let bytes: Vec<Vec<u8>> = inputs.iter().map(|x| x.bytes()).collect();
        self.longest = bytes.iter().map(|x| x.len()).max().unwrap_or(0).max(self.longest);
        let consumers = self.consumers.clone();
        let dir = self.dir.clone();
        let stale = self.stale.clone();
        let few = self.exec.external() && !self.all_frags;
        for f in frags.iter().take(if few { 1 } else { usize::MAX }) {
            for consumer in consumers.iter().take(if few { 1 } else { usize::MAX }) {
                if !self.begin_case() {
                    continue;
                }
                let case = Case { args: &args, inputs: &bytes, frags: f.clone(), consumer, dir: &dir, stale: &stale };
                if self.only.is_some() {
                    self.describe(&case, &files, expect, None);
                }
                let got = self.exec.run(&case);
                self.judge(&case, &files, expect, got);
                if self.stopped() {
                    return;
                }
            }
        }
    }

    fn note(&mut self, h: u64) {
        self.digest = fnv(self.digest, &h.to_le_bytes());
        if let Some(t) = &mut self.trace {
            let _ = t.write_all(&(self.cases - 1).to_le_bytes());
            let _ = t.write_all(&h.to_le_bytes());
        }
    }

    fn judge(&mut self, case: &Case, files: &[(String, Vec<u8>)], expect: &Expect, got: Got) {
        let h0 = 0xcbf29ce484222325;
        let h = match &got {
            Got::Out(o, f) => f.iter().fold(fnv(h0, o), |h, x| fnv(fnv(h, x.0.as_bytes()), &x.1)),
            Got::Reject(_) => 1,
            Got::Bad(_) => 2,
        };
        self.note(h);
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(h);
        }
        if self.samples.len() < 4 && ([1, 37, 83].contains(&self.ran) || self.ran % 4099 == 0) {
            self.samples.push(format!("{:?} on {:?} byte(s), reads {:?}", case.args, case.inputs.iter().map(|x| x.len()).collect::<Vec<_>>(), case.frags));
        }
        let why = match (expect, &got) {
            (_, Got::Bad(s)) => Some(s.clone()),
            (Expect::Any, _) => {
                self.unspecified += 1;
                None
            }
            (Expect::Reject, Got::Reject(_)) => {
                self.rejects += 1;
                None
            }
            (Expect::Reject, Got::Out(o, _)) => Some(format!("must be rejected but gave {} bytes of output", o.len())),
            (Expect::Out(..), Got::Reject(s)) => Some(format!("rejected: {s}")),
            (Expect::Out(o, f), Got::Out(o2, f2)) => {
                let f: Vec<_> = f.iter().filter(|x| !x.1.is_empty()).cloned().collect();
                let f2: Vec<_> = f2.iter().filter(|x| !x.1.is_empty()).cloned().collect();
                if o != o2 {
                    Some(first_diff(o, o2))
                } else if f != f2 {
                    let names = |f: &[(String, Vec<u8>)]| f.iter().map(|x| format!("{}:{}", x.0, x.1.len())).collect::<Vec<_>>();
                    let d = f.iter().zip(&f2).find(|x| x.0 != x.1).map(|x| first_diff(&x.0 .1, &x.1 .1)).unwrap_or_default();
                    Some(format!("files differ: expected {:?} got {:?}: {}", names(&f), names(&f2), d))
                } else {
                    None
                }
            }
        };
        if let Some(why) = why {
            let detail = self.describe(case, files, expect, Some((&got, &why)));
            self.violations.push(Violation { case: self.cases - 1, detail });
        }
    }

    fn describe(&self, case: &Case, files: &[(String, Vec<u8>)], expect: &Expect, got: Option<(&Got, &str)>) -> String {
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        let fs = |f: &[(String, Vec<u8>)]| list(f.iter().map(|x| list(vec![esc(&x.0), esc(&show(&x.1))])).collect());
        let ex = match expect {
            Expect::Out(o, f) => format!("{{\"stdout\":{},\"files\":{}}}", esc(&show(o)), fs(f)),
            x => esc(&format!("{x:?}")),
        };
        let (got, why) = match got {
            None => ("null".to_string(), "the process died or hung in this case"),
            Some((Got::Out(o, f), why)) => (format!("{{\"stdout\":{},\"files\":{}}}", esc(&show(o)), fs(f)), why),
            Some((x, why)) => (esc(&format!("{x:?}")), why),
        };
        let s = format!(
            "{{\"case\":{},\"exec\":{},\"block\":{},\"args\":{},\"files\":{},\"inputs\":{},\"frags\":{},\"consumer\":{},\"stale\":{},\"expected\":{},\"got\":{},\"why\":{}}}",
            self.cases - 1,
            esc(self.exec.name()),
            self.b,
            list(case.args.iter().map(|x| esc(x)).collect()),
            fs(files),
            list(case.inputs.iter().map(|x| esc(&show(x))).collect()),
            esc(&format!("{:?}", case.frags)),
            esc(&format!("{:?}", case.consumer)),
            fs(case.stale),
            ex,
            got,
            esc(why)
        );
        if let Ok(p) = std::env::var("NDV_ONLY_OUT") {
            let _ = std::fs::write(p, &s);
        }
        s
    }

    /// a yes/no check that has no pipeline behind it
    pub fn assert_case(&mut self, what: &dyn Fn() -> String, f: &mut dyn FnMut(&mut dyn Exec) -> Result<u64, String>) {
        if self.stopped() || self.late() || !self.begin_case() {
            return;
        }
        if self.only.is_some() {
            if let Ok(p) = std::env::var("NDV_ONLY_OUT") {
                let _ = std::fs::write(p, format!("{{\"case\":{},\"what\":{},\"why\":\"the process died or hung in this case\"}}", self.cases - 1, esc(&what())));
            }
        }
        if self.samples.len() < 4 && ([1, 37, 83].contains(&self.ran) || self.ran % 4099 == 0) {
            self.samples.push(what());
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self.exec)));
        let r = r.unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(&e))));
        match r {
            Ok(h) => {
                self.note(h);
                if self.outcomes.len() < 2_000_000 {
                    self.outcomes.insert(h);
                }
            }
            Err(why) => {
                let detail = format!("{{\"case\":{},\"what\":{},\"why\":{}}}", self.cases - 1, esc(&what()), esc(&why));
                if let Ok(p) = std::env::var("NDV_ONLY_OUT") {
                    let _ = std::fs::write(p, &detail);
                }
                self.violations.push(Violation { case: self.cases - 1, detail });
            }
        }
    }

    pub fn report(&self, path: &str) {
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        let s = format!(
            "{{\"groups\":{},\"cases\":{},\"ran\":{},\"cut_short\":{},\"longest\":{},\"rejects\":{},\"unspecified\":{},\"distinct\":{},\"digest\":\"{:016x}\",\"extra\":{{{}}},\"bounds\":{},\"samples\":{},\"violations\":{}}}\n",
            self.groups,
            self.cases,
            self.ran,
            self.cut_short,
            self.longest,
            self.rejects,
            self.unspecified,
            self.outcomes.len(),
            self.digest,
            self.exec.extra().iter().map(|x| format!("{}:{}", esc(x.0), x.1)).collect::<Vec<_>>().join(","),
            list(self.bounds.iter().map(|x| esc(x)).collect()),
            list(self.samples.iter().map(|x| esc(x)).collect()),
            list(self.violations.iter().map(|x| x.detail.clone()).collect())
        );
        let tmp = format!("{path}.tmp");
        let mut f = std::fs::File::create(&tmp).unwrap();
        f.write_all(s.as_bytes()).unwrap();
        drop(f);
        std::fs::rename(tmp, path).unwrap();
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "?".into())
}

pub fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|x| !x.is_empty())
}

/// entry point shared by the in-crate and the external harnesses
pub fn drive(exec: &mut dyn Exec, b: usize, run: &dyn Fn(&str, &mut X)) {
    let prop = env("NDV_PROP").unwrap();
    let shard = env("NDV_SHARD").unwrap_or_else(|| "0/1".into());
    let (i, n) = shard.split_once('/').unwrap();
    let dir = env("NDV_SCRATCH").unwrap();
    let _ = std::fs::create_dir_all(format!("{dir}/out"));
    let progress = env("NDV_PROGRESS").map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).unwrap());
    let thorough = env("NDV_TIER").map_or(false, |x| x == "thorough");
    let mut x = X {
        b,
        thorough,
        big: b > 65536,
        exec,
        shard: (i.parse().unwrap(), n.parse().unwrap()),
        groups: 0,
        cases: 0,
        ran: 0,
        rejects: 0,
        unspecified: 0,
        only: env("NDV_ONLY").map(|x| x.parse().unwrap()),
        violations: Vec::new(),
        max_violations: env("NDV_MAX").map_or(3, |x| x.parse().unwrap()),
        outcomes: HashSet::new(),
        digest: 0xcbf29ce484222325,
        bounds: Vec::new(),
        progress,
        trace: env("NDV_TRACE").map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap())),
        dir,
        written: Vec::new(),
        samples: Vec::new(),
        consumers: vec![vec![]],
        stale: Vec::new(),
        deadline: env("NDV_SECONDS").map(|x| std::time::Instant::now() + std::time::Duration::from_secs(x.parse().unwrap())),
        cut_short: false,
        longest: 0,
        all_frags: env("NDV_DELIVERY").is_some(),
    };
    run(&prop, &mut x);
    x.trace = None;
    if let Some(p) = env("NDV_REPORT") {
        x.report(&p);
    }
}
