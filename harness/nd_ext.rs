// Root of the harness that knows nothing about nd's insides: every case is a run of a whole nd process.
// It runs the program named by NDV_EXE (default: this very binary, which is an ordinary nd when NDV_PROP is unset).
// NDV_DELIVERY: "file" (default) gives the inputs as files, "pipe" the last one through stdin, one fragment at a time.

#[path = "spec.rs"]
#[allow(dead_code)]
mod spec;
#[path = "explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "cases.rs"]
#[allow(dead_code)]
mod cases;
#[path = "exprs.rs"]
#[allow(dead_code)]
mod exprs;
#[path = "grammar.rs"]
#[allow(dead_code)]
mod grammar;
#[path = "roundtrip.rs"]
#[allow(dead_code)]
mod roundtrip;
#[path = "streaming.rs"]
#[allow(dead_code)]
mod streaming;

use explore::*;
include!("util.rs");

extern "C" {
    fn ioctl(fd: i32, req: u64, ...) -> i32;
}
const FIONREAD: u64 = 0x541b;

struct Proc {
    exe: std::path::PathBuf,
    pipe: bool,
}

impl Proc {
    fn spawn(&self, case: &Case) -> std::io::Result<(std::process::Output, bool)> {
        use std::process::*;
        let mut c = Command::new(&self.exe);
        c.args(case.args).env_remove("NDV_PROP").env_remove("PAGER").stdout(Stdio::piped()).stderr(Stdio::piped());
        let n = case.inputs.len();
        let pipe = self.pipe && !case.args.iter().any(|x| x == "--inplace");
        for (i, d) in case.inputs.iter().enumerate() {
            if pipe && i + 1 == n {
                c.arg("-");
                break;
            }
            let p = format!("{}/in{i}", case.dir);
            std::fs::write(&p, d)?;
            c.arg(&p);
        }
        if !pipe || n == 0 {
            return Ok((c.stdin(Stdio::null()).output()?, true));
        }
        let (data, frag) = (&case.inputs[n - 1], &case.frags[n - 1]);
        let (rd, mut wr) = std::io::pipe()?;
        let probe = rd.try_clone()?;
        let mut child = c.stdin(rd).spawn()?;
        drop(c);
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let th = std::thread::spawn(move || {
            use std::io::Read;
            let mut v = Vec::new();
            so.read_to_end(&mut v).unwrap();
            v
        });
        let te = std::thread::spawn(move || {
            use std::io::Read;
            let mut v = Vec::new();
            se.read_to_end(&mut v).unwrap();
            v
        });
        let mut head: std::collections::VecDeque<usize> = frag.head.iter().copied().collect();
        let mut pos = 0;
        'feed: while pos < data.len() {
            let n = head.pop_front().unwrap_or(frag.rest).max(1).min(data.len() - pos);
            // a fragment larger than the pipe goes in pieces
            for part in data[pos..pos + n].chunks(32768) {
                std::io::Write::write_all(&mut wr, part)?;
                let mut spins = 0u32;
                loop {
                    let mut left = 0i32;
                    use std::os::fd::AsRawFd;
                    unsafe { ioctl(probe.as_raw_fd(), FIONREAD, &mut left as *mut i32) };
                    if left == 0 {
                        break;
                    }
                    spins += 1;
                    if spins % 64 == 0 && child.try_wait()?.is_some() {
                        break 'feed;
                    }
                    if spins > 200 {
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    } else {
                        std::thread::yield_now();
                    }
                }
            }
            pos += n;
        }
        drop(wr);
        drop(probe);
        let status = child.wait()?;
        Ok((Output { status, stdout: th.join().unwrap(), stderr: te.join().unwrap() }, true))
    }
}

impl Exec for Proc {
    fn run(&mut self, case: &Case) -> Got {
        let has_files = case.args.iter().any(|x| x.contains("/out/"));
        if has_files {
            for (n, b) in case.stale {
                std::fs::write(format!("{}/out/{}", case.dir, n), b).unwrap();
            }
        }
        let (o, _) = self.spawn(case).expect("failed to run nd");
        let files = if has_files { collect(case.dir) } else { Vec::new() };
        let err = String::from_utf8_lossy(&o.stderr[..o.stderr.len().min(400)]).to_string();
        match o.status.code() {
            Some(0) if case.args.iter().any(|x| x == "--inplace") => {
                // the result is in the file; nothing goes to stdout
                let edited = std::fs::read(format!("{}/in0", case.dir)).unwrap();
                Got::Out([o.stdout, edited].concat(), files)
            }
            Some(0) => Got::Out(o.stdout, files),
            Some(n) => Got::Reject(format!("exit status {n}: {err}")),
            None => Got::Bad(format!("{}: {err}", o.status)),
        }
    }

    fn check_args(&mut self, args: &[String]) -> Result<(), String> {
        let o = std::process::Command::new(&self.exe)
            .args(args)
            .env_remove("NDV_PROP")
            .env_remove("PAGER")
            .stdin(std::process::Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        if o.status.success() {
            Ok(())
        } else {
            Err(String::from_utf8_lossy(&o.stderr).to_string())
        }
    }

    fn name(&self) -> &'static str {
        "process"
    }

    fn external(&self) -> bool {
        true
    }
}

pub fn main() -> bool {
    if env("NDV_PROP").is_none() {
        return false;
    }
    let exe = env("NDV_EXE").map(Into::into).unwrap_or_else(|| std::env::current_exe().unwrap());
    let mut exec = Proc { exe, pipe: env("NDV_DELIVERY").as_deref() == Some("pipe") };
    let b = env("NDV_B").map_or(BLOCK_SIZE, |x| x.parse().unwrap());
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(&mut exec, b, &cases::run))) {
        eprintln!("harness error: {}", panic_text(&e));
        std::process::exit(3);
    }
    true
}
