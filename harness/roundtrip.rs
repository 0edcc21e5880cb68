// What nd writes, nd reads: relations between runs of the real code, with no reference model in between.

use super::cases::*;
use super::explore::*;
use super::grammar::{read_line, Line};
use super::spec::*;

fn run(e: &mut dyn Exec, args: &[String], input: &[u8], f: &Frag, dir: &str) -> Result<Vec<u8>, String> {
    let inputs = [input.to_vec()];
    let case = Case { args, inputs: &inputs, frags: vec![f.clone()], consumer: &[], dir, stale: &[] };
    match e.run(&case) {
        Got::Out(o, _) => Ok(o),
        Got::Reject(s) => Err(format!("{args:?} on {} bytes was rejected: {}", input.len(), s.chars().take(200).collect::<String>())),
        Got::Bad(s) => Err(format!("{args:?}: {s}")),
    }
}

fn records(text: &[u8]) -> Result<Vec<Rec>, String> {
    let mut v = Vec::new();
    for l in text.split_inclusive(|c| *c == b'\n') {
        match read_line(l.strip_suffix(b"\n").ok_or("the last line does not end")?) {
            Line::Rec(r) if r.body.as_ref().map_or(false, |b| b.len() as u64 == r.span) => v.push(r),
            _ => return Err(format!("not a record: {:?}", String::from_utf8_lossy(l))),
        }
    }
    Ok(v)
}

fn differ(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let p = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Err(format!("{what}: {} bytes instead of {}, the first difference at {p}", got.len(), want.len()))
}

struct Slicing {
    args: Vec<String>,
    tiles: bool, // the slices cover the stream from its head to its tail
}

fn slicings(b: usize, thorough: bool) -> Vec<Slicing> {
    let mut v = Vec::new();
    let mut put = |tiles: bool, a: &[&str]| v.push(Slicing { args: a.iter().map(|x| x.to_string()).collect(), tiles });
    put(true, &[]);
    for w in (1..=19).chain([31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, b, b + 1]) {
        put(true, &[&format!("--width={w}")]);
    }
    for w in [1, 3, 16, 17, 64, 255] {
        for r in ["s..e", "s+1..e", "s..e-1", "s-1..e+1", "s-3..e", "s..e+20", "s+1..s+2", "e-1..e+1"] {
            if w == 1 && matches!(r, "s+1..e" | "s..e-1" | "s+1..s+2") {
                continue;
            }
            put(false, &[&format!("--width={w},{r}")]);
        }
    }
    for e in ["1", "5,9,2", "300", "(b[0] & 7) + 1", "(b[0] & 63) + (b[1] & 31) + 2, 4"] {
        // the last chunk is cut by the end of the stream
        put(true, &[&format!("--walk={e}")]);
    }
    for p in ["07", "00", "0d 0e", "61", "01 02 03 04 05"] {
        put(false, &[&format!("--find={p}")]);
        put(false, &[&format!("--find={p}"), "--extend=s-9..e+17"]);
        put(false, &[&format!("--find={p}"), "--extend=s-9..e+17", "--merge=3"]);
        put(false, &[&format!("--find={p}"), "--invert=s..e"]);
    }
    put(false, &["--slice=1..3,3..70,65..90,e-20..e"]);
    put(false, &["--slice=2..2,5..5,e-1..e-1"]);
    put(false, &["--slice=0..e,1..e-1", "--lines=1..2"]);
    put(false, &["--width=16", "--lines=1..3,5..e-1"]);
    put(false, &["--width=16", "--regex=[a-m]+."]);
    put(false, &["--width=7", "--regex=[^a-m]+", "--extend=s-1..e", "--merge=1"]);
    put(false, &["--width=20", "--invert=s-2..e+2"]);
    put(false, &["--slice=1..3,9..12,30..31", "--invert=s+1..e-1"]);
    if thorough {
        for w in 20..=130 {
            put(true, &[&format!("--width={w}")]);
            put(false, &[&format!("--width={w},s-1..e+2"), "--merge=1"]);
        }
    }
    v
}

pub fn roundtrip(x: &mut X) {
    let b = x.b;
    let mut ns: Vec<usize> = if x.big { vec![1, 100] } else { (0..=40).chain([47, 48, 49, 63, 64, 65, 100, 191, 192, 193]).collect() };
    ns.extend(if x.big { vec![2 * b + 1] } else { lens(b) });
    x.bound("110 slicings (single slices, --width with and without ranges, --walk, --find, --slice, with --extend, --merge, --invert, --regex, --lines) x streams of 0..=40 bytes and more, and around the block boundaries x 3 byte patterns x 2 read schedules");
    x.bound("relations: every line of the dump is a record whose array has as many bytes as it says; the dump read with -F nnx gives what -f b gives; the dump of a tiling read with -F x gives the stream; the dump as a --patch leaves the stream as it is, and as a --guide yields the same slices; the dump read in 7-byte pieces gives the same");
    for n in ns {
        let all = slicings(b, x.thorough);
        for (k, s) in all.iter().enumerate() {
            for pattern in 0..3 {
                if n > b && pattern > 0 && !x.thorough && (k + n) % 3 != pattern {
                    continue;
                }
                if x.big && (k % 4 != 0 || pattern > 0 || s.args.iter().any(|a| a == "--width=1" || a == "--walk=1")) {
                    continue;
                }
                if !x.mine() {
                    continue;
                }
                let data: Vec<u8> = match pattern {
                    0 => pos(n),
                    1 => (0..n).map(|i| (i * i / 3 + i) as u8).collect(),
                    _ => (0..n).map(|i| b"ab|\n 0 | z\xff"[i * 7 % 11]).collect(),
                };
                let dir = x.dir.clone();
                x.longest = x.longest.max(n);
                x.written.clear();
                x.assert_case(&|| format!("{:?} on {n} bytes (pattern {pattern})", s.args), &mut |e| one(e, s, &data, &dir));
            }
        }
    }
}

fn one(e: &mut dyn Exec, s: &Slicing, data: &[u8], dir: &str) -> Result<u64, String> {
    let with = |more: &[&str]| -> Vec<String> { s.args.iter().cloned().chain(more.iter().map(|x| x.to_string())).collect() };
    let args = |a: &[&str]| -> Vec<String> { a.iter().map(|x| x.to_string()).collect() };
    let text = run(e, &s.args, data, &full(), dir)?;
    let recs = records(&text)?;
    let raw = run(e, &with(&["--out-format=b"]), data, &fr(&[], 0), dir)?;

    differ("the dump disagrees with --out-format b", &raw, &recs.iter().flat_map(|r| r.body.clone().unwrap()).collect::<Vec<_>>())?;
    for r in &recs {
        let (from, to) = (r.off as usize, (r.off + r.span) as usize);
        if to > data.len() || data[from..to] != r.body.as_ref().unwrap()[..] {
            return Err(format!("the record at {from} does not hold the bytes of the stream"));
        }
    }
    for f in [full(), fr(&[], 7)] {
        let back = run(e, &args(&["--in-format=nnx", "--out-format=b"]), &text, &f, dir)?;
        differ("-F nnx of the dump", &raw, &back)?;
        if s.tiles {
            let back = run(e, &args(&["--in-format=x", "--out-format=b"]), &text, &f, dir)?;
            differ("-F x of the dump", data, &back)?;
        }
    }
    if sorted_disjoint(&recs) && !recs.is_empty() {
        std::fs::write(format!("{dir}/dump"), &text).unwrap();
        let back = run(e, &args(&[&format!("--patch={dir}/dump"), "--out-format=b"]), data, &full(), dir)?;
        differ("the stream patched with its own dump", data, &back)?;
    }
    if recs.windows(2).all(|w| w[0].off <= w[1].off) && recs.iter().all(|r| (r.off as usize) < data.len()) && !recs.is_empty() {
        std::fs::write(format!("{dir}/dump"), &text).unwrap();
        let again = run(e, &args(&[&format!("--guide={dir}/dump")]), data, &full(), dir)?;
        if records(&again)? != recs {
            return Err("--guide with the dump does not yield the slices of the dump".into());
        }
    }
    Ok(fnv(fnv(7, &raw), &text))
}
