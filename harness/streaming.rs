// C28: what nd holds and how far it reads ahead don't depend on how long the streams are.

use super::cases::*;
use super::explore::*;
use super::spec::*;

/// how many blocks of the input may be read before what they say is put out, and beyond the last byte that matters
const AHEAD: usize = 16;
/// how many more blocks than twice as many may be held when the streams are eight times longer
const GROWTH: usize = 16;

struct Family {
    cfg: Cfg,
    raw: bool,  // or records for -F x / -F nnx
    inputs: usize,
    tick: bool, // contents for --find and --regex, otherwise all bytes are different from those around
    lag: bool,  // is stdout where the output goes, by this thread
    finite: bool, // nothing beyond the first block matters
}

impl Family {
    /// streams of m blocks; shorter ones are prefixes of longer ones
    fn make(&self, m: usize, b: usize) -> Vec<Input> {
        let n = m * b;
        if self.raw {
            let body = if self.tick { tick(n) } else { pos(n) };
            return (0..self.inputs).map(|k| if k + 1 < self.inputs && matches!(self.cfg.join, Join::Cat(_)) { Input::Raw(pos(5)) } else { Input::Raw(body.clone()) }).collect();
        }
        let body = pos(n / 4);
        let recs = body.chunks(16).enumerate().map(|(i, c)| rec(16 * i as u64, c.len() as u64, c)).collect();
        vec![Input::Recs(recs, true)]
    }
}

fn families(x: &X) -> Vec<Family> {
    let b = x.b;
    let bi = b as i64;
    let none = |o: usize, s: usize| Rec { off: o as u64, span: s as u64, body: None, mosaic: 0, pad: 0, style: 0 };
    let long = if x.thorough { 8192 } else { 2048 };
    let many: Vec<Rec> = (0..long * b / 64).map(|i| rec(64 * i as u64 + 3, (i % 5) as u64, &[i as u8, 1, 2][..i % 4])).collect();
    let guide: Vec<Rec> = (0..long * b / 100).map(|i| none(100 * i + 3, 1 + i % 150)).collect();
    let r = |a, b| vec![Rg(a, b)];

    // (name for the eye only) stages 1 and 2
    let base = |cfg: Cfg| Family { cfg, raw: true, inputs: 1, tick: false, lag: true, finite: false };
    let mut front: Vec<Family> = vec![
        base(Cfg::default()),
        Family { inputs: 2, ..base(Cfg { join: Join::Cat(4), ..Cfg::default() }) },
        Family { inputs: 2, ..base(Cfg { join: Join::Zip(2), ..Cfg::default() }) },
        Family { inputs: 3, ..base(Cfg { join: Join::Zip(1), ..Cfg::default() }) },
        Family { raw: false, ..base(Cfg { infmt: Some("x"), ..Cfg::default() }) },
        Family { raw: false, ..base(Cfg { infmt: Some("nnx"), ..Cfg::default() }) },
        Family { finite: true, ..base(Cfg { cut: Some(vec![Rg((S, 0), (S, 10)), Rg((S, 20), (S, 50))]), ..Cfg::default() }) },
        Family { finite: true, ..base(Cfg { cut: Some(r((S, 3), (S, bi))), pad: Some((3, 5)), ..Cfg::default() }) },
        base(Cfg { pad: Some((3, 5)), ..Cfg::default() }),
        base(Cfg { pad: Some((2 * b + 1, 7)), ..Cfg::default() }),
        base(Cfg { patch: Some((vec![rec(3, 2, &[1, 2, 3])], true)), ..Cfg::default() }),
        base(Cfg { patch: Some((many.clone(), true)), ..Cfg::default() }),
        base(Cfg { patch: Some((many.clone(), true)), pad: Some((1, 1)), ..Cfg::default() }),
    ];
    // stage 3
    let slicers: Vec<(Slicer, bool, bool)> = vec![
        // slicer, needs tick, only at the head
        (Slicer::Default, false, false),
        (Slicer::Width(3, None), false, false),
        (Slicer::Width(100, Some(Rg((S, -1), (E, 1)))), false, false),
        (Slicer::Width(100, Some(Rg((S, 30), (E, -30)))), false, false),
        (Slicer::Width(b + 7, None), false, false),
        (Slicer::Find(b"cab".to_vec()), true, false),
        (Slicer::Find(b"\x07".to_vec()), false, false),
        (Slicer::Walk(vec![we("5", |_| 5), we("70", |_| 70)]), false, false),
        (Slicer::Slice(vec![Rg((S, 3), (S, 5)), Rg((S, 4), (S, 90))]), false, true),
        (Slicer::Guide(vec![none(3, 4), none(7, 60)]), false, true),
        (Slicer::Guide(guide), false, false),
        // the next record is a long way off
        (Slicer::Guide(vec![none(3, 4), none(long * b - 100, 50)]), false, true),
        (Slicer::Guide(vec![none(long * b - 100, 50), none(long * b - 50, 50)]), false, true),
    ];
    // stage 4
    let mids: Vec<(Cfg, bool)> = vec![
        (Cfg::default(), false),
        (Cfg { regex: Some("a+|b".into()), ..Cfg::default() }, false),
        (Cfg { invert: Some(r((S, 0), (E, 0))), ..Cfg::default() }, false),
        (Cfg { invert: Some(vec![Rg((S, -1), (S, 2)), Rg((E, -2), (E, 1))]), ..Cfg::default() }, false),
        (Cfg { extend: Some(r((S, -3), (E, 3))), ..Cfg::default() }, false),
        (Cfg { extend: Some(vec![Rg((S, 0), (S, 1)), Rg((E, -1), (E, 400))]), ..Cfg::default() }, false),
        (Cfg { extend: Some(r((S, 3), (E, -3))), merge: Some(1), ..Cfg::default() }, false),
        (Cfg { lines: Some(vec![Rg((S, 3), (S, 5)), Rg((S, 7), (S, 1 << 40))]), ..Cfg::default() }, false),
        (Cfg { lines: Some(vec![Rg((S, 0), (S, 2)), Rg((S, 5), (S, 9))]), ..Cfg::default() }, true),
        (Cfg { invert: Some(r((S, 0), (E, 0))), extend: Some(r((S, 1), (E, -1))), lines: Some(vec![Rg((S, 1), (S, 1 << 40))]), ..Cfg::default() }, false),
        (Cfg { regex: Some("[abc]".into()), extend: Some(r((S, -1), (E, 1))), lines: Some(vec![Rg((S, 1), (S, 1 << 40))]), ..Cfg::default() }, false),
    ];
    let outs: Vec<(Option<&'static str>, Out, bool)> = vec![
        (None, Out::Default, true),
        (Some("b"), Out::Default, true),
        (Some("d"), Out::Default, true),
        (None, Out::Template(Tmpl { ..templates()[0].clone() }), false),
        (None, Out::PatchBack(Cmd::DropAll), false),
        (None, Out::PatchBack(Cmd::Id), false),
    ];
    let mut v = Vec::new();
    let apply = |f: &Family, s: &(Slicer, bool, bool), m: &(Cfg, bool), o: &(Option<&'static str>, Out, bool)| {
        let finite = f.finite || (s.2 && m.0.invert.is_none() && m.0.extend.is_none() && !matches!(s.0, Slicer::Guide(_))) || (m.1 && !s.2);
        let cfg = Cfg { slicer: s.0.clone(), regex: m.0.regex.clone(), invert: m.0.invert.clone(), extend: m.0.extend.clone(), merge: m.0.merge, lines: m.0.lines.clone(), outfmt: o.0, out: o.1.clone(), ..f.cfg.clone() };
        Family { cfg, raw: f.raw, inputs: f.inputs, tick: s.1 || m.0.regex.is_some(), lag: o.2, finite: finite && o.2 }
    };
    // everything with everything, two stages at a time
    for f in &front {
        for s in &slicers {
            v.push(apply(f, s, &mids[0], &outs[1]));
        }
    }
    for s in &slicers {
        for m in &mids {
            // slices between those at the head and the end of the stream are as long as the stream
            if !s.2 || m.0.invert.is_none() {
                v.push(apply(&front[0], s, m, &outs[0]));
            }
        }
    }
    for f in front.drain(..) {
        for o in &outs {
            v.push(apply(&f, &slicers[0], &mids[0], o));
        }
        for m in &mids {
            v.push(apply(&f, &slicers[0], m, &outs[0]));
        }
    }
    let f = base(Cfg::default());
    for s in &slicers {
        for o in outs.iter().filter(|o| !matches!(o.1, Out::PatchBack(Cmd::Id)) || !overlapping(&s.0)) {
            v.push(apply(&f, s, &mids[0], o));
        }
    }
    for m in &mids {
        for o in outs.iter().filter(|o| !matches!(o.1, Out::PatchBack(Cmd::Id)) || m.0.extend.is_none() || m.0.merge.is_some()) {
            v.push(apply(&f, &slicers[0], m, o));
        }
    }
    v
}

fn overlapping(s: &Slicer) -> bool {
    match s {
        Slicer::Width(n, Some(r)) => r.map(0, *n as i64).0 < 0,
        Slicer::Slice(_) => true,
        Slicer::Guide(g) => g.len() > 2,
        _ => false,
    }
}

fn out_of(e: &Expect) -> Option<(&Vec<u8>, &Vec<(String, Vec<u8>)>)> {
    match e {
        Expect::Out(o, f) => Some((o, f)),
        _ => None,
    }
}

pub fn streaming(x: &mut X) {
    let b = x.b;
    let blocks = if x.thorough { [256, 1024, 8192] } else { [128, 256, 2048] };
    x.bound(&format!("streams of {blocks:?} blocks x every pair of (front: 18 ways to make the stream, 15 slicers, 12 chains of filters, 6 outputs); reads: full, B/2+1, 1000 bytes"));
    x.bound(&format!("the heap peaks at most {GROWTH} blocks above twice that of a stream an eighth as long (--patch-back: 400 blocks more); output lags at most {AHEAD} blocks behind the input, and at most that many are read beyond the last one that matters"));
    for f in families(x) {
        if !x.mine() {
            continue;
        }
        let (args, files) = f.cfg.args();
        let args: Vec<String> = args.iter().map(|a| a.replace("@DIR@", &x.dir)).collect();
        for (name, body) in &files {
            std::fs::write(format!("{}/{}", x.dir, name), body).unwrap();
        }
        x.written.clear();
        let dir = x.dir.clone();
        // the expectations are the same for all ways of reading
        let mut runs = Vec::new();
        for m in blocks {
            let whole = spec(&f.cfg, &f.make(m, b));
            let marks = [m / 4, m / 2, 3 * m / 4];
            let mut at = Vec::new();
            for k in marks.iter().filter(|_| f.lag) {
                let before = spec(&f.cfg, &f.make(k.saturating_sub(AHEAD), b));
                if let (Some((w, _)), Some((p, _))) = (out_of(&whole), out_of(&before)) {
                    let common = w.iter().zip(p).position(|(x, y)| x != y).unwrap_or(w.len().min(p.len()));
                    // what is put out may wait until there is a block of it
                    at.push((f.make(*k, b).last().unwrap().bytes().len(), common.saturating_sub(AHEAD * b)));
                }
            }
            let bytes: Vec<Vec<u8>> = f.make(m, b).iter().map(|x| x.bytes()).collect();
            x.longest = x.longest.max(bytes.iter().map(|x| x.len()).max().unwrap());
            runs.push((std::sync::Arc::new(bytes), whole, at));
        }
        for frag in [full(), fr(&[], b / 2 + 1), fr(&[], 1000)] {
            let what = || format!("{:?} on streams of {:?} bytes, reads of {}", args, runs.iter().map(|r| r.0.iter().map(|x| x.len()).collect::<Vec<_>>()).collect::<Vec<_>>(), frag.rest as isize);
            x.assert_case(&what, &mut |exec| {
                let mut peaks = Vec::new();
                let mut h = 0xcbf29ce484222325;
                for (bytes, whole, at) in &runs {
                    let (out, fs) = match whole {
                        Expect::Out(o, f) => (o, f),
                        Expect::Any => continue,
                        Expect::Reject => return Err("harness error: this is refused".into()),
                    };
                    let marks: Vec<usize> = at.iter().map(|x| x.0).collect();
                    let m = match exec.measure(&args, bytes, frag.rest, out, &marks, &dir)? {
                        Some(m) => m,
                        None => return Ok(0),
                    };
                    let fs: Vec<_> = fs.iter().filter(|x| !x.1.is_empty()).cloned().collect();
                    if m.files != fs {
                        return Err("the files differ from the expected ones".into());
                    }
                    for ((pos, want), got) in at.iter().zip(&m.at) {
                        if std::env::var("NDV_LOUD").is_ok() && got < want {
                            eprintln!("lag: {} at {pos}, want {want}", got);
                        }
                        if got < want {
                            return Err(format!("only {got} bytes are out when {pos} of {} are read, though {AHEAD} blocks earlier {want} were certain", bytes.last().unwrap().len()));
                        }
                    }
                    let taken = *m.taken.iter().max().unwrap();
                    if f.finite && taken > (AHEAD + 2) * b {
                        return Err(format!("{taken} bytes of an input are read, whereas only the first block matters"));
                    }
                    peaks.push(m.peak);
                    h = fnv(h, &(m.peak as u64 / 4096).to_le_bytes());
                }
                if std::env::var("NDV_LOUD").is_ok() {
                    eprintln!("peaks {peaks:?} {args:?}");
                }
                if let [.., p, q] = peaks[..] {
                    // buffers grow by doubling; what --patch-back keeps is spilled to files from 128 blocks on, twice
                    let spool = if matches!(f.cfg.out, Out::PatchBack(_)) { 400 } else { 0 };
                    if q > 2 * p + (GROWTH + spool) * b {
                        return Err(format!("the heap grows with the streams: peaks of {peaks:?} bytes"));
                    }
                }
                Ok(h)
            });
        }
        for (name, _) in &files {
            let _ = std::fs::remove_file(format!("{}/{}", x.dir, name));
        }
    }
}
