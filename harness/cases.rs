// Per-property enumerations. Everything here is a nested loop over finite sets; nothing is sampled.

use super::explore::*;
use super::spec::*;
use std::sync::Arc;

pub fn run(prop: &str, x: &mut X) {
    match prop {
        "dump-format" => dump_format(x),
        "text-input" => text_input(x),
        "tight" => tight(x),
        "assemble" => assemble(x),
        "cut" => cut(x),
        "pad" => pad(x),
        "patch" => patch(x),
        "width" => width(x),
        "find" => find(x),
        "walk" => walk(x),
        "slice" => slice(x),
        "guide" => guide(x),
        "regex" => regex(x),
        "invert" => invert(x),
        "extend" => extend(x),
        "merge" => merge(x),
        "lines" => lines(x),
        "output" => output(x),
        "patch-back" => patch_back(x),
        "schedules" => schedules(x),
        "compose" => compose(x),
        "chunking" => chunking(x),
        "expr" => super::exprs::expr(x),
        "values" => super::exprs::values(x),
        "format" => super::exprs::format(x),
        "roundtrip" => super::roundtrip::roundtrip(x),
        "streaming" => super::streaming::streaming(x),
        "grammar" => super::grammar::grammar(x),
        _ => panic!("unknown property {prop}"),
    }
    if !x.big {
        x.bound("'around the block boundaries' includes a stream of 6501 bytes, over which every StreamBuf unwinds three times");
    }
}

// ---------------------------------------------------------------- helpers

pub fn d() -> Cfg {
    Cfg { outfmt: Some("b"), ..Cfg::default() }
}

/// contents in which neighbouring and block-distant positions differ
pub fn pos(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 131 + (i >> 8) * 17 + 7) % 251) as u8).collect()
}

fn pos_at(k: usize, n: usize) -> Vec<u8> {
    pos(n).iter().map(|x| x.wrapping_add((k * 67) as u8)).collect()
}

/// every way of splitting n bytes into consecutive reads
pub fn compositions(n: usize) -> Vec<Frag> {
    if n <= 1 {
        return vec![full()];
    }
    (0..1u32 << (n - 1))
        .map(|m| {
            let mut head = Vec::new();
            let mut run = 1;
            for i in 0..n - 1 {
                if m >> i & 1 == 1 {
                    head.push(run);
                    run = 1;
                } else {
                    run += 1;
                }
            }
            head.push(run);
            fr(&head, 0)
        })
        .collect()
}

/// representative fragmentations of an n-byte input
pub fn frs(n: usize, b: usize) -> Vec<Frag> {
    if n <= 1 {
        return vec![full()];
    }
    if n <= 4 {
        return compositions(n);
    }
    if n <= 64 {
        return vec![full(), fr(&[], 1), fr(&[n - 1], 0), fr(&[1], 0)];
    }
    if n < b / 2 {
        return vec![full(), fr(&[], 1), fr(&[], n / 2 + 1)];
    }
    let mut v = vec![full(), fr(&[1], 0), fr(&[b - 1], 0), fr(&[], b / 2 + 1), fr(&[b - 1, 1], 0), fr(&[2, b - 1], 0)];
    if n < 16384 {
        v.push(fr(&[], 1));
        v.push(fr(&[b], 1));
    }
    v
}

pub fn few(n: usize, b: usize) -> Vec<Frag> {
    if n <= 1 {
        return vec![full()];
    }
    if n < b {
        return vec![full(), fr(&[], 1)];
    }
    vec![full(), fr(&[b - 1], 0), fr(&[], b / 2 + 1)]
}

/// lengths around the block boundaries
pub fn lens(b: usize) -> Vec<usize> {
    let mut v = vec![b - 2, b - 1, b, b + 1, b + 2, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 4 * b + 3];
    v.extend(long_len(b));
    v
}

/// long enough to make every StreamBuf unwind three times (it keeps up to seven margins of consumed bytes)
pub fn long_len(b: usize) -> Option<usize> {
    Some(6501).filter(|n| *n > 4 * b + 3 && b < 65536)
}

pub fn few_lens(b: usize) -> Vec<usize> {
    let mut v = vec![b - 1, b, b + 1, 2 * b + 1, 3 * b];
    v.extend(long_len(b));
    v
}

/// all words over the alphabet, up to the length
pub fn words(alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|w| alphabet.iter().map(move |c| w.iter().copied().chain([*c]).collect())).collect();
        all.extend(last.iter().cloned());
    }
    all
}

pub fn rgs(points: &[Pt]) -> Vec<Rg> {
    points.iter().flat_map(|a| points.iter().map(move |b| Rg(*a, *b))).collect()
}

pub fn pts(s: &[i64], e: &[i64]) -> Vec<Pt> {
    s.iter().map(|k| (S, *k)).chain(e.iter().map(|k| (E, *k))).collect()
}

fn same(n: usize, f: Vec<Frag>) -> Vec<Vec<Frag>> {
    f.into_iter().map(|f| vec![f; n]).collect()
}

// ---------------------------------------------------------------- dump

fn dump_format(x: &mut X) {
    let b = x.b;
    let mut ws: Vec<usize> = (1..=70).collect();
    ws.extend([79, 80, 81, 95, 96, 97, 111, 112, 113, 127, 128, 129, 191, 192, 193, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025]);
    ws.extend([b - 1, b, b + 1, 2 * b + 1]);
    x.bound("widths 1..=70, 79..=81, 95..=97, 111..=113, 127..=129, 191..=193, 255..=258, 300, 511..=513, 1023..=1025, B-1, B, B+1, 2B+1 x formats {default, x, xxx, b, d} x lengths {0, 1, w-1, w, w+1, 2w-1, 2w+3, 5w}");
    for &w in &ws {
        for fmt in [None, Some("x"), Some("xxx"), Some("b"), Some("d")] {
            for n in [0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w + 3, 5 * w] {
                if x.big && n > 3 * b {
                    continue;
                }
                let cfg = Cfg { slicer: Slicer::Width(w, None), outfmt: fmt, ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(n)), &few(n, b));
            }
        }
    }
    x.bound("every byte value in every column: widths 1..=68 x 256 rows, formats {x, d}");
    for w in 1..=68usize {
        for fmt in [None, Some("d")] {
            let v: Vec<u8> = (0..256 * w).map(|i| ((i / w) + (i % w) * 37) as u8).collect();
            let cfg = Cfg { slicer: Slicer::Width(w, None), outfmt: fmt, ..Cfg::default() };
            x.group1(&cfg, Input::Raw(v), &[full()]);
        }
    }
    x.bound("default slicer: all lengths 0..=70; all bytes equal to v for every v, lengths {1, 15, 16, 17, 33}");
    for n in 0..=70 {
        x.group1(&Cfg::default(), Input::Raw(pos(n)), &frs(n, b));
    }
    for v in 0..=255u8 {
        for n in [1, 15, 16, 17, 33] {
            x.group1(&Cfg::default(), Input::Raw(vec![v; n]), &[full()]);
        }
    }
    x.bound("one slice of every length 1..=300 at offsets {0, 1, 5}, and pairs of lengths 1..=40, without columns; formats {x, d, b, xxx}");
    for n in 1..=300usize {
        for o in [0, 1, 5] {
            for fmt in [None, Some("x"), Some("d"), Some("b")] {
                let cfg = Cfg { slicer: Slicer::Slice(vec![Rg((S, o), (S, o + n as i64))]), outfmt: fmt, ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(n + 10)), &[full()]);
            }
        }
    }
    for n in 1..=40i64 {
        for m in 1..=40i64 {
            let cfg = Cfg { slicer: Slicer::Slice(vec![Rg((S, 1), (S, 1 + n)), Rg((S, 3), (S, 3 + m))]), ..Cfg::default() };
            x.group1(&cfg, Input::Raw(pos(50)), &[full()]);
        }
    }
    x.bound("slices of 65534..=65538 and 1048575..=1048577 bytes (length field widens), widths and slices");
    if !x.big {
        for w in [65534usize, 65535, 65536, 65537, 65538] {
            for n in [w - 1, w, w + 1, 2 * w + 3] {
                for fmt in [None, Some("x")] {
                    let cfg = Cfg { slicer: Slicer::Width(w, None), outfmt: fmt, ..Cfg::default() };
                    x.group1(&cfg, Input::Raw(pos(n)), &[full(), fr(&[], b / 2 + 1)]);
                }
            }
        }
        for n in [1048575i64, 1048576, 1048577] {
            let cfg = Cfg { slicer: Slicer::Slice(vec![Rg((S, 3), (S, n + 3))]), ..Cfg::default() };
            x.group1(&cfg, Input::Raw(pos(n as usize + 10)), &[full()]);
        }
    }
    x.bound("--inplace default format, and explicit formats with --inplace");
    for n in 0..=40usize {
        for fmt in [None, Some("x"), Some("b")] {
            for out in [Out::Default, Out::Dash] {
                let cfg = Cfg { inplace: true, outfmt: fmt, out: out.clone(), ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(n)), &[full(), fr(&[], 3)]);
            }
        }
    }
    x.bound("explicit -f x on other slicers; column count of --width N,S..E: N 1..=20, S and E in s-3..=s+3 / e-3..=e+3");
    for n in 1..=20usize {
        for r in rgs(&pts(&[-3, -1, 0, 2, 3], &[-3, -2, 0, 1, 3])) {
            for fmt in [None, Some("x"), Some("d")] {
                let cfg = Cfg { slicer: Slicer::Width(n, Some(r)), outfmt: fmt, ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(45)), &[full()]);
            }
        }
    }
    x.bound("long dumps: lengths around the block boundaries x widths {1, 2, 3, 7, 16, 17, 64}");
    for n in lens(b) {
        for w in [1usize, 2, 3, 7, 16, 17, 64] {
            if x.big && w < 16 {
                continue;
            }
            let cfg = Cfg { slicer: Slicer::Width(w, None), ..Cfg::default() };
            x.group1(&cfg, Input::Raw(pos(n)), &few(n, b));
        }
    }
}

// ---------------------------------------------------------------- text input

/// lengths that leave every possible room at the end of a buffer
fn tight(x: &mut X) {
    x.bound("two slices of 1..=180 and 1..=40 bytes, formats {x, d}; three slices of {1, 17, 33}, 1..=130, {1, 16, 31}");
    for n in 1..=180i64 {
        for m in 1..=40i64 {
            for fmt in [None, Some("d")] {
                let cfg = Cfg { slicer: Slicer::Slice(vec![Rg((S, 0), (S, n)), Rg((S, 1), (S, 1 + m))]), outfmt: fmt, ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(190)), &[full()]);
            }
        }
    }
    for n in 1..=130i64 {
        for (k, m) in [1i64, 17, 33].into_iter().flat_map(|k| [1i64, 16, 31].map(|m| (k, m))) {
            let cfg = Cfg { slicer: Slicer::Slice(vec![Rg((S, 0), (S, k)), Rg((S, 1), (S, 1 + n)), Rg((S, 2), (S, 2 + m))]), ..Cfg::default() };
            x.group1(&cfg, Input::Raw(pos(190)), &[full()]);
        }
    }
    x.bound("text of two records of 1..=300 and {1..=17, 31..=33, 47..=49, 63..=65} bytes; of one record of 1..=1100 bytes, 4090..=4106 bytes; the same as patches");
    for n in 1..=300usize {
        for m in (1..=17).chain(31..=33).chain(47..=49).chain(63..=65) {
            let recs = vec![rec(0, n as u64, &pos(n)), rec(n as u64, m as u64, &pos_at(n, m))];
            x.group1(&Cfg { infmt: Some("x"), ..d() }, Input::Recs(recs.clone(), m % 2 == 0), &[full()]);
            if m % 3 == 0 {
                x.group1(&Cfg { patch: Some((recs, true)), ..d() }, Input::Raw(pos(400)), &[full()]);
            }
        }
    }
    for n in (1..=1100usize).chain(4090..=4106) {
        let recs = vec![rec(0, n as u64, &pos(n))];
        x.group1(&Cfg { infmt: Some("x"), ..d() }, Input::Recs(recs.clone(), n % 2 == 0), &[full()]);
        x.group1(&Cfg { patch: Some((vec![rec(3, 1, &pos(n))], true)), ..d() }, Input::Raw(pos(20)), &[full()]);
    }
    x.bound("--zip of two or three inputs of 1..=100 words, word sizes 1..=20, 31..=33, 64, 100");
    for w in (1..=20usize).chain([31, 32, 33, 64, 100]) {
        for n in 1..=100usize {
            if n * w > 1300 {
                continue;
            }
            for k in [2, 3] {
                let ins: Vec<Input> = (0..k).map(|i| Input::Raw(pos_at(i, n * w))).collect();
                x.group(&Cfg { join: Join::Zip(w), ..d() }, &ins, &same(k, vec![full(), fr(&[], 1)]));
            }
        }
    }
}

fn text_input(x: &mut X) {
    let b = x.b;
    let infmts: [&'static str; 2] = ["x", "nnx"];
    if !x.big {
        x.bound("-F {x, nnx} x all sequences of <= 2 records with offset 0..=4, length 0..=3, array absent or of 0..=3 bytes x last newline present or not x reads {full, 1 byte}");
        let mut one = Vec::new();
        for off in 0..=4u64 {
            for span in 0..=3u64 {
                for body in 0..=4usize {
                    let mut r = rec(off, span, &pos_at(off as usize, body.saturating_sub(1)));
                    if body == 0 {
                        r.body = None;
                    }
                    one.push(r);
                }
            }
        }
        let mut seqs: Vec<Vec<Rec>> = vec![vec![]];
        seqs.extend(one.iter().map(|r| vec![r.clone()]));
        seqs.extend(one.iter().flat_map(|r| one.iter().map(move |s| vec![r.clone(), s.clone()])));
        for recs in &seqs {
            for fmt in infmts {
                for nl in [true, false] {
                    let cfg = Cfg { infmt: Some(fmt), ..d() };
                    x.group1(&cfg, Input::Recs(recs.clone(), nl), &[full(), fr(&[], 1)]);
                }
            }
        }
        x.bound("all sequences of 3 records with offset 0..=6 step 1, length {0, 2}, array of {0, 3} bytes or absent, mosaics");
        let mut one = Vec::new();
        for off in 0..=6u64 {
            for span in [0, 2] {
                for body in [None, Some(0), Some(3)] {
                    let mut r = rec(off, span, &pos_at(off as usize, body.unwrap_or(0)));
                    if body.is_none() {
                        r.body = None;
                    }
                    r.mosaic = (off % 3) as u8;
                    r.pad = (off % 2) as usize * 2;
                    one.push(r);
                }
            }
        }
        for r in &one {
            for s in &one {
                for t in &one {
                    let cfg = Cfg { infmt: Some("x"), filler: Some(0xaa), ..d() };
                    x.group1(&cfg, Input::Recs(vec![r.clone(), s.clone(), t.clone()], true), &[full()]);
                }
            }
        }
        x.bound("array lengths 0..=150, 191..=194, 255..=258, 300, 1000, 5000 x mosaic {none, plain, misleading} x padding {0, 1, 5, 70} x newline x spellings of numbers x reads {full, 1, 3, 192}");
        let mut ls: Vec<usize> = (0..=150).collect();
        ls.extend([191, 192, 193, 194, 255, 256, 257, 258, 300, 1000, 5000]);
        for &n in &ls {
            for mosaic in 0..=2u8 {
                for padding in [0, 1, 5, 70] {
                    if padding > 0 && (mosaic == 0 || n == 0) {
                        continue;
                    }
                    for nl in [true, false] {
                        for style in 0..=3u8 {
                            for fmt in infmts {
                                let r = Rec { off: 3, span: n as u64, body: Some(pos(n)), mosaic, pad: padding, style };
                                let r2 = Rec { off: 3 + n as u64, span: 1, body: Some(vec![0xee]), mosaic, pad: 0, style };
                                let cfg = Cfg { infmt: Some(fmt), ..d() };
                                x.group1(&cfg, Input::Recs(vec![r, r2], nl), &[full(), fr(&[], 1), fr(&[], 192)]);
                            }
                        }
                    }
                }
            }
        }
        x.bound("one split of the text at every position: array lengths {0..=20, 47..=50, 63..=66, 127..=130} x mosaic {none, plain}");
        for n in (0..=20).chain(47..=50).chain(63..=66).chain(127..=130) {
            for mosaic in 0..=1u8 {
                let r = Rec { off: 1, span: n as u64, body: Some(pos(n)), mosaic, pad: 0, style: 0 };
                let r2 = Rec { off: 1 + n as u64, span: 2, body: Some(vec![1, 2, 3]), mosaic, pad: 2, style: 0 };
                let i = Input::Recs(vec![r, r2], true);
                let len = i.bytes().len();
                let f: Vec<Frag> = (1..len).map(|k| fr(&[k], 0)).collect();
                x.group1(&Cfg { infmt: Some("x"), ..d() }, i, &f);
            }
        }
        x.bound("every byte value in every array column 0..=67, upper and lower case");
        for style in [0u8, 2] {
            for col in 0..=67usize {
                let recs: Vec<Rec> = (0..256usize)
                    .map(|v| {
                        let mut body = pos_at(v, 68);
                        body[col] = v as u8;
                        Rec { off: 68 * v as u64, span: 68, body: Some(body), mosaic: 1, pad: 0, style }
                    })
                    .collect();
                x.group1(&Cfg { infmt: Some("x"), ..d() }, Input::Recs(recs, true), &[full()]);
            }
        }
        x.bound("every hex digit at every position of a 15-digit offset (gapless format), and of the length field");
        for p in 0..15 {
            for dgt in 0..16u64 {
                let mut r = rec(dgt << (4 * p), dgt << (4 * p), &[1, 2]);
                for style in [1, 2, 3] {
                    r.style = style;
                    x.group1(&Cfg { infmt: Some("nnx"), ..d() }, Input::Recs(vec![r.clone(), rec(0, 0, &[9])], true), &[full()]);
                }
                if (dgt << (4 * p)) <= 0x30000 {
                    r.span = 2;
                    x.group1(&Cfg { infmt: Some("x"), ..d() }, Input::Recs(vec![r.clone()], true), &[full()]);
                    r.span = dgt << (4 * p);
                    r.off = 0;
                    x.group1(&Cfg { infmt: Some("x"), ..d() }, Input::Recs(vec![r.clone(), rec(r.span, 0, &[7])], true), &[full()]);
                }
            }
        }
    }
    x.bound("gaps, spans and arrays around the block boundaries {B-1, B, B+1, 2B, 2B+1}^3, reads {full, B-1, B/2+1}");
    let big = [0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1];
    for &gap in &big {
        for &span in &big {
            for &len in &big {
                for fmt in infmts {
                    if x.big && gap + span + len > 3 * b {
                        continue;
                    }
                    let recs = vec![rec(gap as u64, span as u64, &pos(len)), rec((gap + span + 5) as u64, 3, &[1, 2, 3])];
                    let cfg = Cfg { infmt: Some(fmt), filler: Some(0x5a), ..d() };
                    x.group1(&cfg, Input::Recs(recs, true), &few(3 * len + 100, b));
                }
            }
        }
    }
    x.bound("many short records: line lengths 20..=60 x texts of up to 3B bytes, reads {full, B-1, B/2+1, 1}");
    for n in 1..=14usize {
        let count = 3 * b / (20 + 3 * n);
        let recs: Vec<Rec> = (0..count).map(|i| Rec { off: (i * n) as u64, span: n as u64, body: Some(pos_at(i, n)), mosaic: (i % 2) as u8, pad: 0, style: 0 }).collect();
        for fmt in infmts {
            let cfg = Cfg { infmt: Some(fmt), ..d() };
            x.group1(&cfg, Input::Recs(recs.clone(), n % 2 == 0), &frs(3 * b, b));
        }
    }
    x.bound("text inputs combined by --cat N and --zip N (N 1..=5), 1..=3 inputs of 0..=4 bytes");
    for n in 1..=5usize {
        for k in 1..=3usize {
            for ls in words(&[0, 1, 2, 3, 4], k).into_iter().filter(|w| w.len() == k) {
                for zip in [false, true] {
                    let inputs: Vec<Input> =
                        ls.iter().enumerate().map(|(i, l)| Input::Recs(vec![rec(1, *l as u64, &pos_at(i, *l as usize))], i % 2 == 0)).collect();
                    for fmt in infmts {
                        let cfg = Cfg { infmt: Some(fmt), join: if zip { Join::Zip(n) } else { Join::Cat(n) }, filler: Some(0x20), ..d() };
                        x.group(&cfg, &inputs, &same(k, vec![full(), fr(&[], 1)]));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- stage 1

fn assemble(x: &mut X) {
    let b = x.b;
    if !x.big {
        x.bound("--cat/--zip N (N 1..=20, 31..=33) and neither x 1..=3 inputs of every length 0..=5 x all splits of the inputs into reads (same split rule for each input)");
        let mut joins = vec![Join::Default];
        joins.extend((1..=20).map(Join::Cat));
        joins.extend((1..=20).map(Join::Zip));
        joins.extend([31, 32, 33].map(Join::Cat));
        joins.extend([31, 32, 33].map(Join::Zip));
        for join in &joins {
            for k in 1..=3usize {
                for ls in words(&[0, 1, 2, 3, 4, 5], k).into_iter().filter(|w| w.len() == k) {
                    let inputs: Vec<Input> = ls.iter().enumerate().map(|(i, l)| Input::Raw(pos_at(i, *l as usize))).collect();
                    let frags: Vec<Vec<Frag>> = if matches!(join, Join::Default | Join::Cat(1) | Join::Cat(3) | Join::Zip(1) | Join::Zip(2) | Join::Zip(4)) {
                        let m = *ls.iter().max().unwrap() as usize;
                        same(k, compositions(m))
                    } else {
                        same(k, vec![full(), fr(&[], 1)])
                    };
                    let cfg = Cfg { join: *join, filler: Some(0xa5), ..d() };
                    x.group(&cfg, &inputs, &frags);
                }
            }
        }
        x.bound("4..=6 inputs of lengths {0, 1, 3}, N 1..=4");
        for k in 4..=6usize {
            for ls in words(&[0, 1, 3], k).into_iter().filter(|w| w.len() == k) {
                for n in 1..=4 {
                    for join in [Join::Cat(n), Join::Zip(n)] {
                        let inputs: Vec<Input> = ls.iter().enumerate().map(|(i, l)| Input::Raw(pos_at(i, *l as usize))).collect();
                        x.group(&Cfg { join, ..d() }, &inputs, &same(k, vec![full(), fr(&[], 1)]));
                    }
                }
            }
        }
        x.bound("word sizes 1..=20 x 2 inputs of up to 5 words plus a partial one (all remainders), filler {none, 0, 255}");
        for n in 1..=20usize {
            for l1 in [n, 2 * n - 1, 3 * n, 4 * n + 1, 5 * n] {
                for l2 in [n, 2 * n - 1, 3 * n, 5 * n - 1, 5 * n] {
                    for filler in [None, Some(0), Some(255)] {
                        for join in [Join::Cat(n), Join::Zip(n)] {
                            let inputs = [Input::Raw(pos_at(0, l1)), Input::Raw(pos_at(1, l2))];
                            x.group(&Cfg { join, filler, ..d() }, &inputs, &same(2, frs(l1, b)));
                        }
                    }
                }
            }
        }
    }
    x.bound("1..=3 inputs with lengths from {0, 1, B-1, B, B+1, 2B+1, 3B} x N {1, 2, 3, 4, 7, 8, 16, 17, 100, B-1, B, B+1} x reads {same / different per input}");
    let ls = if x.big { vec![1, b - 1, b, b + 1, 2 * b + 1] } else { [vec![0, 1, b - 1, b, b + 1, 2 * b + 1, 3 * b], long_len(b).into_iter().collect()].concat() };
    let ns = [1, 2, 3, 4, 7, 8, 16, 17, 100, b - 1, b, b + 1];
    for k in 1..=3usize {
        let idx = words(&(0..ls.len() as u8).collect::<Vec<_>>(), k);
        for w in idx.into_iter().filter(|w| w.len() == k) {
            let inputs: Vec<Input> = w.iter().enumerate().map(|(i, l)| Input::Raw(pos_at(i, ls[*l as usize]))).collect();
            let f = [full(), fr(&[b - 1], 0), fr(&[], b / 2 + 1), fr(&[1], 0), fr(&[], 255)];
            let mut frags: Vec<Vec<Frag>> = Vec::new();
            for i in 0..f.len() {
                frags.push(vec![f[i].clone(); k]);
                if k > 1 {
                    frags.push((0..k).map(|j| f[(i + j) % f.len()].clone()).collect());
                }
            }
            if x.big {
                frags.truncate(3);
            }
            let js: Vec<Join> = if k < 3 || x.thorough {
                std::iter::once(Join::Default).chain(ns.iter().map(|n| Join::Cat(*n))).chain(ns.iter().map(|n| Join::Zip(*n))).collect()
            } else {
                vec![Join::Default, Join::Cat(3), Join::Cat(b), Join::Zip(1), Join::Zip(2), Join::Zip(7), Join::Zip(16)]
            };
            for join in js {
                if x.big && k == 3 && !matches!(join, Join::Cat(3) | Join::Zip(7)) {
                    continue;
                }
                x.group(&Cfg { join, filler: Some(0xa5), ..d() }, &inputs, &frags);
            }
        }
    }
}

// ---------------------------------------------------------------- stage 2

fn cut(x: &mut X) {
    let b = x.b;
    if !x.big {
        let p = rgs(&pts(&[-1, 0, 1, 2, 3, 5], &[-4, -2, -1, 0, 1]));
        x.bound("all single S..E and all ordered pairs with S, E in {s-1, s, s+1, s+2, s+3, s+5, e-4, e-2, e-1, e, e+1} x lengths 0..=7 x reads {full, 1, all splits up to length 4}");
        for n in 0..=7usize {
            for r in &p {
                x.group1(&Cfg { cut: Some(vec![*r]), ..d() }, Input::Raw(pos(n)), &frs(n, b));
            }
        }
        for n in [0usize, 1, 3, 4, 6] {
            for r in &p {
                for q in &p {
                    x.group1(&Cfg { cut: Some(vec![*r, *q]), ..d() }, Input::Raw(pos(n)), &[full(), fr(&[], 1)]);
                }
            }
        }
        x.bound("all ordered triples with S, E in {s, s+1, s+3, e-2, e-1, e}, length 5");
        let p = rgs(&pts(&[0, 1, 3], &[-2, -1, 0]));
        for r in &p {
            for q in &p {
                for t in &p {
                    x.group1(&Cfg { cut: Some(vec![*r, *q, *t]), ..d() }, Input::Raw(pos(5)), &[full(), fr(&[], 1)]);
                }
            }
        }
    }
    let bi = b as i64;
    x.bound("all single S..E with ends in {s, s+1, s+B-1, s+B, s+B+1, s+2B, e-2B, e-B-1, e-B, e-1, e} and pairs from a subset x lengths around the block boundaries x 8 read patterns");
    let p = rgs(&pts(&if x.big { vec![0, 1, bi - 1, bi, bi + 1, 2 * bi] } else { vec![0, 1, bi - 1, bi, bi + 1, 2 * bi, 4000] }, &[-2 * bi, -bi - 1, -bi, -1, 0]));
    for n in if x.big { few_lens(b) } else { lens(b) } {
        for r in &p {
            let f = if x.big { few(n, b) } else { frs(n, b) };
            x.group1(&Cfg { cut: Some(vec![*r]), ..d() }, Input::Raw(pos(n)), &f);
        }
    }
    let p = rgs(&pts(&[0, 3, bi - 1, bi + 1], &[-bi - 1, -2, 0]));
    for n in if x.big { vec![2 * b + 1] } else { few_lens(b) } {
        for r in &p {
            for q in &p {
                x.group1(&Cfg { cut: Some(vec![*r, *q]), ..d() }, Input::Raw(pos(n)), &few(n, b));
            }
        }
    }
    x.bound("up to 40 disjoint, touching and overlapping ranges at once");
    for step in 1..=9i64 {
        for len in 0..=9i64 {
            for n in [0usize, 50, 200, 2 * b + 1] {
                let v: Vec<Rg> = (0..40).map(|i| Rg((S, (40 - i) * step), (S, (40 - i) * step + len))).collect();
                x.group1(&Cfg { cut: Some(v.clone()), ..d() }, Input::Raw(pos(n)), &few(n, b));
                let v: Vec<Rg> = v.iter().enumerate().map(|(i, r)| if i % 3 == 0 { Rg((E, -r.1 .1), (E, -r.0 .1)) } else { *r }).collect();
                x.group1(&Cfg { cut: Some(v), ..d() }, Input::Raw(pos(n)), &few(n, b));
            }
        }
    }
}

fn pad(x: &mut X) {
    let b = x.b;
    x.bound("N, M in {0, 1, 2, 5, B-1, B, B+1, 2B, 2B+1, 4B+3} x lengths {0..=3, B-1, B, B+1, 2B+1} x fillers {none, 0, 1, 255} x read patterns");
    let v = if x.big { vec![0, 1, b - 1, b, b + 1, 2 * b + 1] } else { vec![0, 1, 2, 5, b - 1, b, b + 1, 2 * b, 2 * b + 1, 4 * b + 3, 6501] };
    for &h in &v {
        for &t in &v {
            for n in [0, 1, 2, 3, b - 1, b, b + 1, 2 * b + 1].into_iter().chain(long_len(b)) {
                for filler in [None, Some(0), Some(1), Some(255)] {
                    if x.big && filler != Some(1) {
                        continue;
                    }
                    let cfg = Cfg { pad: Some((h, t)), filler, ..d() };
                    x.group1(&cfg, Input::Raw(pos(n)), &if x.big { vec![full()] } else { frs(n, b) });
                }
            }
        }
    }
    if !x.big {
        x.bound("every filler value 0..=255; all N, M in 0..=20 on lengths 0..=5; two inputs");
        for f in 0..=255u8 {
            x.group1(&Cfg { pad: Some((2, 3)), filler: Some(f), ..d() }, Input::Raw(pos(3)), &[full()]);
        }
        for h in 0..=20 {
            for t in 0..=20 {
                for n in 0..=5 {
                    x.group1(&Cfg { pad: Some((h, t)), filler: Some(9), ..d() }, Input::Raw(pos(n)), &frs(n, b));
                    let inputs = [Input::Raw(pos_at(1, n)), Input::Raw(pos_at(2, 3))];
                    x.group(&Cfg { pad: Some((h, t)), filler: Some(9), join: Join::Cat(2), ..d() }, &inputs, &same(2, vec![full(), fr(&[], 1)]));
                }
            }
        }
        x.bound("cut then pad then patch, all combinations of 6 cuts x 6 pads x 8 patches x lengths 0..=8: order of stage 2");
        let cuts: Vec<Option<Vec<Rg>>> = vec![None, Some(vec![Rg((S, 0), (S, 3))]), Some(vec![Rg((S, 2), (E, -1))]), Some(vec![Rg((E, -3), (E, 0))]), Some(vec![Rg((S, 4), (S, 2))]), Some(vec![Rg((S, 1), (S, 2)), Rg((S, 4), (E, 0))])];
        let pads = [None, Some((0, 0)), Some((1, 0)), Some((0, 2)), Some((3, 1)), Some((0, 7))];
        let patches: Vec<Option<(Vec<Rec>, bool)>> = std::iter::once(None)
            .chain([0u64, 1, 3, 5].iter().map(|o| Some((vec![rec(*o, 1, &[0xe0, 0xe1])], true))))
            .chain([Some((vec![rec(0, 2, &[]), rec(3, 0, &[0xe0])], true)), Some((vec![rec(0, 0, &[0xe0]), rec(4, 9, &[])], false)), Some((vec![], true))])
            .collect();
        for c in &cuts {
            for p in pads {
                for pt in &patches {
                    for n in 0..=8 {
                        let cfg = Cfg { cut: c.clone(), pad: p, patch: pt.clone(), filler: Some(0x77), ..d() };
                        x.group1(&cfg, Input::Raw(pos(n)), &[full(), fr(&[], 1)]);
                    }
                }
            }
        }
    }
}

fn patch(x: &mut X) {
    let b = x.b;
    let mk = |off: u64, span: u64, body: usize| {
        let mut r = rec(off, span, &pos_at(off as usize + 3, body.saturating_sub(1)));
        if body == 0 {
            r.body = None;
        }
        r
    };
    if !x.big {
        x.bound("streams of 0..=5 bytes x all sequences of <= 2 records (offset 0..=n+1, length 0..=n+2-offset, array absent or 0..=3 bytes), in any order, overlapping or not x reads {full, 1}");
        for n in 0..=5u64 {
            let mut one = Vec::new();
            for off in 0..=n + 1 {
                for span in 0..=(n + 2 - off) {
                    for body in 0..=4 {
                        one.push(mk(off, span, body));
                    }
                }
            }
            let mut seqs: Vec<Vec<Rec>> = vec![vec![]];
            seqs.extend(one.iter().map(|r| vec![r.clone()]));
            seqs.extend(one.iter().flat_map(|r| one.iter().map(move |s| vec![r.clone(), s.clone()])));
            for (i, s) in seqs.iter().enumerate() {
                let f = if n <= 2 || x.thorough { frs(n as usize, b) } else { vec![full(), fr(&[], 1)] };
                x.group1(&Cfg { patch: Some((s.clone(), i % 2 == 0)), ..d() }, Input::Raw(pos(n as usize)), &f);
            }
        }
        x.bound("streams of 4 and 6 bytes x all sequences of 3 records (offset 0..=n, length {0, 1, 2}, array {absent, 1, 3})");
        for n in [4u64, 6] {
            let mut one = Vec::new();
            for off in 0..=n {
                for span in 0..=2 {
                    for body in [0, 2, 4] {
                        one.push(mk(off, span, body));
                    }
                }
            }
            for r in &one {
                for s in &one {
                    if s.off + 1 < r.off {
                        continue;
                    }
                    for t in &one {
                        x.group1(&Cfg { patch: Some((vec![r.clone(), s.clone(), t.clone()], true)), ..d() }, Input::Raw(pos(n as usize)), &[full()]);
                    }
                }
            }
        }
        x.bound("mosaic fields {none, plain, misleading}, padding, spellings of the numbers, array lengths 0..=70");
        for len in 0..=70 {
            for mosaic in 0..=2u8 {
                for style in 0..=3u8 {
                    for padding in [0, 3] {
                        if padding > 0 && (mosaic == 0 || len == 0) {
                            continue;
                        }
                        let r = Rec { off: 5, span: 3, body: Some(pos(len)), mosaic, pad: padding, style };
                        let cfg = Cfg { patch: Some((vec![r, rec(9, 1, &[1])], style % 2 == 0)), ..d() };
                        x.group1(&cfg, Input::Raw(pos(12)), &[full()]);
                    }
                }
            }
        }
    }
    x.bound("two records with offset, length, array around the block boundaries x stream lengths around them x reads");
    let big = [0, 1, b - 1, b, b + 1, 2 * b];
    for n in if x.big { vec![2 * b + 1] } else { few_lens(b) } {
        for &off in &big {
            for &span in &big {
                for &len in &big {
                    if off > n {
                        continue;
                    }
                    if x.big && (off + span + len > 3 * b || len > b) {
                        continue;
                    }
                    let mut recs = vec![rec(off as u64, span as u64, &pos_at(9, len))];
                    x.group1(&Cfg { patch: Some((recs.clone(), true)), ..d() }, Input::Raw(pos(n)), &few(n, b));
                    recs.push(rec((off + span) as u64, 1, &[0xee, 0xef]));
                    x.group1(&Cfg { patch: Some((recs.clone(), true)), ..d() }, Input::Raw(pos(n)), &[full(), fr(&[b - 1], 0)]);
                    recs[1].off += 3;
                    x.group1(&Cfg { patch: Some((recs, false)), ..d() }, Input::Raw(pos(n)), &[full(), fr(&[], b / 2 + 1)]);
                }
            }
        }
    }
    x.bound("dense patches: a record every 1..=9 bytes, lengths 0..=step, arrays of {0, 1, step, step + 1} bytes, streams of up to 3B bytes; the overlapping ones rejected");
    for step in 1..=9u64 {
        for span in 0..=step + 1 {
            for len in [0, 1, step, step + 1] {
                for n in [100usize, 2 * b, 3 * b + 1] {
                    if x.big {
                        continue;
                    }
                    let recs: Vec<Rec> = (0..n as u64 / step).map(|i| rec(i * step, span, &pos_at(i as usize, len as usize))).collect();
                    x.group1(&Cfg { patch: Some((recs, true)), ..d() }, Input::Raw(pos(n)), &few(n, b));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- stage 3

fn width(x: &mut X) {
    let b = x.b;
    if !x.big {
        x.bound("N 1..=8 without range x lengths 0..=20 x all read patterns of frs(); N 1..=6 with S, E in {s-7..s+7, e-7..e+7} x lengths 0..=16 x reads {full, 1}");
        for n in 1..=8 {
            for len in 0..=20 {
                x.group1(&Cfg { slicer: Slicer::Width(n, None), ..Cfg::default() }, Input::Raw(pos(len)), &frs(len, b));
            }
        }
        let k: &[i64] = if x.thorough { &[-9, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 9] } else { &[-7, -4, -3, -2, -1, 0, 1, 2, 3, 5] };
        let rs = rgs(&pts(k, k));
        for n in 1..=6 {
            for r in &rs {
                for len in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16] {
                    let f = if x.thorough { frs(len, b) } else { vec![full()] };
                    x.group1(&Cfg { slicer: Slicer::Width(n, Some(*r)), ..Cfg::default() }, Input::Raw(pos(len)), &f);
                }
            }
        }
    }
    x.bound("N in {1, 2, 3, 5, 15, 16, 17, 63, 64, 65, B-1, B, B+1, 2B+1} x ranges x lengths around the block boundaries x reads");
    for n in [1, 2, 3, 5, 15, 16, 17, 63, 64, 65, b - 1, b, b + 1, 2 * b + 1] {
        if x.big && n < 15 {
            continue;
        }
        let ni = n as i64;
        let ks = [-ni - 1, -ni, -3, -1, 0, 1, 3, ni - 1, ni, ni + 1];
        let mut rs: Vec<Option<Rg>> = vec![None];
        for s in ks {
            for e in ks {
                rs.push(Some(Rg((S, s), (E, e))));
            }
        }
        rs.extend([Some(Rg((E, -2), (E, 2))), Some(Rg((S, -2), (S, 2))), Some(Rg((E, 0), (E, 1))), Some(Rg((S, -1), (S, 0)))]);
        for r in rs {
            let small = r.map_or(true, |r| r.1 .1.abs() <= 3 && r.0 .1.abs() <= 3);
            let ls = if small && !x.big { lens(b) } else { vec![b + 1, 2 * b + 1] };
            for len in ls {
                if n < 15 && r.map_or(false, |r| r.1 .1 - r.0 .1 > 20) {
                    continue;
                }
                let f = if x.big { vec![full()] } else { few(len, b) };
                x.group1(&Cfg { slicer: Slicer::Width(n, r), ..Cfg::default() }, Input::Raw(pos(len)), &f);
            }
        }
    }
}

fn find(x: &mut X) {
    let b = x.b;
    let mk = |p: &[u8]| Cfg { slicer: Slicer::Find(p.to_vec()), ..Cfg::default() };
    if !x.big {
        x.bound("all words over {a, b} of length <= 10 x all patterns over {a, b} of length 0..=4 x reads {full, 1}");
        let ps = words(b"ab", 4);
        for w in words(b"ab", 10) {
            for p in &ps {
                x.group1(&mk(p), Input::Raw(w.clone()), &[full(), fr(&[], 1)]);
            }
        }
        x.bound("all words over {a, b, c} of length <= 6 x patterns of length 5..=6");
        let ps: Vec<Vec<u8>> = words(b"ab", 6).into_iter().filter(|p| p.len() >= 5).collect();
        for w in words(b"abc", 6).into_iter().filter(|w| w.len() >= 4) {
            for p in &ps {
                x.group1(&mk(p), Input::Raw(w.clone()), &[full()]);
            }
        }
        x.bound("every byte value as a one- and two-byte pattern; pattern lengths 1..=64");
        for v in 0..=255u8 {
            let all: Vec<u8> = (0..=255).chain((0..=255).rev()).collect();
            x.group1(&mk(&[v]), Input::Raw(all.clone()), &[full(), fr(&[], 1)]);
            x.group1(&mk(&[v, v.wrapping_add(1)]), Input::Raw(all), &[full(), fr(&[], 7)]);
        }
        for n in 1..=64usize {
            let s = pos(300);
            for o in [0, 1, 100, 300 - n] {
                x.group1(&mk(&s[o..o + n]), Input::Raw(s.clone()), &[full(), fr(&[], 3)]);
            }
        }
    }
    x.bound("patterns {a, ab, aa, aab, aaaa, 48 bytes, 64 bytes} placed at every offset within 6 bytes of (or a pattern length before) the block boundaries B, 2B, in streams of b's and of a's x reads");
    let long: Vec<u8> = (1..=64).collect();
    for p in [b"a".to_vec(), b"ab".to_vec(), b"aa".to_vec(), b"aab".to_vec(), b"aaaa".to_vec(), long[..48].to_vec(), long.clone()] {
        for k in [1, 2] {
            for delta in -(p.len() as i64) - 6..=6 {
                let at = ((k * b) as i64 + delta) as usize;
                for bg in [b'b', b'a'] {
                    if x.big && (bg == b'a' && p.len() < 4 || delta % 3 != 0) {
                        continue;
                    }
                    let mut s = vec![bg; (k + 1) * b + 3];
                    s[at..at + p.len()].copy_from_slice(&p);
                    let n = s.len();
                    x.group1(&mk(&p), Input::Raw(s), &if x.big { vec![full()] } else { few(n, b) });
                }
            }
        }
    }
    x.bound("runs of a's longer than a block: lengths around the boundaries x patterns a^1..a^5, reads");
    if !x.big {
        for n in lens(b) {
            for k in 1..=5 {
                x.group1(&mk(&vec![b'a'; k]), Input::Raw(vec![b'a'; n]), &frs(n, b));
            }
        }
    }
}

pub fn we(text: &str, f: impl Fn(&dyn Fn(char, usize) -> i64) -> i64 + Send + Sync + 'static) -> WalkExpr {
    WalkExpr { text: text.to_string(), f: Arc::new(f) }
}

pub fn walk_exprs() -> Vec<WalkExpr> {
    vec![
        we("1", |_| 1),
        we("2", |_| 2),
        we("3", |_| 3),
        we("7", |_| 7),
        we("b[0]", |g| g('b', 0)),
        we("b[1]", |g| g('b', 1)),
        we("b[0]+1", |g| g('b', 0) + 1),
        we("b[0]-1", |g| g('b', 0) - 1),
        we("2*b[0]", |g| 2 * g('b', 0)),
        we("b[0]+b[1]", |g| g('b', 0) + g('b', 1)),
        we("h[0]", |g| g('h', 0)),
        we("(h[0]&3)+1", |g| (g('h', 0) & 3) + 1),
        we("i[0]", |g| g('i', 0)),
        we("(i[0]>>8)+1", |g| (g('i', 0) >> 8) + 1),
        we("l[0]", |g| g('l', 0)),
        we("(l[0]>>8&1)+1", |g| (g('l', 0) >> 8 & 1) + 1),
        we("b[b[0]]", |g| {
            let i = g('b', 0);
            if i < 0 {
                -1
            } else {
                g('b', i as usize)
            }
        }),
        we("h[1]+2", |g| g('h', 1) + 2),
        we("b[0]*b[1]*b[2]", |g| g('b', 0) * g('b', 1) * g('b', 2)),
    ]
}

fn walk(x: &mut X) {
    let b = x.b;
    let es = walk_exprs();
    let mk = |e: &[WalkExpr]| Cfg { slicer: Slicer::Walk(e.to_vec()), ..Cfg::default() };
    if !x.big {
        x.bound("19 expressions (constants, all element types, nested elements) x all words over {0, 1, 2, 3, 255} of length <= 5 x reads {full, 1}; all ordered pairs of 8 expressions x words over {1, 2, 255} of length <= 5");
        for e in &es {
            for w in words(&[0, 1, 2, 3, 255], 5) {
                x.group1(&mk(&[e.clone()]), Input::Raw(w), &[full(), fr(&[], 1)]);
            }
        }
        let few_e: Vec<WalkExpr> = [0, 1, 4, 5, 6, 7, 9, 16].iter().map(|i| es[*i as usize].clone()).collect();
        for e in &few_e {
            for f in &few_e {
                for w in words(&[1, 2, 255], 5) {
                    x.group1(&mk(&[e.clone(), f.clone()]), Input::Raw(w), &[full(), fr(&[], 1)]);
                }
            }
        }
        x.bound("triples of 4 expressions x words over {1, 2, 3} of length <= 6");
        let few_e: Vec<WalkExpr> = [0, 4, 5, 6].iter().map(|i| es[*i as usize].clone()).collect();
        for e in &few_e {
            for f in &few_e {
                for g in &few_e {
                    for w in words(&[1, 2, 3], 6) {
                        x.group1(&mk(&[e.clone(), f.clone(), g.clone()]), Input::Raw(w), &[full()]);
                    }
                }
            }
        }
    }
    x.bound("chunk lengths {1, 3, 7, 100, 127, B/2, B-1, B, B+1, 2B, 2B+1} as constants, pairs of them, and as 16/32/64-bit elements, on streams around the block boundaries x reads");
    let ks = [1usize, 3, 7, 100, 127, b / 2, b - 1, b, b + 1, 2 * b, 2 * b + 1];
    for n in if x.big { few_lens(b) } else { lens(b) } {
        for &k in &ks {
            if x.big && k < 100 {
                continue;
            }
            let c = we(&k.to_string(), move |_| k as i64);
            x.group1(&mk(&[c.clone()]), Input::Raw(pos(n)), &few(n, b));
            for &m in &ks {
                let c2 = we(&m.to_string(), move |_| m as i64);
                if x.big && (m < 100 || k != b) || (k < 7 && m < 7) {
                    continue;
                }
                x.group1(&mk(&[c.clone(), c2]), Input::Raw(pos(n)), &few(n, b));
            }
            // length-prefixed chunks
            for (kind, size) in [('h', 2usize), ('i', 4), ('l', 8)] {
                if k < 8 || (kind == 'h' && k > 32767) {
                    continue;
                }
                let mut s = pos(n);
                let mut p = 0;
                while p + size <= n {
                    s[p..p + size].copy_from_slice(&(k as u64).to_le_bytes()[..size]);
                    p += k;
                }
                if p < n {
                    // the last header is cut short: elements beyond the end read as zero, and the walk aborts
                }
                let e = we(&format!("{kind}[0]"), move |g| g(kind, 0));
                x.group1(&mk(&[e]), Input::Raw(s), &few(n, b));
            }
            // elements far ahead
            if !x.big && k < 3 * b / 2 {
                let mut s = vec![5u8; n];
                s[n - 1] = 6;
                let e = we(&format!("b[{k}]+1"), move |g| g('b', k) + 1);
                x.group1(&mk(&[e]), Input::Raw(s), &few(n, b));
            }
        }
    }
    x.bound("variable-length chunks b[0] with all 127 lengths in sequence over several blocks");
    for k in 1..=20usize {
        let mut s = Vec::new();
        let mut i = k;
        while s.len() < 3 * b {
            let l = i % 127 + 1;
            s.push(l as u8);
            s.extend(vec![0x55; l - 1]);
            i = (i * 5 + 1) % 1_000_003;
        }
        let n = s.len();
        x.group1(&mk(&[es[4].clone()]), Input::Raw(s.clone()), &few(n, b));
        let e = vec![we("1", |_| 1), we("b[0]-1", |g| g('b', 0) - 1)];
        if s.iter().all(|c| *c != 1) {
            x.group1(&mk(&e), Input::Raw(s), &few(n, b));
        }
    }
    x.bound("negative array indices and failing expressions are refused; every value of b[0] 0..=255");
    for v in 0..=255u8 {
        if x.big {
            break;
        }
        for e in [4usize, 5, 7, 10, 16] {
            x.group1(&mk(&[es[e].clone()]), Input::Raw([vec![v], vec![1; 400]].concat()), &[full(), fr(&[], 1)]);
        }
    }
}

fn slice(x: &mut X) {
    let b = x.b;
    let mk = |r: &[Rg]| Cfg { slicer: Slicer::Slice(r.to_vec()), ..Cfg::default() };
    if !x.big {
        let p = rgs(&pts(&[-1, 0, 1, 2, 3, 5], &[-4, -2, -1, 0, 1]));
        x.bound("all single S..E and all ordered pairs with S, E in {s-1, s, s+1, s+2, s+3, s+5, e-4, e-2, e-1, e, e+1} x lengths 0..=7 x reads {full, 1, all splits up to length 4}; all triples of a subset");
        for n in 0..=7usize {
            for r in &p {
                x.group1(&mk(&[*r]), Input::Raw(pos(n)), &frs(n, b));
            }
        }
        for n in [0usize, 1, 3, 4, 6] {
            for r in &p {
                for q in &p {
                    x.group1(&mk(&[*r, *q]), Input::Raw(pos(n)), &[full(), fr(&[], 1)]);
                }
            }
        }
        let p = rgs(&pts(&[0, 1, 3], &[-2, -1, 0]));
        for r in &p {
            for q in &p {
                for t in &p {
                    x.group1(&mk(&[*r, *q, *t]), Input::Raw(pos(5)), &[full(), fr(&[], 1)]);
                }
            }
        }
    }
    let bi = b as i64;
    x.bound("all single S..E and pairs with ends around the block boundaries x lengths around them x reads");
    let p = rgs(&pts(&if x.big { vec![0, 1, bi - 1, bi, bi + 1, 2 * bi] } else { vec![0, 1, bi - 1, bi, bi + 1, 2 * bi, 4000] }, &[-2 * bi, -bi - 1, -bi, -1, 0]));
    for n in if x.big { few_lens(b) } else { lens(b) } {
        for r in &p {
            x.group1(&mk(&[*r]), Input::Raw(pos(n)), &if x.big { vec![full()] } else { frs(n, b) });
        }
    }
    let p = rgs(&pts(&[0, 3, bi - 1, bi + 1], &[-bi - 1, -2, 0]));
    for n in if x.big { vec![2 * b + 1] } else { few_lens(b) } {
        for r in &p {
            for q in &p {
                if x.big && r.0 != (S, 3) {
                    continue;
                }
                x.group1(&mk(&[*r, *q]), Input::Raw(pos(n)), &if x.big { vec![full()] } else { few(n, b) });
            }
        }
    }
    x.bound("up to 40 disjoint, touching and overlapping ranges at once, in ascending and descending order of appearance");
    if !x.big {
        for step in 1..=9i64 {
            for len in 0..=9i64 {
                for n in [0usize, 50, 200, 2 * b + 1] {
                    let v: Vec<Rg> = (0..40).map(|i| Rg((S, (40 - i) * step), (S, (40 - i) * step + len))).collect();
                    x.group1(&mk(&v), Input::Raw(pos(n)), &few(n, b));
                    let v: Vec<Rg> = v.iter().enumerate().map(|(i, r)| if i % 3 == 0 { Rg((E, -r.1 .1), (E, -r.0 .1)) } else { *r }).collect();
                    x.group1(&mk(&v), Input::Raw(pos(n)), &few(n, b));
                }
            }
        }
    }
}

fn guide(x: &mut X) {
    let b = x.b;
    let mk = |r: &[Rec]| Cfg { slicer: Slicer::Guide(r.to_vec()), ..Cfg::default() };
    let none = |o: u64, s: u64| Rec { off: o, span: s, body: None, mosaic: 0, pad: 0, style: 0 };
    if !x.big {
        x.bound("streams of 0..=7 bytes x all lists of <= 2 records, and lists of 3 that are sorted but for neighbours, with offset 0..=8, length 0..=4 (overlapping, touching, empty, beyond the end) x reads {full, 1}");
        let mut one = Vec::new();
        for o in 0..=8 {
            for s in 0..=4 {
                one.push(none(o, s));
            }
        }
        for n in [0usize, 1, 4, 7] {
            x.group1(&mk(&[]), Input::Raw(pos(n)), &frs(n, b));
            for r in &one {
                x.group1(&mk(&[r.clone()]), Input::Raw(pos(n)), &frs(n, b));
                for s in &one {
                    x.group1(&mk(&[r.clone(), s.clone()]), Input::Raw(pos(n)), &[full(), fr(&[], 1)]);
                    if n == 7 || x.thorough {
                        for t in &one {
                            if t.off + 1 >= s.off && s.off + 1 >= r.off {
                                x.group1(&mk(&[r.clone(), s.clone(), t.clone()]), Input::Raw(pos(n)), &[full()]);
                            }
                        }
                    }
                }
            }
        }
        x.bound("arrays and mosaics in the guide are ignored; spellings of numbers");
        for len in 0..=70usize {
            for mosaic in 0..=2 {
                for style in 0..=3 {
                    let r = Rec { off: 2, span: 3, body: Some(pos(len)), mosaic, pad: 0, style };
                    x.group1(&mk(&[r.clone(), none(7, 2)]), Input::Raw(pos(12)), &[full()]);
                }
            }
        }
    }
    x.bound("two records with offset and length around the block boundaries x stream lengths around them x reads");
    let big = [0u64, 1, b as u64 - 1, b as u64, b as u64 + 1, 2 * b as u64];
    for n in if x.big { vec![2 * b + 1] } else { few_lens(b) } {
        for &o in &big {
            for &s in &big {
                for &o2 in &big {
                    for &s2 in &big {
                        if o2 < o || (x.big && s + s2 > 2 * b as u64) {
                            continue;
                        }
                        let f = if s2 == 1 && !x.big { few(n, b) } else { vec![full()] };
                        x.group1(&mk(&[none(o, s), none(o2, s2), none(o2 + 2, 4)]), Input::Raw(pos(n)), &f);
                    }
                }
            }
        }
    }
    x.bound("many records: every 1..=9 bytes, lengths {1, step, 2 step, 30}, streams of up to 3B bytes");
    if !x.big {
        for step in 1..=9u64 {
            for s in [1, step, 2 * step, 30] {
                for n in [100usize, b + 1, 3 * b] {
                    let recs: Vec<Rec> = (0..n as u64 / step + 3).map(|i| none(i * step, s)).collect();
                    x.group1(&mk(&recs), Input::Raw(pos(n)), &few(n, b));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- stage 4

/// a list of slicers that covers: gaps, touching slices, overlaps, nesting, duplicates of starts, no slices at all
fn sources(n: usize) -> Vec<Slicer> {
    let r = |a: i64, b: i64| Rg((S, a), (S, b));
    vec![
        Slicer::Width(4, None),
        Slicer::Width(1, None),
        Slicer::Width(4, Some(Rg((S, 1), (E, -1)))),
        Slicer::Width(3, Some(Rg((S, -1), (E, 2)))),
        Slicer::Width(5, Some(Rg((S, 1), (S, 2)))),
        Slicer::Find(b"a".to_vec()),
        Slicer::Find(b"ab".to_vec()),
        Slicer::Find(b"zzz".to_vec()),
        Slicer::Slice(vec![r(0, 3), r(1, 2), r(1, 6)]),
        Slicer::Slice(vec![r(2, 9), r(3, 4), r(5, 6), r(7, 8)]),
        Slicer::Slice(vec![Rg((S, 0), (E, 0))]),
        Slicer::Slice(vec![Rg((E, -2), (E, 0)), r(0, 1)]),
        Slicer::Slice(vec![r(n as i64 / 2, n as i64 / 2 + 1)]),
        Slicer::Guide(vec![rec(0, 2, &[]), rec(0, 5, &[]), rec(4, 1, &[]), rec(8, 2, &[])]),
        Slicer::Walk(vec![we("1", |_| 1), we("2", |_| 2)]),
    ]
}

/// sources that make slices in every block of a long stream
fn long_sources(b: usize) -> Vec<Slicer> {
    let bi = b as i64;
    let none = |o: usize, s: usize| Rec { off: o as u64, span: s as u64, body: None, mosaic: 0, pad: 0, style: 0 };
    vec![
        Slicer::Width(16, None),
        Slicer::Width(7, Some(Rg((S, 2), (E, -2)))),
        Slicer::Width(7, Some(Rg((S, -3), (E, 3)))),
        Slicer::Width(b - 1, None),
        Slicer::Width(b / 2 + 3, Some(Rg((S, 5), (S, 6)))),
        Slicer::Width(2 * b, None),
        Slicer::Find(vec![7]),
        Slicer::Slice(vec![Rg((S, 5), (S, 2 * bi)), Rg((S, 6), (S, 10)), Rg((S, bi - 3), (S, bi + 3)), Rg((S, bi), (S, bi + 1)), Rg((E, -20), (E, -10))]),
        Slicer::Guide(vec![none(3, 5), none(3, b), none(10, 10), none(b - 1, 2), none(b, b + 5), none(2 * b - 5, 3)]),
        Slicer::Walk(vec![we("100", |_| 100), we("3", |_| 3)]),
        Slicer::Walk(vec![we("3", |_| 3), we(&format!("{b}"), move |_| bi)]),
        Slicer::Slice(vec![Rg((S, 3), (S, 5)), Rg((S, 3), (S, bi + 9)), Rg((S, bi), (S, bi + 1)), Rg((S, bi), (S, 2 * bi + 3)), Rg((S, bi + 2), (S, bi + 4))]),
    ]
}

/// contents with some structure for find and regex
pub fn tick(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"abcabbaaxyab_cba"[(i * 7 + i / 16) % 16]).collect()
}

fn stage4(x: &mut X, f: &dyn Fn(&mut Cfg, &Rgs2)) {
    let b = x.b;
    if !x.big {
        x.bound("15 slicers (gaps, touching, overlapping, nested, none) x all single ranges with S, E in {s-5, s-2, s-1, s, s+1, s+2, s+5, e-5, e-2, e-1, e, e+1, e+5} x lengths {0, 1, 5, 10, 17}");
        let p = rgs(&pts(&[-5, -2, -1, 0, 1, 2, 5], &[-5, -2, -1, 0, 1, 5]));
        for n in [0usize, 1, 5, 10, 17] {
            for s in sources(n) {
                for r in &p {
                    let mut cfg = Cfg { slicer: s.clone(), ..Cfg::default() };
                    f(&mut cfg, &Rgs2(vec![*r]));
                    x.group1(&cfg, Input::Raw(tick(n)), &[full(), fr(&[], 1)]);
                }
            }
        }
        x.bound("the same slicers x all ordered pairs of ranges from {s-2, s, s+1, e-1, e, e+2}, length 11; triples from {s, s+1, e-1, e+1}");
        let p = rgs(&pts(&[-2, 0, 1], &[-1, 0, 2]));
        for s in sources(11) {
            for r in &p {
                for q in &p {
                    let mut cfg = Cfg { slicer: s.clone(), ..Cfg::default() };
                    f(&mut cfg, &Rgs2(vec![*r, *q]));
                    x.group1(&cfg, Input::Raw(tick(11)), &[full(), fr(&[], 1)]);
                }
            }
        }
        let p = rgs(&pts(&[0, 1], &[-1, 1]));
        for s in sources(11) {
            for r in &p {
                for q in &p {
                    for t in &p {
                        let mut cfg = Cfg { slicer: s.clone(), ..Cfg::default() };
                        f(&mut cfg, &Rgs2(vec![*r, *q, *t]));
                        x.group1(&cfg, Input::Raw(tick(11)), &[full()]);
                    }
                }
            }
        }
    }
    let bi = b as i64;
    x.bound("11 slicers with slices in every block x ranges with offsets {0, +-1, +-3, +-20, +-(B-1), +-B, +-(B+1)} x stream lengths around the block boundaries x reads");
    let ks = [-bi - 1, -bi, -20, -3, -1, 0, 1, 3, 20, bi - 1, bi + 1];
    let mut rs: Vec<Vec<Rg>> = Vec::new();
    for s in ks {
        for e in ks {
            rs.push(vec![Rg((S, s), (E, e))]);
        }
        rs.push(vec![Rg((E, s), (E, s + 2))]);
        rs.push(vec![Rg((S, s), (S, s + 2))]);
        rs.push(vec![Rg((S, s), (S, s + 1)), Rg((E, -1), (E, 0)), Rg((S, 0), (E, s))]);
    }
    rs.push(vec![Rg((S, 0), (S, 2)), Rg((E, -2), (E, 0))]);
    rs.push(vec![Rg((E, -2), (E, 0)), Rg((S, 0), (S, 2))]);
    rs.push(vec![Rg((E, 3), (E, 9)), Rg((S, -9), (S, -3)), Rg((S, 0), (E, 0))]);
    for n in if x.big { vec![2 * b + 1] } else { few_lens(b) } {
        for (si, s) in long_sources(b).into_iter().enumerate() {
            for r in &rs {
                // bound the amount of output: wide extensions of dense slices only on short streams
                let span: i64 = r.iter().map(|r| (r.1 .1 - r.0 .1).abs()).max().unwrap();
                if span > 100 && matches!(si, 0 | 1 | 2 | 6 | 9) && (n > b + 1 || b > 1024) {
                    continue;
                }
                if x.big && (span > 100 || si % 3 != 0) {
                    continue;
                }
                let mut cfg = Cfg { slicer: s.clone(), ..Cfg::default() };
                f(&mut cfg, &Rgs2(r.clone()));
                let fr = if x.thorough { frs(n, b) } else if n == 2 * b + 1 || n > 5000 { few(n, b) } else { vec![full()] };
                x.group1(&cfg, Input::Raw(pos(n)), &fr);
            }
        }
    }
}

pub struct Rgs2(pub Vec<Rg>);

fn extend(x: &mut X) {
    stage4(x, &|c, r| c.extend = Some(r.0.clone()));
}

fn invert(x: &mut X) {
    stage4(x, &|c, r| c.invert = Some(r.0.clone()));
}

fn merge(x: &mut X) {
    let b = x.b;
    if !x.big {
        x.bound("all sorted lists of <= 4 slices (offset 0..=7, length 1..=4) given by a guide x N 0..=5 x stream of 9 bytes");
        let mut one = Vec::new();
        for o in 0..=7u64 {
            for s in 1..=4u64 {
                one.push((o, s));
            }
        }
        let none = |o: u64, s: u64| Rec { off: o, span: s, body: None, mosaic: 0, pad: 0, style: 0 };
        for a in &one {
            for c in one.iter().filter(|c| *c >= a) {
                for e in one.iter().filter(|e| *e >= c) {
                    for n in [0usize, 1, 2, 4] {
                        let cfg = Cfg { slicer: Slicer::Guide(vec![none(a.0, a.1), none(c.0, c.1), none(e.0, e.1)]), merge: Some(n), ..Cfg::default() };
                        x.group1(&cfg, Input::Raw(pos(9)), &[full()]);
                    }
                }
            }
        }
        x.bound("15 slicers x N {0, 1, 2, 3, 4, 5, 8, 16, 1000, 2^63-1} x lengths 0..=20 x reads {full, 1}; all words over {a, b} of length <= 9 with --find a, N 0..=4");
        for n in 0..=20 {
            for s in sources(n) {
                for m in [0usize, 1, 2, 3, 4, 5, 8, 16, 1000, i64::MAX as usize] {
                    x.group1(&Cfg { slicer: s.clone(), merge: Some(m), ..Cfg::default() }, Input::Raw(tick(n)), &[full(), fr(&[], 1)]);
                }
            }
        }
        for w in words(b"ab", 9) {
            for m in 0..=4 {
                x.group1(&Cfg { slicer: Slicer::Find(b"a".to_vec()), merge: Some(m), ..Cfg::default() }, Input::Raw(w.clone()), &[full(), fr(&[], 1)]);
            }
        }
    }
    x.bound("two isolated slices with gaps {0, 1, N-1, N, N+1} for N in {0, 1, 10, B-1, B, B+1, 2B} at positions around the block boundaries; long slicers x N x lengths x reads");
    for m in [0usize, 1, 10, b - 1, b, b + 1, 2 * b] {
        for gap in [0, 1, m.saturating_sub(1), m, m + 1, m + 2] {
            for o in [0, 5, b - 1, b, b + 1] {
                for l in [1, 3, b] {
                    let n = o + l + gap + 20;
                    if x.big && (l == 3 || o == 5) {
                        continue;
                    }
                    let none = |o: usize, s: usize| Rec { off: o as u64, span: s as u64, body: None, mosaic: 0, pad: 0, style: 0 };
                    let cfg = Cfg { slicer: Slicer::Guide(vec![none(o, l), none(o + l + gap, 2), none(o + l + gap + 3, 1)]), merge: Some(m), ..Cfg::default() };
                    x.group1(&cfg, Input::Raw(pos(n)), &few(n, b));
                }
            }
        }
    }
    for n in if x.big { vec![2 * b + 1] } else { lens(b) } {
        for s in long_sources(b) {
            for m in [0usize, 1, 3, 4, 5, 16, 97, 100, b - 1, b, b + 1, 3 * b] {
                if x.big && m != 4 && m != b {
                    continue;
                }
                x.group1(&Cfg { slicer: s.clone(), merge: Some(m), ..Cfg::default() }, Input::Raw(pos(n)), &few(n, b));
            }
        }
    }
}

fn lines(x: &mut X) {
    let b = x.b;
    if !x.big {
        let p = rgs(&pts(&[-1, 0, 1, 2, 3, 5], &[-4, -2, -1, 0, 1]));
        x.bound("all single S..E and all ordered pairs with ends in {s-1, s, s+1, s+2, s+3, s+5, e-4, e-2, e-1, e, e+1} x 0..=6 lines x reads; 15 slicers x single ranges; triples of a subset");
        for n in 0..=6usize {
            for r in &p {
                x.group1(&Cfg { slicer: Slicer::Width(1, None), lines: Some(vec![*r]), ..Cfg::default() }, Input::Raw(pos(n)), &frs(n, b));
                for q in &p {
                    if n % 2 == 0 || x.thorough {
                        x.group1(&Cfg { slicer: Slicer::Width(2, None), lines: Some(vec![*r, *q]), ..Cfg::default() }, Input::Raw(pos(2 * n)), &[full(), fr(&[], 1)]);
                    }
                }
            }
        }
        for n in [1usize, 10, 17] {
            for s in sources(n) {
                for r in &p {
                    x.group1(&Cfg { slicer: s.clone(), lines: Some(vec![*r]), ..Cfg::default() }, Input::Raw(tick(n)), &[full(), fr(&[], 1)]);
                }
            }
        }
        let p = rgs(&pts(&[0, 1, 3], &[-2, -1, 0]));
        for r in &p {
            for q in &p {
                for t in &p {
                    x.group1(&Cfg { slicer: Slicer::Width(1, None), lines: Some(vec![*r, *q, *t]), ..Cfg::default() }, Input::Raw(pos(5)), &[full()]);
                }
            }
        }
    }
    x.bound("slicers with slices in every block x ranges with ends around the number of lines per block x lengths x reads");
    for n in if x.big { vec![2 * b + 1] } else { lens(b) } {
        for (si, s) in long_sources(b).into_iter().enumerate() {
            if x.big && si % 3 != 0 {
                continue;
            }
            let per = match si {
                0 => b / 16,
                1 | 2 => b / 7,
                _ => 2,
            } as i64;
            let p = rgs(&pts(&[0, 1, 3, per - 1, per, per + 1, 2 * per], &[-per - 1, -per, -2, -1, 0]));
            for r in &p {
                x.group1(&Cfg { slicer: s.clone(), lines: Some(vec![*r]), ..Cfg::default() }, Input::Raw(pos(n)), &few(n, b));
            }
            if n == 2 * b + 1 && !x.big {
                let p = rgs(&pts(&[0, 2, per], &[-per - 1, -1, 0]));
                for r in &p {
                    for q in &p {
                        x.group1(&Cfg { slicer: s.clone(), lines: Some(vec![*r, *q]), ..Cfg::default() }, Input::Raw(pos(n)), &few(n, b));
                    }
                }
            }
        }
    }
}

fn regex(x: &mut X) {
    let b = x.b;
    let pats = ["a", "ab", "a+", "a*b", "^a", "b$", "a|bb", "[ab]c?", "(?s).", "..", "a.b", "(a|ab)(c|bcd)?", "\\x61", "(?-u)\\xff", "[^a]+", "a{2}", "\\bab", "(?i)A"];
    if !x.big {
        x.bound("18 patterns x all words over {a, b, c, newline} of length <= 6 as one slice and in slices of 1, 2, 3, 4 bytes x reads {full, 1}");
        for w in words(b"abc\n", 6) {
            for p in pats {
                for k in [2usize, 3, 16] {
                    let cfg = Cfg { slicer: Slicer::Width(k, None), regex: Some(p.to_string()), ..Cfg::default() };
                    x.group1(&cfg, Input::Raw(w.clone()), &[full()]);
                }
            }
        }
        x.bound("18 patterns x 15 slicers x lengths 0..=20");
        for n in 0..=20 {
            for s in sources(n) {
                for p in pats {
                    let cfg = Cfg { slicer: s.clone(), regex: Some(p.to_string()), ..Cfg::default() };
                    x.group1(&cfg, Input::Raw(tick(n)), &[full(), fr(&[], 1)]);
                }
            }
        }
        x.bound("every byte value is matched by [\\x00-\\xff] (bytes mode), width 16");
        for v in 0..=255u8 {
            let cfg = Cfg { regex: Some(format!("(?-u)\\x{v:02x}")), ..Cfg::default() };
            x.group1(&cfg, Input::Raw((0..=255).collect()), &[full()]);
        }
    }
    x.bound("18 patterns x slicers with slices in every block x lengths around the block boundaries x reads");
    for n in if x.big { vec![2 * b + 1] } else { lens(b) } {
        for (si, s) in long_sources(b).into_iter().enumerate() {
            for p in pats {
                if x.big && (si % 3 != 0 || p.len() > 3) {
                    continue;
                }
                let s = if let Slicer::Find(_) = s { Slicer::Find(b"ab".to_vec()) } else { s.clone() };
                let cfg = Cfg { slicer: s, regex: Some(p.to_string()), ..Cfg::default() };
                x.group1(&cfg, Input::Raw(tick(n)), &few(n, b));
            }
        }
    }
    x.bound("a single occurrence at every offset within 10 bytes of a block boundary, slices {whole stream, width 16, width 2B}");
    for k in 1..=2 {
        for delta in -10i64..=10 {
            let at = ((k * b) as i64 + delta) as usize;
            let mut s = vec![b'.'; (k + 1) * b + 5];
            s[at..at + 4].copy_from_slice(b"abcd");
            let n = s.len();
            for sl in [Slicer::Width(16, None), Slicer::Width(2 * b, None), Slicer::Slice(vec![Rg((S, 0), (E, 0))]), Slicer::Width(16, Some(Rg((S, -5), (E, 5))))] {
                for p in ["abcd", "b.d", "[a-d]+"] {
                    let cfg = Cfg { slicer: sl.clone(), regex: Some(p.to_string()), ..Cfg::default() };
                    x.group1(&cfg, Input::Raw(s.clone()), &if x.big { vec![full()] } else { few(n, b) });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- stage 5

pub fn tm(text: &str, f: impl Fn(i64, i64) -> String + Send + Sync + 'static) -> Tmpl {
    Tmpl { text: text.to_string(), f: Arc::new(f) }
}

pub fn templates() -> Vec<Tmpl> {
    vec![
        tm("plain", |_, _| "plain".into()),
        tm("f_{n}", |n, _| format!("f_{n}")),
        tm("f_{l}", |_, l| format!("f_{l}")),
        tm("f_{n:04x}.bin", |n, _| format!("f_{n:04x}.bin")),
        tm("f_{n:d}_{l:d}", |n, l| format!("f_{n}_{l}")),
        tm("f_{l:06d}", |_, l| format!("f_{l:06}")),
        tm("f_{(l&1)}", |_, l| format!("f_{}", l & 1)),
        tm("f_{(l&0x01)}", |_, l| format!("f_{}", l & 1)),
        tm("f_{(n/7)}", |n, _| format!("f_{}", n / 7)),
        tm("f_{(n+l):02x}_{(l%3)}", |n, l| format!("f_{:02x}_{}", n + l, l % 3)),
        tm("{l:b}", |_, l| format!("{l:b}")),
        tm("{l:o}x", |_, l| format!("{l:o}x")),
        tm("{(3-l)}z", |_, l| format!("{}z", 3 - l)),
    ]
}

fn output(x: &mut X) {
    let b = x.b;
    if !x.big {
        x.bound("13 templates (fixed, n, l, expressions, formatters) x 15 slicers x lengths {0..=3, 10, 17, 30} x formats {default, x, b} x stale longer files present or not");
        for t in templates() {
            for n in [0usize, 1, 2, 3, 10, 17, 30] {
                for s in sources(n) {
                    for fmt in [None, Some("b"), Some("x")] {
                        let cfg = Cfg { slicer: s.clone(), outfmt: fmt, out: Out::Template(t.clone()), ..Cfg::default() };
                        let has = !stage3(&cfg, &tick(n)).unwrap_or_default().is_empty();
                        x.stale = Vec::new();
                        x.group1(&cfg, Input::Raw(tick(n)), &[full()]);
                        if has {
                            // stale files only under names the run is going to write
                            if let Expect::Out(_, files) = spec(&cfg, &[Input::Raw(tick(n))]) {
                                x.stale = files.iter().map(|f| (f.0.clone(), vec![b'#'; f.1.len() + 100])).collect();
                                x.group1(&cfg, Input::Raw(tick(n)), &[full(), fr(&[], 1)]);
                                x.stale = files.iter().map(|f| (f.0.clone(), vec![b'#'; 1])).collect();
                                x.group1(&cfg, Input::Raw(tick(n)), &[full()]);
                            }
                        }
                    }
                }
            }
        }
        x.stale = Vec::new();
        x.bound("stage-4 filters before the drain (line numbers and offsets of the surviving slices)");
        for t in templates() {
            for s in sources(20) {
                for k in 0..5 {
                    let mut cfg = Cfg { slicer: s.clone(), out: Out::Template(t.clone()), ..Cfg::default() };
                    match k {
                        0 => cfg.extend = Some(vec![Rg((S, 1), (E, 2)), Rg((E, 0), (E, 1))]),
                        1 => cfg.merge = Some(1),
                        2 => cfg.lines = Some(vec![Rg((S, 1), (S, 3)), Rg((E, -1), (E, 0))]),
                        3 => cfg.invert = Some(vec![Rg((S, 0), (E, 0))]),
                        _ => cfg.regex = Some("a|b".into()),
                    }
                    x.group1(&cfg, Input::Raw(tick(20)), &[full(), fr(&[], 1)]);
                }
            }
        }
    }
    if !x.big {
        let mut ks = vec![2usize, 3, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300];
        if x.thorough {
            ks.extend((4..=300).filter(|k| !ks.contains(k)).collect::<Vec<_>>());
            ks.extend([511, 512, 513, 1000, 1023, 1024, 1025, 1500]);
        }
        x.bound(&format!("{ks:?} different file names, each written to again after all the others: two and a half rounds"));
        for k in ks {
            for width in [1usize, 3] {
                let n = (2 * k + k / 2 + 1) * width;
                let t = tm(&format!("f{{((n/{width})%{k})}}"), move |n, _| format!("f{}", n / width as i64 % k as i64));
                let cfg = Cfg { slicer: Slicer::Width(width, None), out: Out::Template(t), outfmt: Some("b"), ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(n)), &[full()]);
                let t = tm(&format!("g{{(l%{k})}}"), move |_, l| format!("g{}", l % k as i64));
                let cfg = Cfg { slicer: Slicer::Width(width, None), out: Out::Template(t), ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(n)), &[full()]);
            }
        }
    }
    x.bound("streams around the block boundaries x slicers with slices in every block x templates with few distinct names (append order) and with one name per slice x reads");
    for n in if x.big { vec![2 * b + 1] } else { [vec![b - 1, b + 1, 2 * b + 1, 3 * b], long_len(b).into_iter().collect()].concat() } {
        for (si, s) in long_sources(b).into_iter().enumerate() {
            for (ti, t) in templates().into_iter().enumerate() {
                if matches!(ti, 1..=5 | 8..=12) && matches!(si, 0 | 1 | 2 | 6 | 9) && (n > b + 1 || b > 1024) {
                    continue; // one file per slice: thousands of files
                }
                if x.big && (si % 4 != 0 || ti > 1) {
                    continue;
                }
                let cfg = Cfg { slicer: s.clone(), out: Out::Template(t.clone()), ..Cfg::default() };
                x.group1(&cfg, Input::Raw(pos(n)), &if x.thorough { frs(n, b) } else { vec![full(), fr(&[], b / 2 + 1)] });
            }
        }
    }
}

/// the schedules of the threads behind --patch-back; the exec runs all of them in each case
fn schedules(x: &mut X) {
    let b = x.b;
    let rs = |v: &[(u64, u64, &[u8])]| v.iter().map(|r| rec(r.0, r.1, r.2)).collect::<Vec<_>>();
    let cmds = |n: usize| {
        let mut v = vec![
            Cmd::Id,
            Cmd::Sponge,
            Cmd::DropAll,
            Cmd::Head,
            Cmd::Const(rs(&[(1, 1, &[0xee])])),
            Cmd::Early(rs(&[(0, 1, &[0xe1, 0xe2])])),
            Cmd::NoRead(rs(&[(1, 0, &[0xe3])])),
            Cmd::NoRead(vec![]),
            Cmd::Script("printf '0'; cat > /dev/null; printf '1'", rs(&[(0, 1, &[]), (n as u64, 0, &[9, 9])])),
            Cmd::Script("printf '0'; exec > /dev/null; cat > /dev/null", rs(&[(2, 2, &[7])])),
            Cmd::Script("exec > /dev/null; cat > /dev/null", vec![]),
            Cmd::Script("printf '0'; printf '1'; cat > /dev/null", rs(&[(0, 3, &[1]), (2, 1, &[2])])), // overlapping: must be refused
        ];
        if n > b {
            v.push(Cmd::Script("printf '0'; cat > /dev/null; printf '1'", rs(&[(1, 1, &[5, 6]), (b as u64 - 1, 3, &[4])])));
        }
        v
    };
    let lens = if x.thorough { vec![0usize, 1, 5, 40, 100, b - 1, b, b + 5, 2 * b, 2 * b + 1, 3 * b + 1] } else { vec![0usize, 5, 40, b, b + 5, 2 * b + 1] };
    x.bound(&format!("streams of {lens:?} bytes x 13 commands (answering at once, late, before, after or without reading, closing either end early, with overlapping records) x slices {{default, one, one near the head}}"));
    x.bound("pipes that hold 64 (thorough: 16) or 4096 bytes, commands that read 64 (thorough: 16) or 4096 bytes at once, and up to 1 (thorough: 2) wakeups of condition variables out of nothing");
    for n in lens {
        for c in cmds(n) {
            let ss = vec![Slicer::Default, Slicer::Width(n.max(1), None), Slicer::Slice(vec![Rg((S, 1), (S, 3))])];
            for s in ss {
                let mut setups = vec![(4096, 4096, 0), (64, 4096, 0), (4096, 64, 0), (4096, 4096, 1)];
                if x.thorough {
                    setups.extend([(16, 4096, 0), (4096, 16, 0), (64, 64, 0), (4096, 4096, 2), (64, 4096, 1)]);
                }
                for (cap, chunk, spurious) in setups {
                    let cfg = Cfg { slicer: s.clone(), out: Out::PatchBack(c.clone()), ..Cfg::default() };
                    x.stale = vec![("capacity".to_string(), vec![0; cap]), ("chunk".to_string(), vec![0; chunk])];
                    for _ in 0..spurious {
                        x.stale.push(("spurious".to_string(), vec![]));
                    }
                    if n == 0 {
                        x.stale.push(("validate".to_string(), vec![]));
                    }
                    x.group1(&cfg, Input::Raw(pos(n)), &[full()]);
                }
            }
        }
    }
    x.stale.clear();
}

fn patch_back(x: &mut X) {
    let b = x.b;
    let cmds = vec![
        Cmd::Id,
        Cmd::Sponge,
        Cmd::DropAll,
        Cmd::Upper,
        Cmd::Widen,
        Cmd::Shrink,
        Cmd::Const(vec![rec(1, 1, &[0xee])]),
        Cmd::Const(vec![rec(0, 0, &[0xe0]), rec(3, 2, &[])]),
        Cmd::Save(vec![rec(1, 0, &[0xe4])]),
        Cmd::Save(vec![]),
        Cmd::Early(vec![rec(0, 1, &[0xe1, 0xe2])]),
        Cmd::NoRead(vec![rec(1, 0, &[0xe3])]),
        Cmd::NoRead(vec![]),
        Cmd::Const(vec![rec(2, 3, &[1]), rec(3, 1, &[2])]), // overlapping: must be refused
    ];
    if !x.big {
        x.bound("14 commands x lengths {0, 1, 5, 17, 40} x {default slicer, 9 other slicers} x filters {none, extend, merge, lines}");
        for n in [0usize, 1, 5, 17, 40] {
            for c in &cmds {
                let mut ss = vec![Slicer::Default];
                ss.extend(sources(n).into_iter().step_by(if x.thorough { 1 } else { 3 }));
                for s in ss {
                    for k in 0..3 {
                        let mut cfg = Cfg { slicer: s.clone(), out: Out::PatchBack(c.clone()), ..Cfg::default() };
                        match k {
                            1 => cfg.merge = Some(0),
                            2 => cfg.lines = Some(vec![Rg((S, 0), (S, 1))]),
                            _ => {}
                        }
                        if !x.thorough && k == 1 && n < 17 {
                            continue;
                        }
                        x.group1(&cfg, Input::Raw(tick(n)), &[full()]);
                    }
                }
            }
        }
        x.bound("what CMD is given: formats {default, x, xxx, b, d} x 16 slicers x lengths {0, 1, 5, 17, 40} x {nothing, a record} in return");
        for fmt in [None, Some("x"), Some("xxx"), Some("b"), Some("d")] {
            for n in [0usize, 1, 5, 17, 40] {
                for s in sources(n).into_iter().chain([Slicer::Default]) {
                    for r in [vec![], vec![rec(0, n as u64 / 2, &[0xe5])]] {
                        let cfg = Cfg { slicer: s.clone(), outfmt: fmt, out: Out::PatchBack(Cmd::Save(r)), ..Cfg::default() };
                        x.group1(&cfg, Input::Raw(tick(n)), &[full()]);
                    }
                }
            }
        }
        x.bound("stage 1 and 2 before patch-back: the patch applies to the output of stage 2");
        for c in &cmds {
            for n in [3usize, 20] {
                let base = Cfg { out: Out::PatchBack(c.clone()), ..Cfg::default() };
                x.group1(&Cfg { cut: Some(vec![Rg((S, 1), (E, -1))]), ..base.clone() }, Input::Raw(tick(n)), &[full()]);
                x.group1(&Cfg { pad: Some((3, 20)), filler: Some(0x61), ..base.clone() }, Input::Raw(tick(n)), &[full()]);
                x.group1(&Cfg { patch: Some((vec![rec(1, 1, b"aaa")], true)), ..base.clone() }, Input::Raw(tick(n)), &[full()]);
                x.group(&Cfg { join: Join::Zip(2), ..base.clone() }, &[Input::Raw(tick(n)), Input::Raw(pos(n))], &same(2, vec![full()]));
                x.group1(&Cfg { outfmt: Some("x"), slicer: Slicer::Width(5, None), inplace: true, ..base.clone() }, Input::Raw(tick(n)), &[full()]);
            }
        }
    }
    x.bound("stream lengths around the block boundaries x commands x slicers that cover everything / end early / leave gaps");
    let bi = b as i64;
    for n in if x.big { vec![2 * b + 1] } else { vec![b - 1, b, b + 1, 2 * b + 1, 4 * b + 3] } {
        for (ci, c) in cmds.iter().enumerate() {
            let ss = vec![
                Slicer::Default,
                Slicer::Width(b / 2 + 3, None),
                Slicer::Slice(vec![Rg((S, 1), (S, 3))]),
                Slicer::Slice(vec![Rg((S, 3), (S, bi + 5)), Rg((E, -5), (E, 0))]),
                Slicer::Find(vec![7]),
                Slicer::Guide(vec![rec(2, 4, &[]), rec(b as u64 + 1, 3, &[])]),
                Slicer::Slice(vec![Rg((S, 3), (S, 5)), Rg((S, 3), (S, bi + 9)), Rg((S, bi), (S, bi + 1)), Rg((S, bi), (S, 2 * bi + 3)), Rg((S, bi + 2), (S, bi + 4))]),
                Slicer::Width(7, Some(Rg((S, -3), (E, 3)))),
            ];
            for (si, s) in ss.into_iter().enumerate() {
                for l in [false, true] {
                    if x.big && (si > 2 || ci > 6) {
                        continue;
                    }
                    let mut cfg = Cfg { slicer: s.clone(), out: Out::PatchBack(c.clone()), ..Cfg::default() };
                    if l {
                        cfg.lines = Some(vec![Rg((S, 0), (S, 2))]);
                    }
                    x.group1(&cfg, Input::Raw(pos(n)), &[full()]);
                }
            }
        }
    }
    x.bound("streams long enough to roll the cache over to a temporary file and to fill both pipes (130B + 7 and 300 KB)");
    for c in [Cmd::Id, Cmd::Sponge, Cmd::Widen, Cmd::NoRead(vec![rec(1, 0, &[0xe3])]), Cmd::Const(vec![rec(100, 3, &[1])])] {
        for n in if x.big { vec![3 * b] } else { vec![130 * b + 7, 300_000] } {
            for s in [Slicer::Default, Slicer::Width(4096, None), Slicer::Slice(vec![Rg((S, 1), (S, 3))])] {
                if x.big && matches!(s, Slicer::Default) && c != Cmd::Id {
                    continue;
                }
                x.group1(&Cfg { slicer: s, out: Out::PatchBack(c.clone()), ..Cfg::default() }, Input::Raw(pos(n)), &[full()]);
            }
        }
    }
}

// ---------------------------------------------------------------- whole pipeline

fn compose(x: &mut X) {
    let b = x.b;
    let none = |o: u64, s: u64| Rec { off: o, span: s, body: None, mosaic: 0, pad: 0, style: 0 };
    x.bound("all subsets of the 20 options outside patch-back (2^20): those with two exclusive options are refused; every other one runs, in documented and in reverse order of arguments, and gives the documented result on inputs of 0, 29 and 2B+17 bytes");
    let raw = [Input::Raw(tick(29)), Input::Raw(pos(7))];
    let text = [Input::Recs(vec![rec(2, 6, b"abcabb"), rec(9, 3, b"aab"), rec(14, 20, &tick(17))], true), Input::Recs(vec![rec(0, 3, b"xyz")], true)];
    let long = [Input::Raw(tick(2 * b + 17)), Input::Raw(pos(2 * b + 18))];
    let longer = [Input::Raw(tick(6501)), Input::Raw(pos(6502))];
    let values = if x.thorough { 2 } else { 1 };
    for v in 0..values {
        for m in 0..1u32 << 20 {
            let on = |k: u32| m >> k & 1 == 1;
            let joins = on(0) as u32 + on(1) as u32 + on(2) as u32;
            let slicers = (3..8).filter(|k| on(*k)).count();
            let (s2, e2) = if v == 0 { (1, 2) } else { (2, 1) };
            let mut cfg = Cfg::default();
            if on(8) {
                cfg.infmt = Some(if v == 0 { "x" } else { "nnx" });
            }
            if on(9) {
                cfg.outfmt = Some(if v == 0 { "b" } else { "x" });
            }
            if on(10) {
                cfg.filler = Some(0x61);
            }
            if on(11) {
                cfg.cut = Some(if v == 0 { vec![Rg((S, 2), (E, -1))] } else { vec![Rg((S, 1), (S, 9)), Rg((E, -8), (E, 0))] });
            }
            if on(12) {
                cfg.pad = Some((3, 5));
            }
            if on(13) {
                cfg.patch = Some((vec![rec(1, 2, b"ab"), rec(7, 0, b"aba")], true));
            }
            if on(14) {
                cfg.regex = Some("a|b+".into());
            }
            if on(15) {
                cfg.invert = Some(vec![Rg((S, 0), (E, 0))]);
            }
            if on(16) {
                cfg.extend = Some(vec![Rg((S, -s2), (E, e2))]);
            }
            if on(17) {
                cfg.merge = Some(1);
            }
            if on(18) {
                cfg.lines = Some(vec![Rg((S, 1), (E, -1))]);
            }
            if on(19) {
                cfg.out = Out::Template(templates()[6].clone());
            }
            if joins > 1 || slicers > 1 {
                if !x.mine() || v > 0 {
                    continue;
                }
                let (mut args, _) = cfg.args();
                let names = ["--cat=2", "--zip=2", "--inplace", "--width=5", "--find=61", "--walk=3", "--slice=1..3", "--guide=/dev/null"];
                args.extend((0..8).filter(|k| on(*k as u32)).map(|k| names[k].to_string()));
                let args: Vec<String> = args.iter().map(|a| a.replace("@DIR@/out/", "").replace("@DIR@", "/nonexistent")).filter(|a| !a.starts_with("--output")).collect();
                let a2 = args.clone();
                x.assert_case(&|| format!("{a2:?} must be refused"), &mut |e| match e.check_args(&args) {
                    Ok(()) => Err(format!("{args:?}: exclusive options are accepted")),
                    Err(_) => Ok(0),
                });
                continue;
            }
            if on(0) {
                cfg.join = Join::Cat(2);
            }
            if on(1) {
                cfg.join = Join::Zip(2);
            }
            cfg.inplace = on(2);
            if on(3) {
                cfg.slicer = if v == 0 { Slicer::Width(5, None) } else { Slicer::Width(5, Some(Rg((S, 1), (E, 1)))) };
            }
            if on(4) {
                cfg.slicer = Slicer::Find(b"ab".to_vec());
            }
            if on(5) {
                cfg.slicer = Slicer::Walk(vec![we("3", |_| 3), we("4", |_| 4)]);
            }
            if on(6) {
                cfg.slicer = Slicer::Slice(vec![Rg((S, 1), (S, 8)), Rg((S, 4), (E, -2)), Rg((E, -6), (E, 0))]);
            }
            if on(7) {
                cfg.slicer = Slicer::Guide(vec![none(0, 3), none(2, 9), none(12, 4), none(20, 30)]);
            }
            if !x.mine() {
                continue;
            }
            let k = if cfg.inplace { 1 } else { 2 };
            let mut sets: Vec<&[Input]> = vec![if cfg.infmt.is_some() { &text[..k] } else { &raw[..k] }];
            if cfg.infmt.is_none() && (m.count_ones() <= 4 || x.thorough && m.count_ones() <= 6) {
                sets.push(&long[..k]);
            }
            if cfg.infmt.is_none() && !x.big && m.count_ones() <= 3 {
                sets.push(&longer[..k]);
            }
            let empty = vec![Input::Raw(vec![]), Input::Raw(vec![])];
            if m.count_ones() <= 6 {
                if cfg.infmt.is_none() {
                    sets.push(&empty[..k]);
                }
            }
            for inputs in sets {
                let expect = spec(&cfg, inputs);
                let n = inputs[0].bytes().len();
                let f = if n > b { same(k, few(n, b)) } else { same(k, vec![if m % 2 == 0 { full() } else { fr(&[], 1) }]) };
                x.run_group(&cfg, inputs, &f, &expect);
            }
        }
    }
}

fn chunking(x: &mut X) {
    let b = x.b;
    let none = |o: u64, s: u64| Rec { off: o, span: s, body: None, mosaic: 0, pad: 0, style: 0 };
    let opts: Vec<Cfg> = vec![
        d(),
        Cfg::default(),
        Cfg { cut: Some(vec![Rg((S, 2), (E, -1))]), ..d() },
        Cfg { cut: Some(vec![Rg((S, 1), (S, 4)), Rg((E, -3), (E, 0))]), ..d() },
        Cfg { pad: Some((2, 3)), ..d() },
        Cfg { patch: Some((vec![rec(1, 2, &[9, 8, 7]), rec(4, 0, &[6])], true)), ..d() },
        Cfg { slicer: Slicer::Width(3, Some(Rg((S, -1), (E, 1)))), ..Cfg::default() },
        Cfg { slicer: Slicer::Width(2, Some(Rg((S, 1), (E, 3)))), ..Cfg::default() },
        Cfg { slicer: Slicer::Find(b"ab".to_vec()), ..Cfg::default() },
        Cfg { slicer: Slicer::Find(b"aa".to_vec()), ..Cfg::default() },
        Cfg { slicer: Slicer::Walk(vec![we("2", |_| 2), we("3", |_| 3)]), ..Cfg::default() },
        Cfg { slicer: Slicer::Slice(vec![Rg((S, 1), (E, -2)), Rg((S, 2), (S, 5)), Rg((E, -4), (E, 0))]), ..Cfg::default() },
        Cfg { slicer: Slicer::Guide(vec![none(0, 3), none(1, 1), none(4, 9)]), ..Cfg::default() },
        Cfg { slicer: Slicer::Width(4, None), regex: Some("a+|b".into()), ..Cfg::default() },
        Cfg { slicer: Slicer::Find(b"a".to_vec()), invert: Some(vec![Rg((S, 0), (E, 1)), Rg((S, 0), (S, 1))]), ..Cfg::default() },
        Cfg { slicer: Slicer::Find(b"b".to_vec()), extend: Some(vec![Rg((S, -2), (E, 1)), Rg((E, 0), (E, 2))]), ..Cfg::default() },
        Cfg { slicer: Slicer::Find(b"a".to_vec()), merge: Some(2), ..Cfg::default() },
        Cfg { slicer: Slicer::Width(1, None), lines: Some(vec![Rg((S, 1), (S, 3)), Rg((E, -3), (E, -1))]), ..Cfg::default() },
        Cfg { slicer: Slicer::Find(b"a".to_vec()), extend: Some(vec![Rg((S, -1), (E, 1))]), merge: Some(0), lines: Some(vec![Rg((S, 0), (E, -1))]), ..Cfg::default() },
        Cfg { out: Out::Template(templates()[6].clone()), slicer: Slicer::Width(2, None), ..Cfg::default() },
        Cfg { infmt: None, join: Join::Cat(4), ..d() },
    ];
    let n = if x.thorough { 13 } else { 10 };
    if !x.big {
        x.bound(&format!("21 configurations covering every option x all 2^{} splits of a {n}-byte input into reads", n - 1));
        for cfg in &opts {
            for f in compositions(n).chunks(64) {
                x.group1(cfg, Input::Raw(tick(n)), f);
            }
        }
        x.bound("-F x and -F nnx: all splits of a 2-line text with at most two cuts");
        let i = Input::Recs(vec![rec(1, 2, &[1, 2, 3]), Rec { off: 4, span: 3, body: Some(vec![4, 5]), mosaic: 1, pad: 1, style: 0 }], true);
        let len = i.bytes().len();
        for fmt in ["x", "nnx"] {
            for a in 1..len {
                let f: Vec<Frag> = (1..len - a + 1).map(|c| fr(&[a, c], 0)).collect();
                x.group1(&Cfg { infmt: Some(fmt), ..d() }, i.clone(), &f);
            }
        }
        x.bound("two inputs (cat 1, cat 3, zip 1, zip 3): all 2^5 x 2^4 pairs of splits of 6 + 5 bytes");
        for join in [Join::Cat(1), Join::Cat(3), Join::Zip(1), Join::Zip(3)] {
            let fs: Vec<Vec<Frag>> = compositions(6).iter().flat_map(|f| compositions(5).into_iter().map(move |g| vec![f.clone(), g])).collect();
            for f in fs.chunks(64) {
                x.group(&Cfg { join, ..d() }, &[Input::Raw(tick(6)), Input::Raw(pos(5))], f);
            }
        }
    }
    x.bound("the same 21 configurations on a stream of 3B+5 bytes: all sequences of 4 reads over {1, 2, B-1, B, B/2} followed by full reads");
    let sizes = [1, 2, b - 1, b, b / 2];
    for cfg in &opts {
        let mut fs = Vec::new();
        for w in words(&[0, 1, 2, 3, 4], 4).into_iter().filter(|w| w.len() == 4 || w.len() == 2) {
            fs.push(fr(&w.iter().map(|i| sizes[*i as usize]).collect::<Vec<_>>(), 0));
        }
        if x.big {
            fs.truncate(8);
        }
        for f in fs.chunks(16) {
            x.group1(cfg, Input::Raw(tick(3 * b + 5)), f);
        }
        if let Some(n) = long_len(b) {
            x.group1(cfg, Input::Raw(tick(n)), &fs[..25]);
            x.group1(cfg, Input::Raw(tick(n)), &frs(n, b));
        }
    }
    x.bound("consumers: all cycles of 3 steps over {take all, take nothing (ask for more), take 1, take B-1} x requests {1, B, 3B} on streams of {0, 7, B, 2B+5} bytes, 21 configurations");
    let takes = [Take::All, Take::Nothing, Take::Upto(1), Take::Upto(b - 1)];
    let mut cs = Vec::new();
    for w in words(&[0, 1, 2, 3], 3).into_iter().filter(|w| w.len() == 3) {
        for req in [1, b, 3 * b] {
            cs.push(w.iter().map(|i| (req, takes[*i as usize])).collect::<Vec<_>>());
        }
    }
    if x.big {
        cs.truncate(6);
    }
    x.consumers = cs;
    for cfg in &opts {
        for n in [0usize, 7, b, 2 * b + 5].into_iter().chain(long_len(b)) {
            for f in few(n, b) {
                x.group1(cfg, Input::Raw(tick(n)), &[f]);
            }
        }
    }
    x.consumers = vec![vec![]];
}
