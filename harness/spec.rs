// Reference model of nd, written from README.md alone: whole-buffer, allocation-happy, no streaming.
// It knows nothing about blocks, requests, margins or segments in flight.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum An {
    S,
    E,
}
pub use self::An::*;

/// one end of a range expression: anchor + offset
pub type Pt = (An, i64);

/// a range expression S..E
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rg(pub Pt, pub Pt);

fn pt_text(p: Pt, is_end: bool) -> String {
    // several spellings of the same point, chosen deterministically so that all of them get used
    match p {
        (S, 0) if !is_end => ["", "0", "s"][0].to_string(),
        (E, 0) if is_end => "".to_string(),
        (S, k) if k % 2 == 0 => format!("{k}"),
        (S, k) if k > 0 => format!("s+{k}"),
        (S, k) => format!("s-{}", -k),
        (E, 0) => "e".to_string(),
        (E, k) if k > 0 => format!("e+{k}"),
        (E, k) => format!("e-{}", -k),
    }
}

impl Rg {
    pub fn text(&self) -> String {
        format!("{}..{}", pt_text(self.0, false), pt_text(self.1, true))
    }
    /// unclipped image of [s, e)
    pub fn map(&self, s: i64, e: i64) -> (i64, i64) {
        let f = |p: Pt| (if p.0 == S { s } else { e }) + p.1;
        (f(self.0), f(self.1))
    }
}

pub fn rgs_text(v: &[Rg]) -> String {
    v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")
}

/// a patch / hexdump record
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub off: u64,
    pub span: u64,
    pub body: Option<Vec<u8>>, // None: "offset length" only
    pub mosaic: u8,            // 0: no mosaic field, 1: standard one, 2: misleading text in it
    pub pad: usize,            // extra blanks between the array and the delimiter (as in a dump of a short slice)
    pub style: u8,             // spelling of the numbers
}

pub fn rec(off: u64, span: u64, body: &[u8]) -> Rec {
    Rec { off, span, body: Some(body.to_vec()), mosaic: 0, pad: 0, style: 0 }
}

pub fn printable(x: u8) -> u8 {
    if (0x20..0x7f).contains(&x) {
        x
    } else {
        b'.'
    }
}

impl Rec {
    pub fn text(&self) -> String {
        let mut s = match self.style {
            0 => format!("{:012x} {:04x}", self.off, self.span),
            1 => format!("{:x} {:x}", self.off, self.span),
            2 => format!("{:08X} {:02X}", self.off, self.span),
            _ => format!("{:015x} {:015x}", self.off, self.span),
        };
        if let Some(b) = &self.body {
            s.push_str(" | ");
            let hex = b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ");
            s.push_str(&if self.style == 2 { hex.to_uppercase() } else { hex });
            if self.mosaic > 0 {
                if !b.is_empty() {
                    s.push(' ');
                }
                s.push_str(&" ".repeat(3 * self.pad));
                s.push_str("| ");
                if self.mosaic == 1 {
                    s.extend(b.iter().map(|x| printable(*x) as char));
                    s.push_str(&" ".repeat(self.pad));
                } else {
                    s.push_str("00 11 22 | 33 zz");
                }
            }
        }
        s
    }
}

pub fn recs_text(v: &[Rec], tail_newline: bool) -> Vec<u8> {
    let mut s = v.iter().map(|x| x.text()).collect::<Vec<_>>().join("\n");
    if tail_newline && !v.is_empty() {
        s.push('\n');
    }
    s.into_bytes()
}

#[derive(Clone, Debug)]
pub enum Input {
    Raw(Vec<u8>),
    Recs(Vec<Rec>, bool), // records, with or without the newline at the end of the last line
    Text(Vec<u8>, bool),  // raw text for the parser; the flag tells if it's acceptable (contents then unspecified)
}

impl Input {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Raw(v) => v.clone(),
            Input::Recs(r, nl) => recs_text(r, *nl),
            Input::Text(t, _) => t.clone(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Join {
    Default,
    Cat(usize),
    Zip(usize),
}

#[derive(Clone)]
pub struct WalkExpr {
    pub text: String,
    pub f: std::sync::Arc<dyn Fn(&dyn Fn(char, usize) -> i64) -> i64 + Send + Sync>,
}

impl std::fmt::Debug for WalkExpr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

#[derive(Clone, Debug)]
pub enum Slicer {
    Default,
    Width(usize, Option<Rg>),
    Find(Vec<u8>),
    Walk(Vec<WalkExpr>),
    Slice(Vec<Rg>),
    Guide(Vec<Rec>),
}

#[derive(Clone)]
pub struct Tmpl {
    pub text: String,
    pub f: std::sync::Arc<dyn Fn(i64, i64) -> String + Send + Sync>, // (n, l) -> file name
}

impl std::fmt::Debug for Tmpl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Default,
    Dash,
    Template(Tmpl),
    PatchBack(Cmd),
}

/// commands for --patch-back, with their meaning as functions from dump text to patch records
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cmd {
    Id,           // cat
    Sponge,       // reads everything first, then answers
    DropAll,      // reads everything, answers nothing
    Const(Vec<Rec>), // answers fixed records after reading everything
    Early(Vec<Rec>), // answers fixed records before reading anything
    NoRead(Vec<Rec>), // answers fixed records and exits without reading
    Head,         // answers the first record it is given, and leaves the rest
    Script(&'static str, Vec<Rec>), // "printf 'N'" stands for printing the N-th record (from 0)
    Save(Vec<Rec>), // keeps what it was given in a file, then answers fixed records
    Upper,        // 61 -> 41 in every record
    Widen,        // every array becomes "array ff"
    Shrink,       // every array loses its contents
}

impl Cmd {
    pub fn text(&self) -> String {
        let q = |r: &[Rec]| String::from_utf8(recs_text(r, true)).unwrap().replace('\n', "\\n");
        match self {
            Cmd::Id => "cat".into(),
            Cmd::Sponge => "x=\"$(cat)\"; test -z \"$x\" || printf '%s\\n' \"$x\"".into(),
            Cmd::DropAll => "cat > /dev/null".into(),
            Cmd::Const(r) => format!("cat > /dev/null; printf '{}'", q(r)),
            Cmd::Save(r) => format!("cat > @DIR@/out/seen; printf '{}'", q(r)),
            Cmd::Early(r) => format!("printf '{}'; cat > /dev/null", q(r)),
            Cmd::NoRead(r) => format!("exec < /dev/null; printf '{}'", q(r)),
            Cmd::Head => "head -n 1".into(),
            Cmd::Script(t, r) => r.iter().enumerate().fold(t.to_string(), |t, (i, r)| t.replace(&format!("printf '{i}'"), &format!("printf '{}'", q(std::slice::from_ref(r))))),
            Cmd::Upper => "sed -e 's/ 61/ 41/g'".into(),
            Cmd::Widen => "awk '{ split($0, a, \" [|] \"); sub(/ *$/, \"\", a[2]); printf \"%s | %s ff\\n\", a[1], a[2] }'".into(),
            Cmd::Shrink => "awk '{ printf \"%s %s\\n\", $1, $2 }'".into(),
        }
    }
    pub fn apply(&self, segs: &[(usize, usize)], s: &[u8]) -> Vec<Rec> {
        let m = |f: &dyn Fn(&[u8]) -> Vec<u8>| segs.iter().map(|x| rec(x.0 as u64, (x.1 - x.0) as u64, &f(&s[x.0..x.1]))).collect();
        match self {
            Cmd::Id | Cmd::Sponge => m(&|x| x.to_vec()),
            Cmd::DropAll => Vec::new(),
            Cmd::Head => m(&|x| x.to_vec()).into_iter().take(1).collect(),
            Cmd::Const(r) | Cmd::Save(r) | Cmd::Early(r) | Cmd::NoRead(r) | Cmd::Script(_, r) => r.clone(),
            Cmd::Upper => m(&|x| x.iter().map(|c| if *c == 0x61 { 0x41 } else { *c }).collect()),
            Cmd::Widen => m(&|x| x.iter().copied().chain([0xff]).collect()),
            Cmd::Shrink => m(&|_| Vec::new()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub infmt: Option<&'static str>,
    pub outfmt: Option<&'static str>,
    pub filler: Option<u8>,
    pub join: Join,
    pub inplace: bool,
    pub cut: Option<Vec<Rg>>,
    pub pad: Option<(usize, usize)>,
    pub patch: Option<(Vec<Rec>, bool)>,
    pub text: Option<Vec<u8>>, // what the file of --patch or --guide says, letter by letter
    pub slicer: Slicer,
    pub regex: Option<String>,
    pub invert: Option<Vec<Rg>>,
    pub extend: Option<Vec<Rg>>,
    pub merge: Option<usize>,
    pub lines: Option<Vec<Rg>>,
    pub out: Out,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            infmt: None,
            outfmt: None,
            filler: None,
            join: Join::Default,
            inplace: false,
            cut: None,
            pad: None,
            patch: None,
            text: None,
            slicer: Slicer::Default,
            regex: None,
            invert: None,
            extend: None,
            merge: None,
            lines: None,
            out: Out::Default,
        }
    }
}

pub fn hexes(v: &[u8]) -> String {
    v.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

impl Cfg {
    /// command-line arguments and the files they refer to ("@DIR@" stands for the scratch directory)
    pub fn args(&self) -> (Vec<String>, Vec<(String, Vec<u8>)>) {
        let mut a = Vec::new();
        let mut files = Vec::new();
        let mut p = |k: &str, v: String| a.push(format!("--{k}={v}"));
        if let Some(x) = self.infmt {
            p("in-format", x.into());
        }
        if let Some(x) = self.outfmt {
            p("out-format", x.into());
        }
        if let Some(x) = self.filler {
            p("filler", x.to_string());
        }
        match self.join {
            Join::Default => {}
            Join::Cat(n) => p("cat", n.to_string()),
            Join::Zip(n) => p("zip", n.to_string()),
        }
        if let Some(x) = &self.cut {
            p("cut", rgs_text(x));
        }
        if let Some(x) = &self.pad {
            p("pad", format!("{},{}", x.0, x.1));
        }
        if let Some((r, nl)) = &self.patch {
            files.push(("patch".to_string(), self.text.clone().unwrap_or_else(|| recs_text(r, *nl))));
            p("patch", "@DIR@/patch".into());
        }
        match &self.slicer {
            Slicer::Default => {}
            Slicer::Width(n, None) => p("width", n.to_string()),
            Slicer::Width(n, Some(r)) => p("width", format!("{n},{}", r.text())),
            Slicer::Find(b) => p("find", hexes(b)),
            Slicer::Walk(e) => p("walk", e.iter().map(|x| x.text.clone()).collect::<Vec<_>>().join(",")),
            Slicer::Slice(r) => p("slice", rgs_text(r)),
            Slicer::Guide(r) => {
                files.push(("guide".to_string(), self.text.clone().unwrap_or_else(|| recs_text(r, true))));
                p("guide", "@DIR@/guide".into());
            }
        }
        if let Some(x) = &self.regex {
            p("regex", x.clone());
        }
        if let Some(x) = &self.invert {
            p("invert", rgs_text(x));
        }
        if let Some(x) = &self.extend {
            p("extend", rgs_text(x));
        }
        if let Some(x) = &self.merge {
            p("merge", x.to_string());
        }
        if let Some(x) = &self.lines {
            p("lines", rgs_text(x));
        }
        match &self.out {
            Out::Default => {}
            Out::Dash => p("output", "-".into()),
            Out::Template(t) => p("output", format!("@DIR@/out/{}", t.text)),
            Out::PatchBack(c) => p("patch-back", c.text()),
        }
        if self.inplace {
            a.push("--inplace".into());
        }
        (a, files)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    Out(Vec<u8>, Vec<(String, Vec<u8>)>), // stream, and the files written by --output
    Reject,                               // must be refused (nonzero exit), never silently accepted
    Any,                                  // not specified; only termination is required
}

fn round_up(v: &mut Vec<u8>, n: usize, filler: u8) {
    while v.len() % n != 0 {
        v.push(filler);
    }
}

/// apply records to a stream; None if they are not sorted or overlap
pub fn apply_patch(src: &[u8], recs: &[Rec]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let mut pos = 0usize; // position on the source
    let len = src.len();
    let mut prev_end = 0u64;
    for r in recs {
        if r.off < prev_end {
            return None;
        }
        prev_end = r.off + r.span;
        if r.off as usize > len {
            continue; // there's no such place in the stream; callers treat this case as unspecified
        }
        out.extend_from_slice(&src[pos.min(len)..r.off as usize]);
        out.extend_from_slice(r.body.as_deref().unwrap_or(&[]));
        pos = (r.off + r.span).min(len as u64) as usize;
    }
    out.extend_from_slice(&src[pos..]);
    Some(out)
}

pub fn sorted_disjoint(recs: &[Rec]) -> bool {
    recs.windows(2).all(|w| w[0].off + w[0].span <= w[1].off)
}

/// the stream described by hexdump records (-F x)
pub fn from_records(recs: &[Rec], filler: u8) -> Option<Vec<u8>> {
    if !sorted_disjoint(recs) {
        return None;
    }
    let len = recs.last().map_or(0, |r| r.off + r.span);
    apply_patch(&vec![filler; len as usize], recs)
}

pub fn stage1(cfg: &Cfg, inputs: &[Input]) -> Result<Vec<u8>, Expect> {
    let filler = cfg.filler.unwrap_or(0);
    let mut parts = Vec::new();
    for i in inputs {
        parts.push(match (i, cfg.infmt.unwrap_or("b")) {
            (Input::Text(_, true), _) => return Err(Expect::Any),
            (Input::Text(_, false), _) => return Err(Expect::Reject),
            (Input::Raw(v), "b") => v.clone(),
            (Input::Recs(r, nl), "b") => recs_text(r, *nl),
            (Input::Recs(r, _), "x") => from_records(r, filler).ok_or(Expect::Reject)?,
            (Input::Recs(r, _), "nnx") => r.iter().flat_map(|x| x.body.clone().unwrap_or_default()).collect(),
            _ => return Err(Expect::Any),
        });
    }
    Ok(match cfg.join {
        Join::Default => parts.concat(),
        Join::Cat(n) => {
            parts.iter_mut().for_each(|x| round_up(x, n, filler));
            parts.concat()
        }
        Join::Zip(n) => {
            parts.iter_mut().for_each(|x| round_up(x, n, filler));
            let words = parts.iter().map(|x| x.len() / n).min().unwrap_or(0);
            (0..words).flat_map(|w| parts.iter().flat_map(move |x| x[w * n..w * n + n].to_vec()).collect::<Vec<_>>()).collect()
        }
    })
}

fn clip(r: (i64, i64), len: usize) -> (usize, usize) {
    (r.0.clamp(0, len as i64) as usize, r.1.clamp(0, len as i64) as usize)
}

/// members of the union of ranges over [0, len)
pub fn union(rs: &[Rg], len: usize) -> Vec<bool> {
    let mut m = vec![false; len];
    for r in rs {
        let (s, e) = clip(r.map(0, len as i64), len);
        if s < e {
            m[s..e].iter_mut().for_each(|x| *x = true);
        }
    }
    m
}

pub fn stage2(cfg: &Cfg, s: Vec<u8>) -> Result<Vec<u8>, Expect> {
    let filler = cfg.filler.unwrap_or(0);
    let s = match &cfg.cut {
        Some(c) => s.iter().zip(union(c, s.len())).filter(|x| x.1).map(|x| *x.0).collect(),
        None => s,
    };
    let s = match cfg.pad {
        Some((h, t)) => [vec![filler; h], s, vec![filler; t]].concat(),
        None => s,
    };
    match &cfg.patch {
        Some((r, _)) => {
            if r.iter().any(|x| x.off > s.len() as u64) {
                // records out of the stream are not specified, but must not turn others into garbage
                if !sorted_disjoint(r) {
                    return Err(Expect::Any);
                }
            }
            apply_patch(&s, r).ok_or(Expect::Reject)
        }
        None => Ok(s),
    }
}

pub fn get_elem(s: &[u8], base: usize, kind: char, idx: usize) -> i64 {
    let n = match kind {
        'b' => 1,
        'h' => 2,
        'i' => 4,
        _ => 8,
    };
    let p = base + idx * n;
    if p + n > s.len() {
        return 0;
    }
    let mut b = [0u8; 8];
    b[..n].copy_from_slice(&s[p..p + n]);
    let v = i64::from_le_bytes(b);
    let sh = 64 - 8 * n;
    (v << sh) >> sh
}

pub type Segs = Vec<(usize, usize)>;

/// slices; Err(true): aborted (walk), after having produced the slices given
pub fn stage3(cfg: &Cfg, s: &[u8]) -> Result<Segs, Segs> {
    let len = s.len();
    let keep = |r: (i64, i64)| {
        let (a, b) = clip(r, len);
        if a < b {
            Some((a, b))
        } else {
            None
        }
    };
    Ok(match &cfg.slicer {
        Slicer::Default => stage3(&Cfg { slicer: Slicer::Width(16, None), ..Cfg::default() }, s)?,
        Slicer::Width(n, r) => {
            let r = r.unwrap_or(Rg((S, 0), (E, 0)));
            (0..(len + n - 1) / n).filter_map(|k| keep(r.map((k * n) as i64, (k * n + n) as i64))).collect()
        }
        Slicer::Find(p) => {
            let mut v = Vec::new();
            let mut i = 0;
            while !p.is_empty() && i + p.len() <= len {
                if s[i..i + p.len()] == p[..] {
                    v.push((i, i + p.len()));
                    i += p.len();
                } else {
                    i += 1;
                }
            }
            v
        }
        Slicer::Walk(exprs) => {
            let mut v = Vec::new();
            let mut pos = 0usize;
            while pos < len {
                let spans: Vec<i64> = exprs.iter().map(|e| (e.f)(&|k, i| get_elem(s, pos, k, i))).collect();
                if spans.iter().any(|x| *x <= 0) {
                    return Err(v);
                }
                for x in spans {
                    let e = (pos as u64).saturating_add(x as u64).min(len as u64) as usize;
                    if pos < e {
                        v.push((pos, e));
                    }
                    pos = e;
                }
            }
            v
        }
        Slicer::Slice(rs) => {
            let mut v: Segs = rs.iter().filter_map(|r| keep(r.map(0, len as i64))).collect();
            v.sort();
            v.dedup();
            v
        }
        // empty records are slices as well, as long as they are in the stream
        Slicer::Guide(rs) => rs.iter().filter(|r| r.off < len as u64).map(|r| (r.off as usize, ((r.off + r.span) as usize).min(len))).collect(),
    })
}

pub fn sorted(mut v: Segs) -> Segs {
    v.sort();
    v
}

pub fn stage4(cfg: &Cfg, s: &[u8], v: Segs) -> Segs {
    let len = s.len();
    let keep = |r: (i64, i64)| {
        let (a, b) = clip(r, len);
        if a < b {
            Some((a, b))
        } else {
            None
        }
    };
    let mut v = v;
    if let Some(p) = &cfg.regex {
        v = sorted(super::regex_find(p, s, &v));
    }
    if let Some(rs) = &cfg.invert {
        let mut cov = vec![false; len];
        for x in &v {
            cov[x.0..x.1].iter_mut().for_each(|c| *c = true);
        }
        let mut gaps = Vec::new();
        let mut i = 0;
        while i < len {
            if cov[i] {
                i += 1;
                continue;
            }
            let b = i;
            while i < len && !cov[i] {
                i += 1;
            }
            gaps.push((b, i));
        }
        v = sorted(gaps.iter().flat_map(|g| rs.iter().filter_map(|r| keep(r.map(g.0 as i64, g.1 as i64))).collect::<Vec<_>>()).collect());
    }
    if let Some(rs) = &cfg.extend {
        v = sorted(v.iter().flat_map(|g| rs.iter().filter_map(|r| keep(r.map(g.0 as i64, g.1 as i64))).collect::<Vec<_>>()).collect());
    }
    if let Some(n) = cfg.merge {
        v = sorted(v);
        let mut out: Segs = Vec::new();
        for x in v {
            match out.last_mut() {
                Some(acc) if acc.1 as u128 + n as u128 >= x.0 as u128 => acc.1 = acc.1.max(x.1),
                _ => out.push(x),
            }
        }
        v = out;
    }
    if let Some(rs) = &cfg.lines {
        v = sorted(v);
        let m = union(rs, v.len());
        v = v.into_iter().zip(m).filter(|x| x.1).map(|x| x.0).collect();
    }
    sorted(v)
}

pub fn cols(cfg: &Cfg, fmt: Option<&str>) -> usize {
    match (&cfg.slicer, fmt) {
        (_, Some(_)) => 16, // an explicit format signature carries its own number of columns
        (Slicer::Default, _) => 16,
        (Slicer::Width(n, r), _) => {
            let (s, e) = r.unwrap_or(Rg((S, 0), (E, 0))).map(0, *n as i64);
            (e - s) as usize
        }
        _ => 0,
    }
}

pub fn dump(fmt: &str, cols: usize, segs: &[(usize, usize)], s: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for &(b, e) in segs {
        let x = &s[b..e];
        if fmt == "b" {
            out.extend_from_slice(x);
            continue;
        }
        let w = cols.max(x.len());
        let head = if fmt == "d" { format!("{} {} | ", b, x.len()) } else { format!("{:012x} {} | ", b, hexlen(x.len())) };
        out.extend_from_slice(head.as_bytes());
        for i in 0..w {
            match x.get(i) {
                Some(c) => {
                    out.push(b"0123456789abcdef"[(*c >> 4) as usize]);
                    out.push(b"0123456789abcdef"[(*c & 15) as usize]);
                    out.push(b' ');
                }
                None => out.extend_from_slice(b"   "),
            }
        }
        out.extend_from_slice(b"| ");
        out.extend((0..w).map(|i| x.get(i).map_or(b' ', |c| printable(*c))));
        out.push(b'\n');
    }
    out
}

fn hexlen(n: usize) -> String {
    // at least four digits, always an even number of them
    let s = format!("{n:04x}");
    if s.len() % 2 == 1 {
        format!("0{s}")
    } else {
        s
    }
}

pub fn spec(cfg: &Cfg, inputs: &[Input]) -> Expect {
    match spec_impl(cfg, inputs) {
        Ok(x) => x,
        Err(x) => x,
    }
}

fn spec_impl(cfg: &Cfg, inputs: &[Input]) -> Result<Expect, Expect> {
    if let Slicer::Width(n, Some(r)) = &cfg.slicer {
        let (s, e) = r.map(0, *n as i64);
        if s >= e {
            return Err(Expect::Reject); // the expression makes every slice empty
        }
    }
    let s = stage1(cfg, inputs)?;
    let s = stage2(cfg, s)?;
    let v = match stage3(cfg, &s) {
        Ok(v) => v,
        // an aborting walk is an error, but whether --lines gets that far is not specified
        Err(_) => return Err(if cfg.lines.is_some() { Expect::Any } else { Expect::Reject }),
    };
    if let Slicer::Guide(r) = &cfg.slicer {
        if r.windows(2).any(|w| w[0].off > w[1].off) {
            // "the records must be sorted by their offsets"; ones out of the stream may not be looked at
            return Err(if r.iter().all(|x| x.off < s.len() as u64) { Expect::Reject } else { Expect::Any });
        }
    }
    let v = stage4(cfg, &s, v);
    let default_fmt = if cfg.inplace && matches!(cfg.out, Out::Default | Out::Dash) { "b" } else { "x" };
    let fmt = cfg.outfmt.unwrap_or(default_fmt);
    let c = cols(cfg, cfg.outfmt);
    Ok(match &cfg.out {
        Out::Default | Out::Dash => Expect::Out(dump(fmt, c, &v, &s), Vec::new()),
        Out::Template(t) => {
            let mut out = Vec::new();
            let mut files: Vec<(String, Vec<u8>)> = Vec::new();
            for (i, x) in v.iter().enumerate() {
                let name = (t.f)(x.0 as i64, i as i64);
                let d = dump(fmt, c, &[*x], &s);
                if name == "-" || name.is_empty() {
                    out.extend_from_slice(&d);
                } else if let Some(f) = files.iter_mut().find(|f| f.0 == name) {
                    f.1.extend_from_slice(&d);
                } else {
                    files.push((name, d));
                }
            }
            files.sort();
            Expect::Out(out, files)
        }
        Out::PatchBack(cmd) => {
            let recs = cmd.apply(&v, &s);
            if recs.iter().any(|x| x.off > s.len() as u64) {
                return Err(Expect::Any);
            }
            let files = match cmd {
                Cmd::Save(_) => vec![("seen".to_string(), dump(cfg.outfmt.unwrap_or("x"), c, &v, &s))],
                _ => Vec::new(),
            };
            Expect::Out(apply_patch(&s, &recs).ok_or(Expect::Reject)?, files)
        }
    })
}
