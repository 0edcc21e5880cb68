// The text form of records, letter by letter: which texts are accepted, as what, and which are refused.

use super::cases::*;
use super::explore::*;
use super::spec::*;

#[derive(Clone, Debug)]
pub enum Line {
    Rec(Rec),
    Refuse,
    Undef,
}

fn hex1(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|x| x as u8)
}

/// one line, without its newline
///
///   record: number ' ' number [ " | " array [ '|' anything ] ]
///   number: one to 15 hexadecimal digits
///   array:  columns of two digits and a space; the last one may lack the space; blanks may follow the last one
pub fn read_line(l: &[u8]) -> Line {
    let mut i = 0;
    let mut head = [0u64; 2];
    let mut undef = false;
    for k in 0..2 {
        let from = i;
        while i < l.len() && hex1(l[i]).is_some() {
            head[k] = (head[k] << 4) | hex1(l[i]).unwrap() as u64;
            i += 1;
        }
        if i - from > 15 {
            return if l[i..].first().map_or(true, |c| b" \n".contains(c)) { Line::Undef } else { Line::Refuse };
        }
        undef |= i == from; // a number is missing
        if k == 0 {
            if l.get(i) != Some(&b' ') {
                return Line::Refuse;
            }
            i += 1;
        }
    }
    let done = |body: Option<Vec<u8>>| if undef { Line::Undef } else { Line::Rec(Rec { off: head[0], span: head[1], body, mosaic: 0, pad: 0, style: 0 }) };
    if i == l.len() {
        return done(None);
    }
    if l.get(i..i + 3) != Some(b" | ") {
        return Line::Refuse;
    }
    let rest = &l[i + 3..];
    let array = &rest[..rest.iter().position(|c| *c == b'|').unwrap_or(rest.len())];
    let mut body = Vec::new();
    for (k, c) in array.chunks(3).enumerate() {
        if c.iter().all(|x| *x == b' ') {
            // the end of the array. what comes after blank columns has no documented meaning
            if array[3 * k..].iter().any(|x| *x != b' ') {
                return Line::Undef;
            }
            break;
        }
        match (hex1(c[0]), c.get(1).and_then(|x| hex1(*x)), c.get(2)) {
            (Some(h), Some(l), None | Some(b' ')) => body.push(h << 4 | l),
            _ => return Line::Refuse,
        }
    }
    done(Some(body))
}

/// all lines of a text. Err(true): must be refused, Err(false): unspecified
pub fn read_text(t: &[u8]) -> Result<Vec<Rec>, bool> {
    let mut v = Vec::new();
    let t = t.strip_suffix(b"\n").unwrap_or_else(|| t);
    if t.is_empty() {
        return Ok(v);
    }
    let mut undef = false;
    for l in t.split(|c| *c == b'\n') {
        match read_line(l) {
            Line::Rec(r) => v.push(r),
            // nothing gets past a refused line, whatever precedes it
            Line::Refuse => return Err(true),
            Line::Undef => undef = true,
        }
    }
    if undef {
        return Err(false);
    }
    Ok(v)
}

struct G<'a, 'b> {
    x: &'a mut X<'b>,
    refused: u64,
    frags: Vec<Frag>,
    sites: &'static [u8],
}

impl G<'_, '_> {
    /// reads the text at each of the places where nd reads records
    fn text(&mut self, t: &[u8]) {
        if t == b"\n" {
            return; // a file of a single empty line
        }
        let r = read_text(t);
        for site in self.sites {
            if !self.x.mine() {
                continue;
            }
            let recs = r.clone().unwrap_or_default();
            let mut cfg = Cfg::default();
            let input = match site {
                b'n' | b'x' => {
                    cfg.infmt = Some(if *site == b'n' { "nnx" } else { "x" });
                    cfg.outfmt = Some("b");
                    Input::Recs(recs.clone(), true)
                }
                b'p' => {
                    cfg.patch = Some((recs.clone(), true));
                    cfg.text = Some(t.to_vec());
                    cfg.outfmt = Some("b");
                    Input::Raw(pos(5))
                }
                _ => {
                    cfg.slicer = Slicer::Guide(recs.clone());
                    cfg.text = Some(t.to_vec());
                    Input::Raw(pos(5))
                }
            };
            if matches!(site, b'n' | b'x') && recs.iter().any(|r| r.off + r.span > 1 << 20) {
                continue;
            }
            let expect = match &r {
                Ok(_) => spec(&cfg, &[input.clone()]),
                // records behind the end of the stream may not be looked at
                Err(true) if matches!(site, b'n' | b'x') => Expect::Reject,
                Err(true) if t.iter().filter(|c| **c == b'\n').count() == t.ends_with(b"\n") as usize => Expect::Reject,
                Err(_) => Expect::Any,
            };
            self.refused += (expect == Expect::Reject) as u64;
            let input = if matches!(site, b'n' | b'x') { Input::Raw(t.to_vec()) } else { input };
            let frags: Vec<_> = self.frags.iter().map(|f| vec![f.clone()]).collect();
            self.x.run_group(&cfg, &[input], &frags, &expect);
        }
    }
}

pub fn grammar(x: &mut X) {
    if x.big {
        return;
    }
    let thorough = x.thorough;
    let (h, l) = if thorough { (7, 7) } else { (6, 6) };
    x.bound(&format!("every text of up to {h} letters over {{1 a G space | newline :}} as the whole input"));
    let mut g = G { x, refused: 0, frags: vec![full()], sites: b"n" };
    for w in words(b"1aG |\n:", h) {
        g.text(&w);
    }
    g.x.bound(&format!("every text \"2 1 | \" + up to {l} letters over {{4 e z space | newline :}}, read in one and in 1-byte reads"));
    g.frags = vec![full(), fr(&[], 1)];
    for w in words(b"4ez |\n:", l) {
        g.text(&[b"2 1 | ", &w[..]].concat());
    }
    g.x.bound("every text of up to 4 letters over {1 a G space | newline :}, and \"2 1 | \" + up to 4 letters over {4 e z space | newline :}, as -F x input, patch and guide");
    g.frags = vec![full()];
    g.sites = b"xpg";
    for w in words(b"1aG |\n:", 4) {
        g.text(&w);
    }
    for w in words(b"4ez |\n:", 4) {
        g.text(&[b"2 1 | ", &w[..]].concat());
    }
    g.x.bound("every text \"1 \" + up to 5 letters over {1 g space | newline} + \" 4e 4f\"");
    for w in words(b"1g |\n", 5) {
        g.text(&[b"1 ", &w[..], b" 4e 4f"].concat());
    }

    g.x.bound("valid records with 1..=19, 31..=33, 47..=50, 63..=66, 79..=81, 127..=130, 191..=194 columns, with and without a mosaic: one letter replaced by each of 24, one letter left out, one letter inserted, at every position, read in one and in 97-byte reads");
    g.sites = b"n";
    let letters = *b"0fFgG |\n:;/@`.,-+_\t\r\0\x7f\x80\xff";
    for n in (1..=19usize).chain(31..=33).chain(47..=50).chain(63..=66).chain(79..=81).chain(127..=130).chain(191..=194) {
        if n > 70 && !thorough && n % 4 > 1 {
            continue;
        }
        for mosaic in [0, 1] {
            for nl in [true, false] {
                let mut r = rec(1, n as u64, &(0..n).map(|i| (i * 37 + 11) as u8).collect::<Vec<_>>());
                r.mosaic = mosaic;
                r.style = 1;
                let mut t = r.text().into_bytes();
                if nl {
                    t.extend_from_slice(b"\n4 0 | 5a\n");
                }
                g.frags = if nl { vec![full()] } else { vec![full(), fr(&[], 97)] };
                for at in 0..t.len() {
                    let c = t[at];
                    for (k, w) in letters.iter().enumerate() {
                        if (n > 33 && at % 3 != 2 && k > 11) || (n > 70 && !thorough && k > 8) {
                            continue; // digits are looked at one by one
                        }
                        t[at] = *w;
                        g.text(&t);
                    }
                    t[at] = c;
                    if n <= 66 || thorough {
                        t.remove(at);
                        g.text(&t);
                        for w in [b' ', b'0', b'|'] {
                            t.insert(at, w);
                            g.text(&t);
                            t.remove(at);
                        }
                        t.insert(at, c);
                    }
                }
            }
        }
    }
    g.x.bound("every byte value at every position of the numbers and of the columns 0, 1, 15, 16, 17, 31, 32, 47, 48, 63, 64, 65");
    g.frags = vec![full()];
    let r = Rec { off: 0x10, span: 0x2a, body: Some(pos(66)), mosaic: 0, pad: 0, style: 1 };
    let mut t = r.text().into_bytes();
    let head = 8;
    let ats: Vec<usize> = (0..head).chain([0, 1, 15, 16, 17, 31, 32, 47, 48, 63, 64, 65].iter().flat_map(|k| (0..3).map(move |i| head + 3 * k + i))).collect();
    for at in ats {
        if at >= t.len() {
            continue;
        }
        let c = t[at];
        for w in 0..=255u8 {
            t[at] = w;
            g.text(&t);
        }
        t[at] = c;
    }
    g.x.bound("every spelling of the offset and the length: 1..=18 digits, zeros ahead, digits at every place, the longest ones; both cases of every digit");
    g.sites = b"nxpg";
    for n in 1..=18usize {
        for k in 0..n {
            for d in *b"17fF" {
                let mut w = vec![b'0'; n];
                w[k] = d;
                if k + 5 < n {
                    continue; // far away
                }
                let s = String::from_utf8(w).unwrap();
                g.text(format!("{s} 0 | 41\n").as_bytes());
                g.text(format!("0 {s} | 41\n").as_bytes());
                g.text(format!("{s} {s}").as_bytes());
            }
        }
    }
    g.sites = b"pg";
    for n in 5..=15usize {
        for k in 0..n {
            let mut w = vec![b'0'; n];
            w[k] = b'1';
            let s = String::from_utf8(w).unwrap();
            g.text(format!("0 {s} | 41\n").as_bytes());
            g.text(format!("3 {s}").as_bytes());
        }
    }
    for d in *b"0123456789abcdefABCDEF" {
        for e in *b"0123456789abcdefABCDEF" {
            let (d, e) = (d as char, e as char);
            g.sites = b"nx";
            g.text(format!("0 1 | {d}{e}").as_bytes());
            g.text(format!("{d} {e}").as_bytes());
            g.text(format!("{d}{e} 1 | 41\n").as_bytes());
            g.sites = b"pg";
            g.text(format!("0 {d}{e} | 41\n").as_bytes());
            g.text(format!("{d} {e} | 42\n").as_bytes());
        }
    }
    let refused = g.refused;
    if refused == 0 {
        panic!("nothing had to be refused");
    }
}
