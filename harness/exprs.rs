// Expressions, numbers, templates and option values: enumerated as token sequences, with an evaluator of our own
// (recursive descent over the documented grammar; the program's is a shift-reduce one with a canonicaliser).

use super::cases::*;
use super::explore::*;
use super::spec::*;

// ---------------------------------------------------------------- oracle

#[derive(Clone, Debug)]
enum Ast {
    Num(i64),
    Var(usize),
    Un(char, Box<Ast>),
    Bin(&'static str, Box<Ast>, Box<Ast>),
}

/// loosest first; '@' (power) sits between the comparisons and the shifts
const LEVELS: [&[&str]; 8] = [&["|"], &["^"], &["&"], &["<", "<=", ">", ">="], &["@"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];

struct P<'a> {
    t: &'a [&'a str],
    i: usize,
    vars: &'a [&'a str],
}

impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }

    fn level(&mut self, l: usize) -> Option<Ast> {
        if l == LEVELS.len() {
            return self.unary();
        }
        let mut a = self.level(l + 1)?;
        loop {
            let Some(op) = LEVELS[l].iter().find(|x| **x == self.peek()) else { return Some(a) };
            self.i += 1;
            // '@' associates to the right, the others to the left
            let b = self.level(if *op == "@" { l } else { l + 1 })?;
            a = Ast::Bin(op, Box::new(a), Box::new(b));
        }
    }

    fn unary(&mut self) -> Option<Ast> {
        if let c @ ("+" | "-" | "!" | "~") = self.peek() {
            self.i += 1;
            let mut a = self.unary()?;
            // a sign binds looser than '@': -12@2 is -(12@2)
            if self.peek() == "@" {
                self.i += 1;
                let b = self.level(4)?;
                a = Ast::Bin("@", Box::new(a), Box::new(b));
            }
            return Some(Ast::Un(c.chars().next().unwrap(), Box::new(a)));
        }
        let t = self.peek();
        self.i += 1;
        if t == "(" {
            let a = self.level(0)?;
            if self.peek() != ")" {
                return None;
            }
            self.i += 1;
            return Some(a);
        }
        if let Some(v) = self.vars.iter().position(|x| *x == t) {
            return Some(Ast::Var(v));
        }
        t.parse::<i64>().ok().filter(|_| t.as_bytes()[0].is_ascii_digit()).map(Ast::Num)
    }
}

/// None: not an expression
fn parse(tokens: &[&str], vars: &[&str]) -> Option<Ast> {
    let mut p = P { t: tokens, i: 0, vars };
    let a = p.level(0)?;
    (p.i == tokens.len()).then_some(a)
}

/// None: overflows, divides by zero or the like
fn eval(a: &Ast, v: &[i64]) -> Option<i64> {
    let shift = |x: i64, y: i64| -> Option<i64> {
        if !(-62..=62).contains(&y) {
            return None;
        }
        if y < 0 {
            return Some(x >> -y);
        }
        let r = (x as i128) << y;
        i64::try_from(r).ok()
    };
    match a {
        Ast::Num(x) => Some(*x),
        Ast::Var(i) => Some(v[*i]),
        Ast::Un(c, x) => {
            let x = eval(x, v)?;
            match c {
                '+' => Some(x),
                '-' => x.checked_neg(),
                _ => Some(!x),
            }
        }
        Ast::Bin(op, x, y) => {
            let (x, y) = (eval(x, v)?, eval(y, v)?);
            // the comparisons go through a difference
            let cmp = |f: bool| y.checked_sub(x).and(x.checked_sub(y)).filter(|d| *d > i64::MIN + 2).map(|_| f as i64);
            match *op {
                "+" => x.checked_add(y),
                "-" => x.checked_sub(y),
                "*" => x.checked_mul(y),
                "/" => x.checked_div(y),
                "%" => x.checked_rem(y),
                "<<" => shift(x, y),
                ">>" => shift(x, -y),
                "@" if y < 0 => Some(0),
                "@" => (y <= 64).then(|| x.checked_pow(y as u32)).flatten(),
                "<" => cmp(x < y),
                "<=" => cmp(x <= y),
                ">" => cmp(x > y),
                ">=" => cmp(x >= y),
                "&" => Some(x & y),
                "^" => Some(x ^ y),
                _ => Some(x | y),
            }
        }
    }
}

// ---------------------------------------------------------------- evaluation through a template

const LEN: usize = 7;
const POINTS: [[i64; 2]; 3] = [[0, 0], [3, 1], [6, 2]]; // (n, l) of the slices of --width 3 on 7 bytes

struct Batch<'a, 'b> {
    x: &'a mut X<'b>,
    fields: Vec<(String, [String; 3])>,
    len: usize,
}

fn tail(s: &str) -> String {
    s.chars().take(300).collect()
}

impl Batch<'_, '_> {
    /// a field "{text}" that must be rendered as the given strings at the three points
    fn add(&mut self, text: String, want: [String; 3]) {
        let l = want.iter().map(|x| x.len()).max().unwrap() + 1;
        if self.fields.len() == 12 || self.len + l > 240 {
            self.flush();
        }
        self.len += l;
        self.fields.push((text, want));
    }

    fn add_ast(&mut self, text: &str, a: &Ast) -> bool {
        let mut v: [String; 3] = Default::default();
        for (i, p) in POINTS.iter().enumerate() {
            match eval(a, p) {
                Some(x) => v[i] = x.to_string(),
                None => return false,
            }
        }
        self.add(format!("{{({text})}}"), v);
        true
    }

    fn flush(&mut self) {
        let f = std::mem::take(&mut self.fields);
        self.len = 0;
        if f.is_empty() || !self.x.mine() {
            return;
        }
        let (dir, data) = (self.x.dir.clone(), pos(LEN));
        let text = f.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("_");
        let args = vec!["--width=3".to_string(), "--out-format=b".to_string(), format!("--output={dir}/out/{text}")];
        let mut want: Vec<(String, Vec<u8>)> = Vec::new();
        for (i, s) in data.chunks(3).enumerate() {
            let name = f.iter().map(|x| x.1[i].as_str()).collect::<Vec<_>>().join("_");
            match want.iter_mut().find(|x| x.0 == name) {
                Some(w) => w.1.extend(s),
                None => want.push((name, s.to_vec())),
            }
        }
        want.sort();
        let inputs = [data];
        self.x.assert_case(&|| format!("--width 3 --out-format b --output {text:?} on {LEN} bytes"), &mut |e| {
            let case = Case { args: &args, inputs: &inputs, frags: vec![full()], consumer: &[], dir: &dir, stale: &[] };
            match e.run(&case) {
                Got::Out(o, files) if o.is_empty() && files == want => Ok(want.iter().fold(7, |h, x| fnv(h, x.0.as_bytes()))),
                Got::Out(_, files) => Err(format!("files {:?} instead of {:?}", files.iter().map(|x| &x.0).collect::<Vec<_>>(), want.iter().map(|x| &x.0).collect::<Vec<_>>())),
                other => Err(tail(&format!("{other:?}"))),
            }
        });
    }

    /// a field that must not be accepted
    fn reject(&mut self, text: &str) {
        let args = vec!["--width=3".to_string(), format!("--output={}/out/{{({text})}}", self.x.dir)];
        must_reject(self.x, &args, LEN);
    }
}

fn must_reject(x: &mut X, args: &[String], n: usize) {
    if !x.mine() {
        return;
    }
    let dir = x.dir.clone();
    let inputs = [pos(n)];
    x.assert_case(&|| format!("{args:?} must be refused"), &mut |e| {
        let case = Case { args, inputs: &inputs, frags: vec![full()], consumer: &[], dir: &dir, stale: &[] };
        match e.run(&case) {
            Got::Reject(_) => Ok(1),
            Got::Out(o, f) => Err(format!("accepted: {} bytes of output, files {:?}", o.len(), f.iter().map(|x| &x.0).collect::<Vec<_>>())),
            Got::Bad(s) => Err(s),
        }
    });
}

fn must_give(x: &mut X, args: &[String], inputs: &[Vec<u8>], want: &[u8]) {
    if !x.mine() {
        return;
    }
    let dir = x.dir.clone();
    x.assert_case(&|| format!("{args:?} on {:?} byte(s)", inputs.iter().map(|x| x.len()).collect::<Vec<_>>()), &mut |e| {
        let case = Case { args, inputs, frags: vec![full(); inputs.len()], consumer: &[], dir: &dir, stale: &[] };
        match e.run(&case) {
            Got::Out(o, _) if o == want => Ok(fnv(3, &o)),
            Got::Out(o, _) => Err(tail(&format!("gave {:02x?} instead of {:02x?}", &o[..o.len().min(64)], &want[..want.len().min(64)]))),
            other => Err(tail(&format!("{other:?}"))),
        }
    });
}

fn sequences<'a>(alphabet: &[&'a str], len: usize, f: &mut dyn FnMut(&[&'a str])) {
    fn go<'a>(alphabet: &[&'a str], left: usize, v: &mut Vec<&'a str>, f: &mut dyn FnMut(&[&'a str])) {
        if left == 0 {
            f(v);
            return;
        }
        for t in alphabet {
            v.push(t);
            go(alphabet, left - 1, v, f);
            v.pop();
        }
    }
    go(alphabet, len, &mut Vec::new(), f);
}

const OPS: [&str; 15] = ["|", "^", "&", "<", "<=", ">", ">=", "@", "<<", ">>", "+", "-", "*", "/", "%"];
const SIGNS: [&str; 3] = ["-", "!", "+"];

pub fn expr(x: &mut X) {
    if x.big {
        return;
    }
    let thorough = x.thorough;
    let vars = ["n", "l"];

    // 1. every sequence of tokens, well-formed or not
    let all = ["2", "3", "n", "l", "(", ")", "!", "~", "|", "^", "&", "<", "<=", ">", ">=", "@", "<<", ">>", "+", "-", "*", "/", "%"];
    x.bound("every sequence of up to 3 (thorough: 4) of the 23 tokens 2 3 n l ( ) ! ~ | ^ & < <= > >= @ << >> + - * / %, separated by blanks, and by nothing if well-formed; malformed ones must be refused");
    x.bound("every sequence of 4 and 5 (thorough: 6) of the 9 tokens 2 n ( ) ! - * < @");
    for (alphabet, lens) in [(&all[..], if thorough { 1..=4 } else { 1..=3 }), (&["2", "n", "(", ")", "!", "-", "*", "<", "@"][..], if thorough { 5..=6 } else { 4..=5 })] {
        for len in lens {
            sequences(alphabet, len, &mut |t| {
                let mut wrapped = vec!["("];
                wrapped.extend(t);
                wrapped.push(")");
                let mut b = Batch { x: &mut *x, fields: Vec::new(), len: 0 };
                match parse(&wrapped, &vars) {
                    Some(a) => {
                        b.add_ast(&t.join(" "), &a);
                        b.add_ast(&t.join(""), &a);
                    }
                    None => b.reject(&t.join(" ")),
                }
                b.flush();
            });
        }
    }

    // 2. precedence and associativity: chains of operators, with signs
    x.bound("every chain of 4 operands and 3 of the 15 operators, with 3 choices of operands (n, l and constants) and every single sign (- ! +) before any of the operands, at 3 values of (n, l)");
    let operands: [[&str; 4]; 3] = [["n", "3", "l", "2"], ["7", "l", "5", "n"], ["13", "2", "n", "3"]];
    {
        let mut b = Batch { x: &mut *x, fields: Vec::new(), len: 0 };
        sequences(&OPS, 3, &mut |o| {
            for (k, v) in operands.iter().enumerate() {
                for sign in 0..13 {
                    if sign > 0 && k > 0 && !thorough && (sign + k) % 4 != 0 {
                        continue; // signs with the second and third choice of operands: a quarter of the positions each
                    }
                    let mut t = Vec::new();
                    for i in 0..4 {
                        if sign > 0 && (sign - 1) / 3 == i {
                            t.push(SIGNS[(sign - 1) % 3]);
                        }
                        t.push(v[i]);
                        if i < 3 {
                            t.push(o[i]);
                        }
                    }
                    let a = parse(&t, &vars).unwrap();
                    b.add_ast(&t.join(if sign % 2 == 0 { "" } else { " " }), &a);
                }
            }
        });
        b.flush();
    }
    x.bound("every pair of operators with every placement of one pair of parentheses and of up to two signs");
    {
        let mut b = Batch { x: &mut *x, fields: Vec::new(), len: 0 };
        for o1 in OPS {
            for o2 in OPS {
                for v in &operands {
                    for (open, close) in [(0, 0), (0, 1), (1, 2), (0, 2), (1, 1), (2, 2)] {
                        for s in 0..64usize {
                            let signs = [s & 3, s >> 2 & 3, s >> 4 & 3];
                            if signs.iter().filter(|x| **x > 0).count() > 2 {
                                continue;
                            }
                            let mut t = Vec::new();
                            for i in 0..3 {
                                if i == open && signs[2] > 0 {
                                    t.push(SIGNS[signs[2] - 1]); // a sign before the parenthesis
                                }
                                if i == open {
                                    t.push("(");
                                }
                                if i < 2 && signs[i] > 0 {
                                    t.push(SIGNS[signs[i] - 1]);
                                }
                                t.push(v[i]);
                                if i == close {
                                    t.push(")");
                                }
                                if i < 2 {
                                    t.push([o1, o2][i]);
                                }
                            }
                            if let Some(a) = parse(&t, &vars) {
                                b.add_ast(&t.join(""), &a);
                            }
                        }
                    }
                }
            }
        }
        b.flush();
    }

    numbers(x);
    ranges(x);
}

// ---------------------------------------------------------------- numbers

enum Num {
    Val(i64),
    Bad,
    Undef,
}

/// the documented spelling of constants
fn number(s: &str) -> Num {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() || !c[0].is_ascii_digit() {
        return Num::Bad;
    }
    let (base, mut i) = match (c[0], c.get(1).map(|x| x.to_ascii_lowercase())) {
        ('0', Some('b')) => (2, 2),
        ('0', Some('o')) => (8, 2),
        ('0', Some('d')) => (10, 2),
        ('0', Some('x')) => (16, 2),
        ('0', _) => (8, 0),
        _ => (10, 0),
    };
    let mut v: i128 = 0;
    let (mut prev_is_digit, mut any) = (false, false);
    while i < c.len() {
        if c[i] == '_' {
            if !prev_is_digit {
                return Num::Bad;
            }
            prev_is_digit = false;
        } else if let Some(k) = c[i].to_digit(if base == 16 { 16 } else { 10 }) {
            if k >= base {
                return Num::Bad;
            }
            v = (v * base as i128 + k as i128).min(1 << 66);
            prev_is_digit = true;
            any = true;
        } else {
            break;
        }
        i += 1;
    }
    if !any || !prev_is_digit {
        return Num::Bad;
    }
    let rest: String = c[i..].iter().collect();
    let scale: i128 = match rest.to_ascii_lowercase().as_str() {
        "" => 1,
        _ => {
            let p = match rest.chars().next().unwrap().to_ascii_lowercase() {
                'k' => 1,
                'm' => 2,
                'g' => 3,
                't' => 4,
                'e' => 6,
                _ => return Num::Bad,
            };
            match &rest[1..] {
                "" => 1000i128.pow(p),
                "i" => 1024i128.pow(p),
                _ => return Num::Bad,
            }
        }
    };
    match i64::try_from(v * scale) {
        Ok(x) if v <= i64::MAX as i128 => Num::Val(x),
        _ => Num::Undef,
    }
}

fn numbers(x: &mut X) {
    x.bound("every spelling of constants: all words of up to 3 letters over 0 1 2 7 8 9 a b d e f o x k m g t i _ A B D E F O X K M G T I, all words of 4 and 5 (thorough: 6) over 0 1 9 a x b e k i _");
    let wide = ["0", "1", "2", "7", "8", "9", "a", "b", "d", "e", "f", "o", "x", "k", "m", "g", "t", "i", "_", "A", "B", "D", "E", "F", "O", "X", "K", "M", "G", "T", "I"];
    let narrow = ["0", "1", "9", "a", "x", "b", "e", "k", "i", "_"];
    let mut b = Batch { x: &mut *x, fields: Vec::new(), len: 0 };
    for (alphabet, lens) in [(&wide[..], 1..=3), (&narrow[..], if b.x.thorough { 4..=6 } else { 4..=5 })] {
        for len in lens {
            sequences(alphabet, len, &mut |t| {
                if !t[0].as_bytes()[0].is_ascii_digit() && len > 2 {
                    return; // a name: no such variable
                }
                let s = t.concat();
                match number(&s) {
                    Num::Val(v) => b.add(format!("{{({s})}}"), [v.to_string(), v.to_string(), v.to_string()]),
                    Num::Bad => b.reject(&s),
                    Num::Undef => {}
                }
            });
        }
    }
    b.flush();
    b.x.bound("long constants: every number of digits 1..=31 in every base with zeros ahead, with separators after every digit, up to the largest value");
    for (prefix, base) in [("0b", 2u32), ("0o", 8), ("0d", 10), ("0x", 16), ("", 10), ("0", 8)] {
        for digits in 1..=31usize {
            for (first, fill) in [('1', '0'), ('1', '1'), ('0', '1'), ('0', '7'), ('0', 'f'), ('0', 'F')] {
                if fill.to_digit(16).unwrap() >= base {
                    continue;
                }
                for sep in [false, true] {
                    let mut s = String::from(prefix);
                    for i in 0..digits {
                        if sep && i > 0 {
                            s.push('_');
                        }
                        s.push(if i == 0 { first } else { fill });
                    }
                    if sep && 2 * digits > 31 {
                        continue; // more than 31 characters: not specified
                    }
                    for suffix in ["", "k", "Mi", "E"] {
                        let t = format!("{s}{suffix}");
                        if let Num::Val(v) = number(&t) {
                            b.add(format!("{{({t})}}"), [v.to_string(), v.to_string(), v.to_string()]);
                        }
                    }
                }
            }
        }
    }
    b.flush();
}

// ---------------------------------------------------------------- S..E

/// (coefficient of s, coefficient of e, constant), None: not linear
fn linear(a: &Ast) -> Option<[i64; 3]> {
    match a {
        Ast::Num(x) => Some([0, 0, *x]),
        Ast::Var(0) => Some([1, 0, 0]),
        Ast::Var(_) => Some([0, 1, 0]),
        Ast::Un(c, x) => {
            let v = linear(x)?;
            match c {
                '+' => Some(v),
                '-' => Some(v.map(|k| -k)),
                _ if v[0] == 0 && v[1] == 0 => Some([0, 0, !v[2]]),
                _ => None,
            }
        }
        Ast::Bin(op, x, y) => {
            let (x, y) = (linear(x)?, linear(y)?);
            let (cx, cy) = (x[0] == 0 && x[1] == 0, y[0] == 0 && y[1] == 0);
            match *op {
                "+" => Some([x[0] + y[0], x[1] + y[1], x[2] + y[2]]),
                "-" => Some([x[0] - y[0], x[1] - y[1], x[2] - y[2]]),
                "*" if cx => Some(y.map(|k| k * x[2])),
                "*" if cy => Some(x.map(|k| k * y[2])),
                _ if cx && cy => eval(&Ast::Bin(op, Box::new(Ast::Num(x[2])), Box::new(Ast::Num(y[2]))), &[]).map(|v| [0, 0, v]),
                _ => None,
            }
        }
    }
}

/// sums of constants and of one of s and e, possibly with coefficients: such spellings must be accepted
fn plain(t: &[&str]) -> bool {
    !t.contains(&"(") && !(t.contains(&"s") && t.contains(&"e")) && t.windows(2).all(|w| !(w[0] == "-" && w[1] == "-") && !(w[0] == "+" && w[1] == "+")) && t[0] != "+"
}

fn ranges(x: &mut X) {
    x.bound("S..E: every sequence of up to 5 of the tokens s e 1 2 + - * ( ), every chain of 4 operands of s e 1 3 with 3 operators of + - * and their parenthesised forms, as either end of --slice and --extend ranges on 9 bytes: wherever accepted the result is exact; ends not relative to exactly one of s and e are refused");
    let n = 9i64;
    let data = pos(n as usize);
    let inputs = [data.clone()];
    let mut one = |x: &mut X, t: &[&str]| {
        let a = parse(t, &["s", "e"]);
        let text = t.join(if t.len() % 2 == 0 || a.is_none() { " " } else { "" });
        let at = a.as_ref().and_then(linear).filter(|v| matches!(v[..2], [0, 0] | [1, 0] | [0, 1]));
        for (is_end, opt) in [(false, "slice"), (true, "slice"), (false, "extend"), (true, "extend")] {
            let arg = if is_end { format!("--{opt}=..{text}") } else { format!("--{opt}={text}..") };
            let args = [arg, "--out-format=b".to_string()];
            let Some(v) = at else {
                // never equal to anything the option can do
                must_reject(x, &args, n as usize);
                continue;
            };
            let p = v[1] * n + v[2];
            let (s, e) = if is_end { (0, p) } else { (p, n) };
            let (s, e) = (s.clamp(0, n) as usize, e.clamp(0, n) as usize);
            let want = &data[s.min(e)..e];
            if plain(t) {
                must_give(x, &args, &inputs, want);
            } else if x.mine() {
                let dir = x.dir.clone();
                x.assert_case(&|| format!("{args:?} on {n} bytes"), &mut |ex| {
                    let case = Case { args: &args, inputs: &inputs, frags: vec![full()], consumer: &[], dir: &dir, stale: &[] };
                    match ex.run(&case) {
                        Got::Out(o, _) if o == want => Ok(fnv(3, &o)),
                        Got::Out(o, _) => Err(format!("gave {:02x?} instead of {:02x?}", o, want)),
                        Got::Reject(_) => Ok(0), // needs more algebra than the program is required to know
                        Got::Bad(s) => Err(s),
                    }
                });
            }
        }
    };
    for len in 1..=5 {
        sequences(&["s", "e", "1", "2", "+", "-", "*", "(", ")"], len, &mut |t| {
            if len == 5 && !x.thorough && parse(t, &["s", "e"]).is_none() {
                return;
            }
            one(x, t);
        });
    }
    let thorough = x.thorough;
    sequences(&["s", "e", "1", "3"], 4, &mut |v| {
        if !v.iter().any(|t| *t == "s" || *t == "e") {
            return;
        }
        sequences(&["+", "-", "*"], 3, &mut |o| {
            let forms: &[&[&str]] = &[
                &[v[0], o[0], v[1], o[1], v[2], o[2], v[3]],
                &["(", v[0], o[0], v[1], ")", o[1], v[2], o[2], v[3]],
                &[v[0], o[0], "(", v[1], o[1], v[2], ")", o[2], v[3]],
                &[v[0], o[0], v[1], o[1], "(", v[2], o[2], v[3], ")"],
                &["(", v[0], o[0], v[1], ")", o[1], "(", v[2], o[2], v[3], ")"],
                &[v[0], o[0], "(", v[1], o[1], "(", v[2], o[2], v[3], ")", ")"],
                &["-", v[0], o[0], v[1], o[1], v[2], o[2], v[3]],
                &["-", "(", v[0], o[0], v[1], ")", o[1], v[2], o[2], v[3]],
                &[v[0], o[0], "-", "(", v[1], o[1], v[2], ")", o[2], v[3]],
            ];
            for f in forms {
                let ok = parse(f, &["s", "e"]).as_ref().and_then(linear).map_or(false, |v| matches!(v[..2], [0, 0] | [1, 0] | [0, 1]));
                if ok || thorough {
                    one(x, f);
                }
            }
        });
    });
}

// ---------------------------------------------------------------- values of options

/// spellings of a number
fn spellings(v: i64) -> Vec<String> {
    let mut s = vec![
        format!("{v}"),
        format!("0x{v:x}"),
        format!("0X{v:X}"),
        format!("0b{v:b}"),
        format!("0B{v:b}"),
        format!("0o{v:o}"),
        format!("0O{v:o}"),
        format!("0d{v}"),
        format!("0D{v}"),
        format!("0{v:o}"),
        format!("0x0000_{v:04x}"),
        format!("({v})"),
        format!(" {v} "),
        format!("\t{v}"),
        format!("{v}+0"),
        format!("{v} * 1"),
        format!("2*{v}/2"),
        format!("{}-1", v + 1),
        format!("1+{v}-1"),
        format!("-(-{v})"),
        format!("+{v}"),
        format!("!(!{v})"),
        format!("~~{v}"),
        format!("{v}|0"),
        format!("{v}&-1"),
        format!("{v}^0"),
        format!("({v}<<1)>>1"),
        format!("{v}@1"),
        format!("{v}*(3>2)"),
        format!("{v}+(2>=3)"),
        format!("{}%{}", 2 * v + 1, v + 1),
    ];
    if v > 9 {
        s.push(format!("{}_{}", v / 10, v % 10));
    }
    if v % 1000 == 0 && v > 0 {
        s.extend(["k", "K"].map(|k| format!("{}{k}", v / 1000)));
    }
    if v % 1024 == 0 && v > 0 {
        s.extend(["ki", "Ki"].map(|k| format!("{}{k}", v / 1024)));
    }
    s
}

/// ways of giving an option
fn ways(short: &str, long: &str, v: &str) -> Vec<Vec<String>> {
    let mut w = vec![vec![format!("--{long}={v}")]];
    if !v.starts_with('-') {
        w.push(vec![format!("--{long}"), v.to_string()]);
    }
    if !short.is_empty() {
        if !v.starts_with('-') {
            w.push(vec![format!("-{short}"), v.to_string()]);
        }
        if !v.is_empty() && !v.starts_with('=') && !v.starts_with('-') {
            w.push(vec![format!("-{short}{v}")]);
        }
        w.push(vec![format!("-{short}={v}")]);
    }
    w
}

fn text_of(input: &Input) -> Vec<u8> {
    input.bytes()
}

fn give_cfg(x: &mut X, cfg: &Cfg, option: &[Vec<String>], rest: &[&str], inputs: &[Input]) {
    let Expect::Out(want, _) = spec(cfg, inputs) else { panic!("the case is not specified") };
    let bytes: Vec<Vec<u8>> = inputs.iter().map(text_of).collect();
    for o in option {
        // options and their order make no difference
        let mut a: Vec<String> = rest.iter().map(|x| x.to_string()).collect();
        a.extend(o.iter().cloned());
        must_give(x, &a, &bytes, &want);
        let mut a = o.clone();
        a.extend(rest.iter().map(|x| x.to_string()));
        must_give(x, &a, &bytes, &want);
    }
}

type Set = fn(&mut Cfg, i64);

pub fn values(x: &mut X) {
    if x.big {
        return;
    }
    x.bound("values 0..=5, 9, 16, 255, 1000, 1024 in up to 35 spellings each (bases, cases, separators, SI prefixes, blanks, equivalent expressions) for every number that an option takes, the option given as --long=V, --long V, -sV, -s V and -s=V before and after the other options");
    let numeric: [(&str, &str, &str, i64, i64, Set); 9] = [
        // short, long, pattern, least and largest value
        ("c", "cat", "{}", 1, 2000, |c, v| c.join = Join::Cat(v as usize)),
        ("z", "zip", "{}", 1, 2000, |c, v| c.join = Join::Zip(v as usize)),
        ("a", "pad", "{}", 0, 2000, |c, v| c.pad = Some((v as usize, 0))),
        ("a", "pad", "{},2", 0, 2000, |c, v| c.pad = Some((v as usize, 2))),
        ("a", "pad", "1,{}", 0, 2000, |c, v| c.pad = Some((1, v as usize))),
        ("w", "width", "{}", 1, 2000, |c, v| c.slicer = Slicer::Width(v as usize, None)),
        ("w", "width", "{},s..e+1", 1, 2000, |c, v| c.slicer = Slicer::Width(v as usize, Some(Rg((S, 0), (E, 1))))),
        ("", "filler", "{}", 0, 255, |c, v| c.filler = Some(v as u8)),
        ("m", "merge", "{}", 0, 2000, |c, v| c.merge = Some(v as usize)),
    ];
    let two = [Input::Raw(pos(37)), Input::Raw(pos(23))];
    for (short, long, pattern, lo, hi, set) in numeric {
        for v in [0, 1, 2, 3, 4, 5, 9, 16, 255, 1000, 1024] {
            if v < lo || v > hi {
                continue;
            }
            for s in spellings(v) {
                let mut cfg = Cfg::default();
                set(&mut cfg, v);
                let mut rest: Vec<&str> = Vec::new();
                if long == "filler" {
                    cfg.pad = Some((2, 1));
                    rest.push("--pad=2,1");
                }
                if long == "merge" {
                    cfg.slicer = Slicer::Slice(vec![Rg((S, 1), (S, 3)), Rg((S, 5), (S, 8)), Rg((S, 10), (S, 12)), Rg((S, 30), (S, 33))]);
                    rest.push("--slice=1..3,5..8,10..12,30..33");
                }
                let value = pattern.replace("{}", &s);
                give_cfg(x, &cfg, &ways(short, long, &value), &rest, &two);
            }
        }
    }

    x.bound("12 spellings of one S..E range in every option and position that takes ranges, alone and in lists");
    let range: [(&str, &str, fn(&mut Cfg, Vec<Rg>)); 6] = [
        ("n", "cut", |c, r| c.cut = Some(r)),
        ("r", "slice", |c, r| c.slicer = Slicer::Slice(r)),
        ("v", "invert", |c, r| c.invert = Some(r)),
        ("x", "extend", |c, r| c.extend = Some(r)),
        ("l", "lines", |c, r| c.lines = Some(r)),
        ("w", "width", |c, r| c.slicer = Slicer::Width(4, Some(r[0]))),
    ];
    let cases: [(Rg, &[&str]); 6] = [
        (Rg((S, 1), (S, 3)), &["1..3", "s+1..s+3", "1+s..3+s", "0x1..0b11", "2-1..2+1", "s+2-1..s+3*1", " 1 .. 3 ", "(1)..(3)", "s + 1 .. s + 3", "1..s+3", "s+1..3", "--1..4-1"]),
        (Rg((S, 0), (E, 0)), &["..", "s..", "..e", "s..e", "0..", "0..e", "s+0..e-0", "+0..e", "s..0+e", "e-e..e", "2*s-s..e", " s .. e "]),
        (Rg((S, 1), (E, -1)), &["1..e-1", "s+1..e-1", "1..-1+e", "1+s..-1+e", "s+0x1..e-0x1", "s-1+2..e+1-2", "1..e+-1", "1..e - 1", "s+1..e-(1)", "(s+1)..(e-1)", "+1..e-1", "1..e-2+1"]),
        (Rg((E, -2), (E, 0)), &["e-2..", "e-2..e", "-2+e..", "e-1-1..e", "e-2*1..e", "e+-2..e", "e - 2 .. e", "(e-2)..", "e-0x2..", "e-4/2..", "-(2-e)..", "e-2..0+e"]),
        (Rg((S, 2), (E, 1)), &["2..e+1", "s+2..e+1", "2..1+e", "0x2..e+0x1", "1+1..e+2-1", "s+1*2..e+1*1", "2 .. e + 1", "s+(2)..e+(1)", "+2..+1+e", "2..e--1", "(1@3)+1..e+1", "4>>1..e+1"]),
        (Rg((E, -3), (S, 3)), &["e-3..3", "e-3..s+3", "-3+e..3", "e-3..3+s", "e-0b11..0b11", "e-3*1..3*1", "e - 3 .. 3", "(e-3)..(3)", "e+-3..+3", "e-1-2..1+2", "e-6/2..6/2", "e-3..s+4-1"]),
    ];
    for (short, long, set) in range {
        for (rg, texts) in cases {
            for t in texts {
                for list in 0..3 {
                    let other = Rg((S, 0), (S, 1));
                    let (v, text) = match list {
                        0 => (vec![rg], t.to_string()),
                        _ if long == "width" => continue,
                        1 => (vec![rg, other], format!("{t},0..1")),
                        _ => (vec![other, rg], format!("0..1,{t}")),
                    };
                    let mut cfg = Cfg::default();
                    set(&mut cfg, v);
                    let mut rest = Vec::new();
                    if matches!(long, "invert" | "extend" | "lines") {
                        cfg.slicer = Slicer::Slice(vec![Rg((S, 1), (S, 3)), Rg((S, 5), (S, 9)), Rg((S, 12), (S, 18)), Rg((E, -6), (E, -2))]);
                        rest.push("--slice=1..3,5..9,12..18,e-6..e-2");
                    }
                    if !spec_accepts(&cfg, &two[..1]) {
                        continue;
                    }
                    let text = if long == "width" { format!("4,{text}") } else { text };
                    give_cfg(x, &cfg, &ways(short, long, &text), &rest, &two[..1]);
                }
            }
        }
    }

    x.bound("every documented format name, the long and the short form of every option");
    for (names, fmt) in [(&["b", "nnb", "n,n,b"][..], "b"), (&["x", "xxx", "x,x,x"], "x")] {
        for name in names {
            let cfg = Cfg { outfmt: Some(fmt), ..Cfg::default() };
            give_cfg(x, &cfg, &ways("f", "out-format", name), &[], &two);
        }
    }
    let recs = vec![rec(2, 3, b"abc"), rec(7, 4, b"defgh")];
    for (names, fmt) in [(&["b", "nnb", "n,n,b"][..], "b"), (&["x", "xxx", "x,x,x"], "x"), (&["nnx", "n,n,x"], "nnx")] {
        for name in names {
            let cfg = Cfg { infmt: Some(fmt), ..Cfg::default() };
            let inputs = if fmt == "nnx" { vec![Input::Recs(recs.clone(), true)] } else { vec![Input::Recs(vec![rec(2, 3, b"abc"), rec(7, 4, b"defg")], true)] };
            give_cfg(x, &cfg, &ways("F", "in-format", name), &[], &inputs);
        }
    }
    let find = |n: usize| -> Vec<u8> { (0..n).map(|i| if i == 0 { b'#' } else { (i * 7) as u8 }).collect() };
    x.bound("--find ARRAYs of every length 1..=64 in lower and upper case; longer ones are refused, not cut");
    for n in 1..=64usize {
        let p = find(n);
        let mut body = pos(50);
        body.extend(&p);
        body.extend(pos(11));
        body.extend(&p);
        body.extend(&p[..n - 1]); // not a match
        let inputs = [Input::Raw(body)];
        let cfg = Cfg { slicer: Slicer::Find(p.clone()), ..Cfg::default() };
        let hex = hexes(&p);
        for h in [hex.clone(), hex.to_uppercase()] {
            give_cfg(x, &cfg, &ways("d", "find", &h), &[], &inputs);
        }
    }
    for n in (65..=130).chain([256, 1000]) {
        must_reject(x, &[format!("--find={}", hexes(&find(n)))], 37);
    }
    for n in 1..=64usize {
        // a letter that is no digit, a digit missing, at every position
        for at in 0..n {
            let mut h: Vec<String> = find(n).iter().map(|x| format!("{x:02x}")).collect();
            h[at] = "zz".into();
            must_reject(x, &[format!("--find={}", h.join(" "))], 37);
            h[at] = "g0".into();
            must_reject(x, &[format!("--find={}", h.join(" "))], 37);
            h[at] = "0g".into();
            must_reject(x, &[format!("--find={}", h.join(" "))], 37);
        }
    }

    x.bound("malformed and out-of-range values of every option");
    let bad_num = ["", " ", "x", "-1", "1,", "1x", "08", "0x", "1 2", "1+", "(1", "1)", "1_", "_1", "1.5", "--", "s", "b[0]", "1;", "0-1", "!0"];
    let bad: [(&str, &[&str]); 17] = [
        ("cat", &["0", "1,2"]),
        ("zip", &["0", "1,2"]),
        ("merge", &["1,2"]),
        ("filler", &["256", "1000", "1,2"]),
        ("width", &["0", "4,s..e,s..e", "4,e..s", "4,s..s", "4,1..1", "4,4", "4,a..b", "4,s*2..e", "4,..-1"]),
        ("pad", &["1,2,3", ",,", "-1,0", "0,-1", "x,0", "0,x", "1 2", "", "1..2"]),
        ("find", &["x", "6", "6g", "g6", "6 6", "zz", "66 6", "66 zz", "-"]),
        ("walk", &["", "b", "b[", "b[0", "b[]", "b]0[", "x[0]", "b[0]+", ",1", ",", "s", "q", "b[0)", "b(0)"]),
        ("cut", &["1", "1.2", "1...2", "..1..", "a..b", ",1..2", "1..2;3..4", "s..f", "s+e..e", "2*s..e", "s..e*2", "s*s..", "s/2..e", "-s..e", "1-s..e", "s..-e"]),
        ("slice", &["1", "1.2", "1...2", "..1..", "a..b", ",1..2", "1..2;3..4", "s..f", "s+e..e", "2*s..e", "s..e*2", "s*s..", "s/2..e", "-s..e", "1-s..e", "s..-e"]),
        ("invert", &["1", "1.2", "1...2", "..1..", "a..b", ",1..2", "1..2;3..4", "s..f", "s+e..e", "2*s..e", "s..e*2", "s*s..", "s/2..e", "-s..e", "1-s..e", "s..-e"]),
        ("extend", &["1", "1.2", "1...2", "..1..", "a..b", ",1..2", "1..2;3..4", "s..f", "s+e..e", "2*s..e", "s..e*2", "s*s..", "s/2..e", "-s..e", "1-s..e", "s..-e"]),
        ("lines", &["1", "1.2", "1...2", "..1..", "a..b", ",1..2", "1..2;3..4", "s..f", "s+e..e", "2*s..e", "s..e*2", "s*s..", "s/2..e", "-s..e", "1-s..e", "s..-e"]),
        ("regex", &["(", "[a", "*a", "a)", "(?P<", "a{2,1}", "\\"]),
        ("in-format", &["", "q", "xx", "bb", "nn", "x,x,x,x", "xxxx", "b,", "hex", "X", "B"]),
        ("out-format", &["", "q", "xx", "bb", "nn", "x,x,x,x", "xxxx", "b,", "hex", "X", "B"]),
        ("output", &["{", "{}", "{n", "{q}", "{(n}", "{n)}", "{(n+)}", "{(q)}", "{n:q}", "{n:zz}", "{:d}", "{(n l)}"]),
    ];
    for (opt, list) in bad {
        let nums: &[&str] = if matches!(opt, "cat" | "zip" | "merge" | "filler" | "width") { &bad_num } else { &[] };
        for v in nums.iter().chain(list) {
            if opt == "output" && !v.contains('}') {
                continue; // a lone brace is (so far) taken literally
            }
            let v = if opt == "output" { format!("{}/out/{v}", x.dir) } else { v.to_string() };
            must_reject(x, &[format!("--{opt}={v}")], 37);
        }
    }
    for a in [["--nonsense", "-"], ["--cat", "--zip=1"], ["--width=4", "--width=4"], ["--cut=1..2", "-n1..2"], ["--inplace=1", "--width=4"], ["--pad", "--cut=1..2"]] {
        must_reject(x, &a.map(|x| x.to_string()), 37);
    }
}

fn spec_accepts(cfg: &Cfg, inputs: &[Input]) -> bool {
    matches!(spec(cfg, inputs), Expect::Out(..))
}

// ---------------------------------------------------------------- {VAR:FORMATTER}

/// Rust's format specifier for i64: [[fill]align][sign]['#']['0'][width][type]
pub struct Form {
    pub fill: char,
    pub align: char, // '\0': not given
    pub plus: bool,
    pub alt: bool,
    pub zero: bool,
    pub width: usize,
    pub ty: char,
}

pub fn render(v: i64, f: &Form) -> String {
    let (digits, prefix) = match f.ty {
        'x' => (format!("{v:x}"), "0x"),
        'X' => (format!("{v:X}"), "0x"),
        'o' => (format!("{v:o}"), "0o"),
        'b' => (format!("{v:b}"), "0b"),
        _ => (v.unsigned_abs().to_string(), ""),
    };
    let prefix = if f.alt { prefix } else { "" };
    let sign = if v < 0 && matches!(f.ty, 'd' | '\0') {
        "-"
    } else if f.plus {
        "+"
    } else {
        ""
    };
    let len = digits.len() + prefix.len() + sign.len();
    let pad = f.width.saturating_sub(len);
    if f.zero {
        return format!("{sign}{prefix}{}{digits}", "0".repeat(pad));
    }
    let (l, r) = match f.align {
        '<' => (0, pad),
        '^' => (pad / 2, pad - pad / 2),
        _ => (pad, 0),
    };
    let fill = |n: usize| f.fill.to_string().repeat(n);
    format!("{}{sign}{prefix}{digits}{}", fill(l), fill(r))
}

pub fn format(x: &mut X) {
    if x.big {
        return;
    }
    let exprs: [(&str, fn(i64, i64) -> i64); 14] = [
        ("n", |n, _| n),
        ("l", |_, l| l),
        ("(n - 3)", |n, _| n - 3),
        ("(2*l)", |_, l| 2 * l),
        ("(n*l)", |n, l| n * l),
        ("(n + 9)", |n, _| n + 9),
        ("(l * 100 - 50)", |_, l| l * 100 - 50),
        ("(n * 1000 + 7)", |n, _| n * 1000 + 7),
        ("(255 - n)", |n, _| 255 - n),
        ("(n * 0x123456789ab)", |n, _| n * 0x123456789ab),
        ("(-n * 0x123456789ab)", |n, _| -n * 0x123456789ab),
        ("(0x7fffffffffffffff - n)", |n, _| i64::MAX - n),
        ("(-0x7fffffffffffffff + n)", |n, _| -i64::MAX + n),
        ("(l - 1)", |_, l| l - 1),
    ];
    let points = [(0, 0), (3, 1), (6, 2)];
    let mut b = Batch { x: &mut *x, fields: Vec::new(), len: 0 };
    let aligns: [(&str, char, char); 9] = [("", ' ', '\0'), ("<", ' ', '<'), (">", ' ', '>'), ("^", ' ', '^'), ("*<", '*', '<'), ("_>", '_', '>'), ("0>", '0', '>'), ("=^", '=', '^'), ("-<", '-', '<')];
    for (at, fill, align) in aligns {
        for plus in [false, true] {
            for alt in [false, true] {
                for zero in [false, true] {
                    if zero && !at.is_empty() {
                        continue; // an alignment together with '0': not specified
                    }
                    for width in (0..=12).chain([16, 17, 20, 24, 66]) {
                        if width == 0 && (zero || align != '\0') {
                            continue;
                        }
                        for ty in ["", "d", "x", "X", "o", "b"] {
                            if alt && matches!(ty, "" | "d") {
                                continue;
                            }
                            let f = Form { fill, align, plus, alt, zero, width, ty: ty.chars().next().unwrap_or('\0') };
                            let w = if width == 0 { String::new() } else { width.to_string() };
                            let spec = format!("{at}{}{}{}{w}{ty}", if plus { "+" } else { "" }, if alt { "#" } else { "" }, if zero { "0" } else { "" });
                            for (e, v) in exprs {
                                // where the formatter in use (num-runtime-fmt) is known to deviate from Rust's: see the four below
                                let deviates = |v: i64| {
                                    (plus && (v == 0 || align == '<' || align == '^'))
                                        || (alt && !zero && width > 1)
                                        || (align == '^' && width > 1)
                                        || (align == '<' && v < 0 && matches!(ty, "" | "d"))
                                };
                                if points.iter().any(|p| deviates(v(p.0, p.1))) {
                                    continue;
                                }
                                let want = points.map(|(n, l)| render(v(n, l), &f));
                                b.add(format!("{{{e}:{spec}}}"), want);
                            }
                        }
                    }
                }
            }
        }
    }
    b.flush();

    // listed in known_findings.json
    b.x.bound("known deviations of the formatter, one input each: {n:+} of zero, {n:#4x}, {n:^2}, {(n - 3):<2}");
    for (e, v, spec, f) in [
        ("n", exprs[0].1, "+", Form { fill: ' ', align: '\0', plus: true, alt: false, zero: false, width: 0, ty: '\0' }),
        ("n", exprs[0].1, "#4x", Form { fill: ' ', align: '\0', plus: false, alt: true, zero: false, width: 4, ty: 'x' }),
        ("n", exprs[0].1, "^2", Form { fill: ' ', align: '^', plus: false, alt: false, zero: false, width: 2, ty: '\0' }),
        ("(n - 3)", exprs[2].1, "<2", Form { fill: ' ', align: '<', plus: false, alt: false, zero: false, width: 2, ty: '\0' }),
    ] {
        b.add(format!("{{{e}:{spec}}}"), points.map(|(n, l)| render(v(n, l), &f)));
        b.flush();
    }

    b.x.bound("1..=4 fields among fixed texts: {n}, {l}, {(n+l)}, {n:02x}, {(l*3):} in every order, adjacent or with letters, ':' and unpaired ')' '(' '}' between, before and after them");
    let fields: [(&str, fn(i64, i64) -> String); 5] = [
        ("{n}", |n, _| n.to_string()),
        ("{l}", |_, l| l.to_string()),
        ("{(n+l)}", |n, l| (n + l).to_string()),
        ("{n:02x}", |n, _| format!("{n:02x}")),
        ("{(l*3):}", |_, l| (l * 3).to_string()),
    ];
    let fixed = ["", "_", "ab", "a.b:c", ")", "(", "-", "}", "n", "0x"];
    for count in 1..=4usize {
        for k in 0..fields.len().pow(count as u32) {
            for (i, f) in fixed.iter().enumerate() {
                if count > 2 && i > 3 {
                    continue;
                }
                for place in 0..3 {
                    let mut text = String::new();
                    let mut want: [String; 3] = Default::default();
                    let mut put = |t: &str, f: &dyn Fn(usize) -> String| {
                        text.push_str(t);
                        for (i, w) in want.iter_mut().enumerate() {
                            w.push_str(&f(i));
                        }
                    };
                    if place == 0 {
                        put(f, &|_| f.to_string());
                    }
                    let mut kk = k;
                    for at in 0..count {
                        let (t, v) = fields[kk % fields.len()];
                        kk /= fields.len();
                        put(t, &|i| v(points[i].0, points[i].1));
                        if place == 1 && at + 1 < count {
                            put(f, &|_| f.to_string());
                        }
                    }
                    if place == 2 {
                        put(f, &|_| f.to_string());
                    }
                    b.add(text, want);
                    b.flush();
                }
            }
        }
    }

    b.x.bound("malformed fields and formatters are refused");
    for t in [
        "{}", "{:}", "{:x}", "{q}", "{nn}", "{N}", "{n)}", "{(n}", "{ n}", "{n }", "{n02x}", "{n 02x}", "{n;x}", "{n.x}", "{n-}", "{0}", "{n+l}", "{n:q}", "{n:xx}", "{n:x2}", "{n:02y}", "{n:?}", "{n:e}", "{n:0x2}", "{n:s}",
        "{n:2 x}", "{(n)x}", "{(n)02x}", "{(n):z}", "{()}", "{(n l)}", "{(n+)}", "{(+)}", "{(q)}", "{(n):02x:}", "{n::}", "{(n))}", "{((n)}", "{n]}", "{n[0]}", "{\u{3b1}}", "{n\u{3b1}}", "{n:\u{3b1}}", "{(n)\u{3b1}}", "{n\u{3b1}x}",
    ] {
        for (before, after) in [("", ""), ("f_", ""), ("", "_g"), ("{n}", "{l}")] {
            let args = vec!["--width=3".to_string(), format!("--output={}/out/{before}{t}{after}", b.x.dir)];
            must_reject(b.x, &args, LEN);
        }
    }
}
