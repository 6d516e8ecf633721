//! Conformance of the tokenizer: interprets the transition table that TLC exports from JsLex.tla.
use crate::parse::Stats;
use crate::real::lexer;
use crate::render::{positions, at, Pos, Seen};
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LOp { Go, Tok, May, Inc, Back, Skip, Err, Open, Eof }
#[derive(Clone, Copy, Debug)]
pub struct Row { pub op: LOp, pub to: u16, pub kind: u16 }
pub type H = (bool, bool);

pub struct LexTable { pub classes: Vec<String>, pub modes: Vec<String>, pub kinds: Vec<String>, ascii: Vec<u8>, other: HashMap<u32, u8>, uni: u8, pub end: u8, rows: Vec<Row>, pub start: u16, pub dotdot: u16, pub dot: u16, pub pool: Vec<Vec<char>> }

impl LexTable {
    pub fn load(path: &str) -> LexTable {
        let text = std::fs::read_to_string(path).expect("lex table");
        let mut t = LexTable { classes: vec![], modes: vec![], kinds: vec!["-".into()], ascii: vec![], other: HashMap::new(), uni: 0, end: 0, rows: vec![], start: 0, dotdot: 0, dot: 0, pool: vec![] };
        let ix = |v: &Vec<String>, s: &str| v.iter().position(|x| x == s).unwrap_or_else(|| panic!("no {}", s));
        for line in text.split('\n') {
            let f: Vec<&str> = line.split(' ').collect();
            match f[0] {
                "C" => t.classes = f[1..].iter().map(|s| s.to_string()).collect(),
                "M" => { t.modes = f[1..].iter().map(|s| s.to_string()).collect(); t.rows = vec![Row { op: LOp::Open, to: 0, kind: 0 }; t.modes.len() * t.classes.len() * 4]; }
                "A" => t.ascii = f[1..].iter().map(|s| ix(&t.classes, s) as u8).collect(),
                "O" => for s in &f[1..] { let (a, b) = s.split_once('=').unwrap(); t.other.insert(a.parse().unwrap(), ix(&t.classes, b) as u8); },
                "R" => {
                    let (m, k) = (ix(&t.modes, f[1]), ix(&t.classes, f[2]));
                    let op = match f[5] { "go" => LOp::Go, "tok" => LOp::Tok, "may" => LOp::May, "inc" => LOp::Inc, "back" => LOp::Back, "skip" => LOp::Skip, "err" => LOp::Err, "open" => LOp::Open, "eof" => LOp::Eof, x => panic!("{}", x) };
                    let kind = match t.kinds.iter().position(|x| x == f[7]) { Some(i) => i, None => { t.kinds.push(f[7].into()); t.kinds.len() - 1 } };
                    let to = if op == LOp::Go { ix(&t.modes, f[6]) } else { 0 };
                    let row = Row { op, to: to as u16, kind: kind as u16 };
                    let base = (m * t.classes.len() + k) * 4;
                    if f[1] == "S" { t.rows[base + (f[3] == "1") as usize * 2 + (f[4] == "1") as usize] = row } else { for h in 0..4 { t.rows[base + h] = row } }
                }
                _ => {}
            }
        }
        t.uni = ix(&t.classes, "uni") as u8; t.end = ix(&t.classes, "end") as u8;
        t.start = ix(&t.modes, "S") as u16; t.dotdot = ix(&t.modes, "..") as u16; t.dot = ix(&t.modes, ".") as u16;
        t.pool = vec![vec![]; t.classes.len()];
        for c in 0..128u32 { t.pool[t.ascii[c as usize] as usize].push(char::from_u32(c).unwrap()); }
        let mut os: Vec<_> = t.other.iter().map(|(a, b)| (*a, *b)).collect();
        os.sort();
        for (c, k) in os { if let Some(c) = char::from_u32(c) { if t.pool[k as usize].len() < 40 { t.pool[k as usize].push(c); } } }
        t
    }
    pub fn class(&self, c: char) -> u8 {
        let c = c as u32;
        if c < 128 { self.ascii[c as usize] } else { *self.other.get(&c).unwrap_or(&self.uni) }
    }
    pub fn row(&self, m: u16, k: u8, h: H) -> Row { self.rows[(m as usize * self.classes.len() + k as usize) * 4 + h.0 as usize * 2 + h.1 as usize] }
    pub fn class_ix(&self, s: &str) -> u8 { self.classes.iter().position(|x| x == s).unwrap_or_else(|| panic!("class {}", s)) as u8 }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct LTok { pub kind: u16, pub s: usize, pub e: usize, pub may: bool }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Done, Err, Open }

/// Coverage of the table: which rows have been used.
pub type Cov = Vec<u64>;

pub fn run(t: &LexTable, text: &[char], hints: &[H], cov: Option<&mut Cov>) -> (Vec<LTok>, End) {
    let mut toks: Vec<LTok> = vec![];
    let (mut m, mut s) = (t.start, 0usize);
    let mut i = 0;
    let mut dummy = vec![];
    let (cov, on) = match cov { Some(c) => (c, true), None => (&mut dummy, false) };
    loop {
        let k = if i < text.len() { t.class(text[i]) } else { t.end };
        let h = if m == t.start { hints.get(toks.len()).cloned().unwrap_or((false, false)) } else { (false, false) };
        let r = t.row(m, k, h);
        if on { cov[(m as usize * t.classes.len() + k as usize) * 4 + h.0 as usize * 2 + h.1 as usize] += 1; }
        match r.op {
            LOp::Go => { m = r.to; i += 1; }
            LOp::Inc => { i += 1; toks.push(LTok { kind: r.kind, s, e: i, may: false }); m = t.start; s = i; }
            LOp::Skip => { i += 1; s = i; }
            LOp::Tok | LOp::May => { toks.push(LTok { kind: r.kind, s, e: i, may: r.op == LOp::May }); m = t.start; s = i; }
            LOp::Back => { toks.push(LTok { kind: r.kind, s, e: i - 1, may: false }); m = t.dot; s = i - 1; }
            LOp::Eof => { toks.push(LTok { kind: r.kind, s, e: i, may: false }); return (toks, End::Done) }
            LOp::Err => return (toks, End::Err),
            LOp::Open => return (toks, End::Open),
        }
    }
}

fn number(s: &str) -> Option<f64> {
    let b = s.as_bytes();
    if b.len() > 2 && b[0] == b'0' {
        let radix = match b[1] { b'x' | b'X' => 16, b'o' | b'O' => 8, b'b' | b'B' => 2, _ => 0 };
        if radix > 0 { return u128::from_str_radix(&s[2..], radix).ok().map(|v| v as f64) }
    }
    s.parse::<f64>().ok()
}

/// The text a token of this kind carries (pattern and flags of a regular expression; value of a number).
pub fn payload(kind: &str, s: &str) -> (String, String, f64) {
    let n = s.len();
    match kind {
        "word" => (s.into(), String::new(), 0.0),
        "str" => (s[1..n - 1].into(), String::new(), 0.0),
        "tplN" | "tplT" => { let t = &s[1..n - 1]; (t.into(), if crate::real::plain(t) { t.into() } else { String::new() }, 0.0) }
        "tplH" | "tplM" => { let t = &s[1..n - 2]; (t.into(), if crate::real::plain(t) { t.into() } else { String::new() }, 0.0) }
        "lcom" => (s[2..].into(), String::new(), 0.0),
        "bcom" => (s[2..n - 2].into(), String::new(), 0.0),
        "re" => { let j = s.rfind('/').unwrap(); (s[1..j].into(), s[j + 1..].into(), 0.0) }
        "num" => (String::new(), String::new(), number(s).unwrap_or(f64::NAN)),
        _ => (String::new(), String::new(), 0.0),
    }
}

/// Exact for integer literals below 2^53 and for zero, to 1e-9 otherwise; not judged far out.
pub fn num_ok(text: &str, got: f64, want: f64) -> bool {
    let int = text.bytes().all(|b| b.is_ascii_digit()) || (text.starts_with('0') && text.as_bytes().get(1).map_or(false, |b| b"xXoObB".contains(b)));
    if want == 0.0 {
        // a literal that is zero, not one that is merely too small
        let digits = if int { &text[if text.len() > 1 { 2 } else { 0 }..] } else { text.split(|c| c == 'e' || c == 'E').next().unwrap() };
        return got == 0.0 || digits.bytes().any(|b| (b'1'..=b'9').contains(&b))
    }
    if want.is_nan() || want.abs() < 1e-290 || want.abs() > 1e290 || exponent(text).abs() > 290 { return true }
    let m = mantissa(text);
    if m < 1e-290 || m > 1e290 { return true } // known finding
    if int && want < 9007199254740992.0 { return got == want }
    (got - want).abs() <= 1e-9 * want.abs()
}
fn mantissa(s: &str) -> f64 {
    if s.starts_with("0x") || s.starts_with("0X") { return 1.0 }
    match s.find(|c| c == 'e' || c == 'E') { Some(i) => s[..i].parse().unwrap_or(1.0), None => 1.0 }
}
fn exponent(s: &str) -> i64 {
    if s.starts_with("0x") || s.starts_with("0X") { return 0 }
    match s.find(|c| c == 'e' || c == 'E') { Some(i) => s[i + 1..].parse::<i64>().unwrap_or(if s[i + 1..].starts_with('-') { -999999 } else { 999999 }), None => 0 }
}

#[derive(Clone, Debug)]
pub struct Mismatch { pub props: Vec<&'static str>, pub what: String, pub want: String, pub got: String }

pub fn prop_of(kind: &str) -> &'static str {
    match kind { "num" => "L04", "str" => "L05", "tplN" | "tplH" | "tplM" | "tplT" => "L06", "lcom" | "bcom" | "lt" => "L07", "re" | "/" | "/=" => "L08", "eof" => "L01", _ => "L03" }
}

fn show(s: &Seen) -> String { format!("{} {:?}{:?}{} {}..{}", s.kind, s.a, s.b, if s.kind == "num" { format!("{:e}", s.num) } else { String::new() }, s.start.off, s.end.off) }

pub struct LexTester<'t> { pub tb: &'t LexTable, pub stats: Stats, pub cov: Cov, pub viol: Vec<(String, Vec<H>, Mismatch)>, pub props: Vec<String>, pub memoryless: bool, pub slot: std::sync::Arc<crate::Slot>, pub record: Option<std::io::BufWriter<std::fs::File>>, pub record_left: usize }

/// What the real tokenizer answers: tokens, and whether it refused in the end.
pub fn real_run(text: &str, hints: &[H], max: usize, extra: usize) -> (Vec<Seen>, bool) {
    let mut l = lexer(text);
    let mut v = vec![];
    let mut left = extra;
    while v.len() < max {
        let h = hints.get(v.len()).cloned().unwrap_or((false, false));
        match l.next(h.0, h.1, false) {
            None => return (v, true),
            Some(s) => { let eof = s.kind == "eof"; v.push(s); if eof { if left == 0 { break } left -= 1; } }
        }
    }
    (v, false)
}

impl<'t> LexTester<'t> {
    /// All that is wrong with how the real tokenizer reads this text.
    pub fn check(&mut self, text: &str, hints: &[H]) -> Vec<Mismatch> {
        let chars: Vec<char> = text.chars().collect();
        let (want, end) = run(self.tb, &chars, hints, Some(&mut self.cov));
        self.slot.begin(text);
        // white-space tokens, if there were any, are white space
        let (got, refused) = real_run(text, hints, chars.len() * 2 + 8, 2);
        self.slot.end();
        self.stats.add(match end { End::Done => "texts:complete", End::Err => "texts:refused", End::Open => "texts:open" });
        *self.stats.n.entry("tokens".into()).or_insert(0) += want.len() as u64;
        for t in &want { let k = &self.tb.kinds[t.kind as usize]; self.stats.add(&format!("kind:{}", if !k.chars().any(|c| c.is_alphabetic()) { "punctuator" } else { k })); }
        if self.record_left > 0 && self.record.is_some() && chars.len() <= 60 { self.write_trace(&chars, hints, &got, refused); }
        self.judge(text, &chars, hints, &want, end, &got, refused)
    }
    pub fn judge(&self, text: &str, chars: &[char], hints: &[H], want: &[LTok], end: End, got: &[Seen], refused: bool) -> Vec<Mismatch> {
        let mut bad = vec![];
        let mut off: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        off.push(text.len());
        let pos = positions(text);
        let mut upto = 0; // where the tokens that agree end
        let mut agree = 0;
        for i in 0..got.len().max(want.len()) {
            let w = want.get(i).map(|t| {
                let kind = self.tb.kinds[t.kind as usize].as_str();
                let (a, b, num) = payload(kind, &text[off[t.s]..off[t.e]]);
                Seen { kind: kind.into(), a, b, num, start: pos[t.s], end: pos[t.e] }
            });
            let g = got.get(i);
            match (w, g) {
                (Some(w), Some(g)) => {
                    let shape = w.kind == g.kind && w.start.off == g.start.off && w.end.off == g.end.off;
                    if !shape || w.a != g.a || w.b != g.b || (w.kind == "num" && !num_ok(&text[w.start.off..w.end.off], g.num, w.num)) {
                        let mut p = vec![prop_of(&w.kind), prop_of(&g.kind)];
                        if text[w.start.off..].starts_with('}') && !hints.get(i).map_or(false, |h| h.1) { p.push("L06") }
                        if text[w.start.off..].starts_with('/') { p.push("L08") }
                        if text[w.start.off..].starts_with("//") || text[w.start.off..].starts_with("/*") { p.push("L07") }
                        if w.kind == "eof" || g.kind == "eof" { p.push("L01") }
                        p.sort(); p.dedup();
                        if p.len() > 1 && w.kind != "eof" && g.kind != "eof" { p.retain(|x| *x != "L01") }
                        bad.push(Mismatch { props: p, what: format!("token {}", i), want: show(&w), got: show(g) });
                        break;
                    }
                    if w.start != g.start || w.end != g.end {
                        bad.push(Mismatch { props: vec!["L02"], what: format!("position of token {}", i), want: format!("{:?}..{:?}", w.start, w.end), got: format!("{:?}..{:?}", g.start, g.end) });
                    }
                    agree = i + 1; upto = want[i].e;
                }
                (Some(_), None) if refused && i == got.len() && want[i].may => break,
                (Some(w), None) => {
                    bad.push(Mismatch { props: vec![prop_of(&w.kind), "L01"], what: format!("token {}", i), want: show(&w), got: if refused { "refused".into() } else { "no token".into() } });
                    break;
                }
                (None, Some(g)) => {
                    match end {
                        End::Open => {}
                        End::Err => bad.push(Mismatch { props: vec!["L10", prop_of(&g.kind)], what: format!("malformed token {}", i), want: "refused".into(), got: show(g) }),
                        End::Done => { // requests after the end of input
                            let e = pos[chars.len()];
                            if g.kind != "eof" || g.start != e || g.end != e { bad.push(Mismatch { props: vec!["L01"], what: "request after end of input".into(), want: format!("eof at {:?}", e), got: format!("{} {:?}..{:?}", show(g), g.start, g.end) }) }
                        }
                    }
                    break;
                }
                (None, None) => break,
            }
        }
        if end == End::Done && agree == want.len() && refused { bad.push(Mismatch { props: vec!["L01"], what: "request after end of input".into(), want: "eof".into(), got: "refused".into() }) }
        let _ = upto;
        // whatever the tokens are, also where the specification leaves them open, they tile the text
        // and their positions are those of their places
        let mut last = 0usize;
        let space = |c: char| matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}')
            || (end == End::Open && matches!(c, '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}'));
        for (i, g) in got.iter().enumerate() {
            let (a, b) = (g.start.off, g.end.off);
            let tile = |s: &str| Mismatch { props: vec!["L01"], what: format!("tiling at token {}", i), want: s.to_string(), got: show(g) };
            if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) { bad.push(tile("a range on character boundaries")); break }
            if a < last { bad.push(tile("ranges in source order")); break }
            if text[last..a].chars().any(|c| !space(c)) { bad.push(tile("only white space between tokens")); break }
            if g.kind == "eof" { if a != text.len() || b != a { bad.push(tile("end of input at the end, empty")); break } }
            else if a == b { bad.push(tile("a nonempty range")); break }
            for p in [&g.start, &g.end] { let e = at(&pos, p.off); if *p != e { bad.push(Mismatch { props: vec!["L02"], what: format!("position of token {}", i), want: format!("{:?}", e), got: format!("{:?}", p) }); break } }
            last = b;
        }
        if self.memoryless { self.memory(text, hints, got, &mut bad); }
        bad
    }
    /// Each token again, from a fresh tokenizer at the place where the one before ended.
    fn memory(&self, text: &str, hints: &[H], got: &[Seen], bad: &mut Vec<Mismatch>) {
        let mut from = 0;
        let mut fp = Pos { off: 0, line: 1, col: 0 };
        let rel = |p: Pos, fp: Pos| Pos { off: p.off + fp.off, line: p.line + fp.line - 1, col: if p.line == 1 { p.col + fp.col } else { p.col } };
        let same = |a: &Seen, b: &Seen| a.kind == b.kind && a.a == b.a && a.b == b.b && (a.num == b.num || (a.num.is_nan() && b.num.is_nan())) && a.start == b.start && a.end == b.end;
        for (i, g) in got.iter().enumerate() {
            if !text.is_char_boundary(from) || !text.is_char_boundary(g.start.off) || g.start.off > text.len() { return }
            let h = hints.get(i).cloned().unwrap_or((false, false));
            let first = text[g.start.off..].chars().next();
            for e in [false, true] { for t in [false, true] { for strict in [false, true] {
                let applies = match first { Some('/') => e == h.0, Some('}') => t == h.1, _ => true };
                if !applies { continue }
                let mut l = lexer(&text[from..]);
                match l.next(e, t, strict) {
                    None => { bad.push(Mismatch { props: vec!["L09"], what: format!("token {} read afresh from {} (expression={} template={} strict={})", i, from, e, t, strict), want: show(g), got: "refused".into() }); return }
                    Some(mut f) => {
                        f.start = rel(f.start, fp); f.end = rel(f.end, fp);
                        if !same(&f, g) { bad.push(Mismatch { props: vec!["L09"], what: format!("token {} read afresh from {} (expression={} template={} strict={})", i, from, e, t, strict), want: format!("{} {:?}..{:?}", show(g), g.start, g.end), got: format!("{} {:?}..{:?}", show(&f), f.start, f.end) }); return }
                    }
                }
            } } }
            from = g.end.off; fp = g.end;
        }
        // a refusal must not depend on what came before either
    }
    fn write_trace(&mut self, chars: &[char], hints: &[H], got: &[Seen], refused: bool) {
        use std::io::Write;
        self.record_left -= 1;
        let s: String = chars.iter().collect();
        let cps = |s: &str| { let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect(); format!("[{}]", v.join(",")) };
        let mut reqs = vec![];
        for (i, g) in got.iter().enumerate() {
            let h = hints.get(i).cloned().unwrap_or((false, false));
            let v = if g.kind == "num" && g.num.fract() == 0.0 && g.num >= 0.0 && g.num < 2147483648.0 { g.num as i64 } else { -1 };
            reqs.push(format!("{{\"e\":{},\"t\":{},\"k\":{},\"so\":{},\"sl\":{},\"sc\":{},\"eo\":{},\"el\":{},\"ec\":{},\"a\":{},\"b\":{},\"v\":{}}}", h.0, h.1, crate::esc(&g.kind), g.start.off, g.start.line, g.start.col, g.end.off, g.end.line, g.end.col, cps(&g.a), cps(if g.kind == "re" { &g.b } else { "" }), v));
        }
        if refused {
            let h = hints.get(got.len()).cloned().unwrap_or((false, false));
            reqs.push(format!("{{\"e\":{},\"t\":{},\"k\":\"refused\",\"so\":0,\"sl\":0,\"sc\":0,\"eo\":0,\"el\":0,\"ec\":0,\"a\":[],\"b\":[],\"v\":-1}}", h.0, h.1));
        }
        let _ = writeln!(self.record.as_mut().unwrap(), "{{\"text\":{},\"reqs\":[{}]}}", cps(&s), reqs.join(","));
    }
    /// Judges a text, and shrinks it if the tokenizer gets it wrong.
    pub fn case(&mut self, text: &str, hints: &[H]) -> bool {
        let props = self.props.clone();
        let mine = |v: Vec<Mismatch>| v.into_iter().find(|m| props.is_empty() || m.props.iter().any(|p| props.iter().any(|q| q == p)));
        let Some(mut m) = mine(self.check(text, hints)) else { return true };
        self.record_left = 0;
        let mut cs: Vec<char> = text.chars().collect();
        let mut hs = hints.to_vec();
        let mut go = true;
        let mut tries = 0;
        let since = std::time::Instant::now();
        let late = || since.elapsed().as_secs() > 20;
        while go && tries < 5000 && !late() {
            go = false;
            let mut n = (cs.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i + n <= cs.len() && !late() {
                    let mut v = cs.clone();
                    v.drain(i..i + n);
                    tries += 1;
                    let s: String = v.iter().collect();
                    let mut hit = false;
                    for drop in 0..3 {
                        let mut h2 = hs.clone();
                        if drop > 0 { if h2.is_empty() { break } h2.remove(if drop == 1 { 0 } else { h2.len() - 1 }); }
                        if let Some(x) = mine(self.check(&s, &h2)) { if x.props == m.props { m = x; cs = v.clone(); hs = h2; go = true; hit = true; break } }
                    }
                    if !hit { i += 1 }
                }
                if n == 1 { break }
                n /= 2;
            }
        }
        hs.truncate(cs.len() + 2);
        self.viol.push((cs.iter().collect(), hs, m));
        false
    }
}

const FRAGS: &[&str] = &["\\u{", "\\x41", "\\u0041", "\\u{1F600}", "*/", "/*", "//", "${", "`", "=>", "===", "!==", ">>>=", "**=", "<<=", "0x", "0b1", "0o7", "1e", "1e+5", ".5", "1.", "\r\n", "\u{2028}", "\u{2029}", "\\\r\n", "\\\n",
    "\\\u{2028}", "'", "\"", "\\'", "\\\"", "\\\\", "[/]", "\\/", "[\\]]", "}", "{", "...", "..", "-->", "<!--", "\u{feff}", "\u{a0}", "\u{1F600}", "\u{e9}", "''", "\"\"", "``", "9007199254740991", "1e290", "0.1", "123456789", "4294967296", "/a/g", "$", "$$", "$${", "\\$", "\\`", "\\${", "***/", "**/", "/**/", "/*/", "++", "--", "+++", ">>>", ">>>>=", "&&", "||", "|=", "=>=", "!", "%=", "\\0", "\t\u{b}\u{c}"];

pub struct Focus { pub alpha: Vec<u8>, pub frags: Vec<String>, pub long: u32, pub plain: bool }

/// A text that repeats a short one until it is long: many tokens, lines, columns, or one long token.
pub fn pumped_text(t: &LexTable, r: &mut Rng, f: &Focus, top: usize) -> String {
    let ends = ["\n", "\r\n", "\u{2028}", ";", " ", ""];
    let (unit, open, close) = match r.below(4) {
        0 => { let p = *r.pick(&[("'", "'"), ("\"", "\""), ("`", "`"), ("/*", "*/"), ("//", "\n"), ("/", "/"), ("a", ""), ("1", ""), ("0.", ""), ("0x", ""), ("1e", ""), ("/[", "]/"), ("`", "${")]);
               (random_text(t, r, &Focus { long: 0, plain: true, alpha: f.alpha.clone(), frags: f.frags.clone() }, &[]), p.0, p.1) }
        1 => { let c = *r.pick(&["a", "1", "0", "\n", "\r\n", " ", "\u{a0}", "/", "*", "\\n", "\\\n", "\\\r\n", "\\\u{2028}", "\u{1F600}", "\u{e9}", "$", "(", "{", "]", ";", "\r", "\u{2029}"]);
               let p = *r.pick(&[("", ""), ("'", "'"), ("`", "`"), ("/*", "*/"), ("//", ""), ("/", "/"), ("/", "/g"), ("a", ""), ("1", ""), ("0b", ""), ("0x", "f")]);
               (c.to_string(), p.0, p.1) }
        _ => { let mut u = random_text(t, r, f, &[]); u.push_str(*r.pick(&ends)); (u, "", "") }
    };
    let unit = if unit.is_empty() { "a".to_string() } else { unit };
    let n = (top / unit.chars().count()).max(2);
    let mut s = String::from(open);
    for _ in 0..n { s.push_str(&unit); }
    s.push_str(close);
    s.push_str(*r.pick(&ends));
    s.push_str(&random_text(t, r, f, &[]));
    s
}

/// A random text, mostly along transitions that do not end in a refusal.
pub fn random_text(t: &LexTable, r: &mut Rng, f: &Focus, hints: &[H]) -> String {
    let top = if r.chance(30) { 40 } else { 12 };
    let n = if r.chance(f.long) { 60 + r.below(600) } else { 1 + r.below(top) };
    let mut s: Vec<char> = vec![];
    let (mut m, mut done) = (t.start, 0usize);
    let repeat = r.chance(10); // long runs of one class
    let mut lastk = None;
    let feed = |m: &mut u16, done: &mut usize, c: char, dry: bool| -> LOp {
        let k = t.class(c);
        let mut mm = *m; let mut dd = *done;
        loop {
            let h = hints.get(dd).cloned().unwrap_or((false, false));
            let row = t.row(mm, k, h);
            let op = row.op;
            match op {
                LOp::Go => mm = row.to,
                LOp::Inc => { mm = t.start; dd += 1 }
                LOp::Tok => { mm = t.start; dd += 1; continue }
                LOp::May => { mm = t.start; dd += 1; if dry { return LOp::Open } continue }
                LOp::Back => { mm = t.dot; dd += 1; continue }
                LOp::Skip => {}
                LOp::Err | LOp::Open => { if !dry { mm = t.start; } if !dry { *m = mm; *done = dd; } return op }
                LOp::Eof => {}
            }
            if !dry { *m = mm; *done = dd; }
            return op
        }
    };
    while s.len() < n {
        if !f.plain && r.chance(18) {
            let g: &str = if !f.frags.is_empty() && r.chance(70) { r.pick(&f.frags) } else { *r.pick(FRAGS) };
            let g = g.to_string();
            for c in g.chars() { feed(&mut m, &mut done, c, false); s.push(c); }
            continue;
        }
        let mut c = ' ';
        for _ in 0..12 {
            let k = if repeat && lastk.is_some() && r.chance(90) { lastk.unwrap() } else if !f.alpha.is_empty() && r.chance(85) { *r.pick(&f.alpha) } else { r.below(t.classes.len()) as u8 };
            if k == t.end { continue }
            lastk = Some(k);
            c = if t.classes[k as usize] == "uni" && r.chance(40) { loop { let top = *r.pick(&[0x700, 0xf000, 0x10f000]); if let Some(c) = char::from_u32(128 + r.below(top) as u32) { if t.class(c) == k { break c } } } } else if t.pool[k as usize].is_empty() || (t.classes[k as usize] == "uni" && r.chance(30)) { *r.pick(&['\u{e9}', '\u{3b1}', '\u{4e2d}', '\u{1F600}', '\u{10ffff}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}']) } else { *r.pick(&t.pool[k as usize]) };
            let op = feed(&mut m, &mut done, c, true);
            if !matches!(op, LOp::Err | LOp::Open) || r.chance(4) { break }
        }
        feed(&mut m, &mut done, c, false);
        s.push(c);
    }
    // close what is open, most of the time
    if !r.chance(12) {
        for _ in 0..6 {
            let row = t.row(m, t.end, hints.get(done).cloned().unwrap_or((false, false)));
            if !matches!(row.op, LOp::Err | LOp::Open) { break }
            for c in ['\'', '"', '`', '/', '*', '0', '}', 'a', ']'] {
                let op = feed(&mut m, &mut done, c, true);
                if matches!(op, LOp::Inc) || (c != 'a' && matches!(op, LOp::Go) && r.chance(40)) { feed(&mut m, &mut done, c, false); s.push(c); break }
            }
        }
    }
    if r.chance(8) && s.len() > 1 { // disturb it
        let i = r.below(s.len());
        match r.below(3) { 0 => { s.remove(i); } 1 => { let c = s[r.below(s.len())]; s.insert(i, c); } _ => { let j = r.below(s.len()); s.swap(i, j); } }
    }
    s.into_iter().collect()
}

/// Hints per request, from hints per character (the hint in force where the token starts).
pub fn request_hints(t: &LexTable, text: &[char], per_char: &[H]) -> Vec<H> {
    let mut hs: Vec<H> = vec![];
    loop {
        // the next token's start does not depend on its own hint
        let (toks, end) = run(t, text, &hs, None);
        let n = hs.len();
        let s = if n < toks.len() { toks[n].s } else if end == End::Done { return hs } else {
            let mut s = toks.last().map_or(0, |t| t.e);
            while s < text.len() && t.row(t.start, t.class(text[s]), (false, false)).op == LOp::Skip { s += 1 }
            s
        };
        hs.push(per_char.get(s).cloned().unwrap_or((false, false)));
        if n >= toks.len() || hs.len() > text.len() + 1 { return hs }
    }
}

pub const ENDINGS: &[&str] = &["", "'", "\"", "`", "/", "*/", "0", "7", "9", "a", "g", "e", "e1", "x", "}", "]", "]/", "{", "${", "\n", "\r\n", "\u{2028}", " ", "\\", "\\'", "\\\"", "\\`", ".", "=", ">", ".5", "0}'", "0}\"", "0}`", "41'", "041\"", "0041`", "\u{1F600}", "$", "\u{a0}a"];

/// Replays what TLC wrote: complete texts (T) with their tokens, and edges (E) to continue.
/// Returns an error if this engine reads a text otherwise than TLC did.
pub fn replay(t: &mut LexTester, path: &str, part: (usize, usize)) -> Result<(), String> {
    let tb = t.tb;
    let file = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    for (ln, line) in file.lines().enumerate() {
        if ln % part.1 != part.0 { continue }
        let f: Vec<&str> = line.split('\t').collect();
        let chars: Vec<char> = f[1].split(' ').filter(|s| !s.is_empty()).map(|s| char::from_u32(s.parse().unwrap()).unwrap()).collect();
        let hints: Vec<H> = f[2].split(' ').filter(|s| !s.is_empty()).map(|s| (s.as_bytes()[0] == b'e', s.as_bytes()[1] == b't')).collect();
        if f[0] == "T" {
            let (toks, end) = run(tb, &chars, &hints, None);
            let st = match end { End::Done => "done", End::Err => "err", End::Open => "open" };
            let w: Vec<&str> = f[4].split(' ').filter(|s| !s.is_empty()).collect();
            let text: String = chars.iter().collect();
            let pos = positions(&text);
            let mut mine = vec![];
            for x in &toks {
                let k = &tb.kinds[x.kind as usize];
                let piece: String = chars[x.s..x.e].iter().collect();
                let (a, _, num) = payload(k, &piece);
                let (p, q) = (pos[x.s], pos[x.e]);
                mine.push((k.clone(), vec![x.s, x.e, p.off, p.line, p.col, q.off, q.line, q.col], a, num));
            }
            let same = st == f[3] && w.len() == mine.len() * 12 && mine.iter().enumerate().all(|(i, m)| {
                let g = &w[i * 12..];
                let n: Vec<i64> = g[1..12].iter().map(|s| s.parse().unwrap()).collect();
                let a: String = chars[n[8] as usize..n[9] as usize].iter().collect();
                g[0] == m.0 && m.1.iter().zip(&n).all(|(a, b)| *a as i64 == *b) && a == m.2 && (n[10] < 0 || n[10] as f64 == m.3)
            });
            if !same { return Err(format!("engine and TLC differ on {:?} {:?}: {} {:?} / {}", text, hints, st, mine, line)) }
            t.stats.add("replay:texts");
            t.case(&text, &hints);
        } else {
            t.stats.add("replay:edges");
            for e in ENDINGS {
                let mut cs = chars.clone(); cs.extend(e.chars());
                let hs = request_hints(tb, &cs, &hints);
                let text: String = cs.iter().collect();
                t.case(&text, &hs);
                if t.viol.len() >= 3 { return Ok(()) }
            }
        }
        if t.viol.len() >= 3 { return Ok(()) }
    }
    Ok(())
}

/// How many rows of the table a text can use.
pub fn reachable_rows(t: &LexTable) -> usize {
    t.modes.len() * t.classes.len() + 3 * t.classes.len()
}
