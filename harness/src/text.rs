//! JsProgram: tokenizer and parser together, on the characters of a text.
use crate::gram::*;
use crate::lex::{self, LOp, LTok, LexTable};
use crate::parse::{Cfg, Tester, Violation};
use crate::real::Outcome;
use crate::render::{positions, Seen, Style, Text};
use crate::rng::Rng;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop { Done, Dead, Refused, Open, Many }
pub struct Composed { pub stop: Stop, pub verdict: Verdict, pub toks: Vec<LTok> }

/// Reads a text as JsProgram.tla does.
pub fn compose(lt: &LexTable, eng: &mut Engine, text: &[char]) -> Composed {
    let tb = eng.tb;
    let mut x = eng.init();
    let (mut m, mut s, mut i, mut nl, mut soft) = (lt.start, 0usize, 0usize, false, false);
    let mut toks: Vec<LTok> = vec![];
    let mut hint: Option<(bool, bool)> = None;
    let open = |toks| Composed { stop: Stop::Open, verdict: Verdict::Open, toks };
    loop {
        let c = text.get(i);
        let k = c.map_or(lt.end, |c| lt.class(*c));
        let h = if m == lt.start {
            if c == Some(&'/') && !eng.clear(x, true) || c == Some(&'}') && !eng.clear(x, false) { return open(toks) }
            *hint.get_or_insert_with(|| (!eng.slash_is_div(x), eng.brace_is_tpl(x)))
        } else { (false, false) };
        let r = lt.row(m, k, h);
        let tok = match r.op {
            LOp::Go => { m = r.to; i += 1; continue }
            LOp::Skip => { i += 1; s = i; continue }
            LOp::Err => return Composed { stop: Stop::Refused, verdict: Verdict::Reject, toks },
            LOp::Open => return open(toks),
            LOp::May if lt.kinds[r.kind as usize] == "word" => return open(toks),
            LOp::Inc => { i += 1; LTok { kind: r.kind, s, e: i, may: false } }
            LOp::Tok | LOp::May | LOp::Eof => LTok { kind: r.kind, s, e: i, may: r.op == LOp::May },
            LOp::Back => LTok { kind: r.kind, s, e: i - 1, may: false },
        };
        m = if r.op == LOp::Back { lt.dot } else { lt.start };
        s = if r.op == LOp::Back { i - 1 } else { i };
        soft |= tok.may;
        let kind = lt.kinds[tok.kind as usize].as_str();
        match kind {
            "lt" => { nl = true; continue }
            "bcom" | "lcom" => { nl |= text[tok.s..tok.e].iter().any(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')); continue }
            _ => {}
        }
        let t = if kind == "word" { let w: String = text[tok.s..tok.e].iter().collect(); tb.t(&crate::parse::word_class(tb, &w)) } else { tb.t(kind) };
        toks.push(tok);
        x = eng.feed(x, Ev { c: t, nl });
        nl = false; hint = None;
        if x == 0 { return Composed { stop: Stop::Dead, verdict: Verdict::Reject, toks } }
        if eng.size(x) > MANY { return Composed { stop: Stop::Many, verdict: Verdict::Open, toks } }
        if t == eng.eof {
            let v = eng.verdict(x);
            return Composed { stop: Stop::Done, verdict: if v == Verdict::Accept && soft { Verdict::Open } else { v }, toks }
        }
    }
}

/// What a text is changed with.
const BITS: &[&str] = &["/", "/", "}", "{", "(", ")", "[", "]", "`", "${", "$", "'", "\"", "\\", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", ";", ",", ".", "=", "+", "-", "*",
    ">", "<", "!", "?", ":", "&", "|", "a", "1", "0", "e", "x", " ", " ", "\t", "\u{a0}", "\u{feff}", "/*", "*/", "//", "/**/", "/*\n*/", "=>", "--", "++", "-->", "<!--", "...", "of", "in", "async ", "await ", "yield ",
    "return ", "get ", "static ", "let ", "new ", "function ", "class ", "#", "@", "\u{e9}", "\\u0061", "**", "/=", "/a/", "/a/g", "a/", "''", "``", "1.", ".1", "0x", "1e", "}`", "`${", "case ", "default", "else ", "while ", "export ", "import ", "from ", "as "];

pub fn near(r: &mut Rng, text: &[char], other: &[char]) -> Vec<char> {
    let mut v = text.to_vec();
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        let i = r.below(n + 1);
        // close to a slash, brace, quote or line end more often
        let i = if r.chance(40) {
            let at: Vec<usize> = (0..n).filter(|&j| matches!(v[j], '/' | '}' | '{' | '`' | '$' | '\n' | '\r' | '\'' | '"' | '\\' | '(' | ')' | '*')).collect();
            if at.is_empty() { i } else { (r.pick(&at) + r.below(2)).min(n) }
        } else { i };
        match r.below(10) {
            0 | 1 if i < n => { v.remove(i); }
            2 if i + 1 < n => { v.swap(i, i + 1); }
            3 if i < n => { let c = v[i]; v.insert(i, c); }
            4 if i < n => { let b: Vec<char> = r.pick(BITS).chars().collect(); v.splice(i..i + 1, b); }
            5 if i < n => { let k = 1 + r.below(6); v.drain(i..(i + k).min(n)); }
            6 if i < n && !other.is_empty() => { let a = r.below(other.len()); let k = 1 + r.below(12); let b = other[a..(a + k).min(other.len())].to_vec(); v.splice(i..i, b); }
            7 => { // all white space around here
                let mut a = i; while a > 0 && v[a - 1].is_whitespace() { a -= 1 }
                let mut b = i; while b < v.len() && v[b].is_whitespace() { b += 1 }
                let with: Vec<char> = r.pick(&["", "", " ", "\n", "/**/", "//\n", "/*\n*/"]).chars().collect();
                v.splice(a..b, with);
            }
            _ => { let b: Vec<char> = r.pick(BITS).chars().collect(); v.splice(i..i, b); }
        }
    }
    v
}

impl<'t> Tester<'t> {
    fn wanted(&mut self, lt: &LexTable, chars: &[char]) -> Option<(bool, Text)> {
        self.eng.trim();
        let c = compose(lt, &mut self.eng, chars);
        let acc = match c.verdict { Verdict::Accept => true, Verdict::Reject => false, Verdict::Open => return None };
        let s: String = chars.iter().collect();
        let mut toks = vec![];
        if acc {
            let mut off: Vec<usize> = s.char_indices().map(|x| x.0).collect();
            off.push(s.len());
            let pos = positions(&s);
            for t in &c.toks {
                let kind = lt.kinds[t.kind as usize].as_str();
                let (a, b, num) = lex::payload(kind, &s[off[t.s]..off[t.e]]);
                toks.push(Seen { kind: kind.into(), a, b, num, start: pos[t.s], end: pos[t.e] });
            }
        }
        Some((acc, Text { s, toks }))
    }
    /// A text against JsProgram; true if it is right or nothing is said about it.
    pub fn text_case(&mut self, lt: &LexTable, chars: &[char], op: &str) -> bool {
        let Some((acc, t)) = self.wanted(lt, chars) else { self.stats.add(&format!("{}:open", op)); return true };
        self.stats.add(&format!("{}:{}", op, if acc { "accept" } else { "reject" }));
        if self.dump { println!("{}\t{:?}", acc, t.s); return true }
        let Some((what, mut detail)) = self.text_wrong(&t, acc) else { return true };
        let mut cs = chars.to_vec();
        let since = std::time::Instant::now();
        let mut n = (cs.len() / 2).max(1);
        let mut go = true;
        while go && since.elapsed().as_secs() < 30 {
            go = false;
            loop {
                let mut i = 0;
                while i + n <= cs.len() && since.elapsed().as_secs() < 30 {
                    let mut v = cs.clone();
                    v.drain(i..i + n);
                    if let Some((a, t)) = self.wanted(lt, &v) {
                        if a == acc { if let Some((w, d)) = self.text_wrong(&t, a) { if w == what { cs = v; detail = d; go = true; continue } } }
                    }
                    i += 1;
                }
                if n == 1 { break }
                n /= 2;
            }
        }
        self.viol.push(Violation { what: format!("{} ({})", what, op), text: cs.iter().collect(), toks: String::new(), expect: if acc { "accept".into() } else { "reject".into() }, got: format!("{} {}", what, detail) });
        false
    }
    fn text_wrong(&mut self, t: &Text, acc: bool) -> Option<(String, String)> {
        let (what, detail) = self.compare(t, acc)?;
        if what != "tokens" { return Some((what, detail)) }
        // numbers far out are judged as L04 says
        let run = crate::real::parse_text(&t.s);
        if run.outcome != Outcome::Accept { return Some((what, detail)) }
        let got = run.significant();
        let mut want = t.toks.clone();
        for (w, g) in want.iter_mut().zip(got.iter()) {
            if w.kind == "num" && g.kind == "num" && lex::num_ok(&t.s[w.start.off..w.end.off], g.num, w.num) { w.num = g.num; }
        }
        crate::parse::diff_tokens(&want, &got).map(|d| (what, d))
    }
    /// Programs of the grammar as texts, and texts close to them.
    pub fn texts(&mut self, lt: &LexTable, r: &mut Rng, cfg: &Cfg, times: usize, least: usize, stop: &AtomicBool, hard: &AtomicBool) {
        let mut pool: Vec<Vec<char>> = vec![];
        for j in 0..times {
            if self.viol.len() >= 3 || hard.load(Ordering::Relaxed) || (stop.load(Ordering::Relaxed) && j >= least) { break }
            self.eng.trim();
            let mut g = crate::gen::Gen::new(self.tb);
            g.nl = if r.chance(cfg.nl_heavy) { 40 } else { 5 };
            g.asi = if r.chance(cfg.nl_heavy) { 60 } else { 15 };
            let goal = if cfg.goals.is_empty() || r.chance(15) { None } else { Some(*r.pick(&cfg.goals)) };
            let depth = 2 + r.below(7) as i32;
            let w = g.program(r, depth, goal, cfg.cap.min(50));
            let style = match r.below(4) { 0 => Style::Plain, 1 | 2 => Style::Dense, _ => Style::Varied };
            let s: Vec<char> = self.rend.render(r, &w, style).s.chars().collect();
            if s.len() > 500 { continue }
            self.text_case(lt, &s, "text");
            let other = if pool.is_empty() { vec![] } else { r.pick(&pool).clone() };
            for _ in 0..cfg.per {
                let v = near(r, &s, &other);
                self.text_case(lt, &v, "near text");
                if self.viol.len() >= 3 { break }
            }
            if pool.len() < 200 { pool.push(s) } else { let k = r.below(200); pool[k] = s; }
        }
    }
    /// Replays the texts of MCProgram.  Err: TLC and `compose' differ.
    pub fn text_replay(&mut self, lt: &LexTable, path: &str, part: (usize, usize), stop: &AtomicBool) -> Result<(), String> {
        let file = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        for (ln, line) in file.lines().enumerate() {
            if ln % part.1 != part.0 { continue }
            if self.viol.len() >= 3 { break }
            if stop.load(Ordering::Relaxed) { self.stats.add("text replay:skipped"); continue }
            let f: Vec<&str> = line.split('\t').collect();
            let chars: Vec<char> = f[0].split(' ').filter(|s| !s.is_empty()).map(|n| char::from_u32(n.parse().unwrap()).unwrap()).collect();
            self.eng.trim();
            let c = compose(lt, &mut self.eng, &chars);
            if c.stop == Stop::Many { self.stats.add("text replay:too many readings"); continue }
            let off = |i: usize| chars[..i].iter().map(|c| c.len_utf8()).sum::<usize>();
            let toks = c.toks.iter().map(|t| format!("{}:{}-{}", lt.kinds[t.kind as usize], off(t.s), off(t.e))).collect::<Vec<_>>().join(" ");
            let v = match c.verdict { Verdict::Accept => "accept", Verdict::Reject => "reject", Verdict::Open => "open" };
            if v != f[1] || toks != f[2] { return Err(format!("compose and TLC differ on {:?}: {} {} / {} {}", chars.iter().collect::<String>(), v, toks, f[1], f[2])) }
            self.text_case(lt, &chars, "text replay");
        }
        Ok(())
    }
}
