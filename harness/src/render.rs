//! Program text for a sequence of token events, and what the tokenizer must say about it.
use crate::gram::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Pos { pub off: usize, pub line: usize, pub col: usize }

#[derive(Clone, PartialEq, Debug)]
pub struct Seen { pub kind: String, pub a: String, pub b: String, pub num: f64, pub start: Pos, pub end: Pos }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style { Plain, Varied, Dense }

const WORDS: &[&str] = &["a", "b", "x1", "$", "_", "foo", "awaiting", "yields", "letter", "asyncs", "get1", "instanceof1", "in_", "typeofx",
    "New", "THIS", "If", "$in", "of_", "doo", "iff", "returned", "functions", "classes", "e1", "x", "thrown", "newtarget", "falsey", "nulls", "d", "g", "i"];
const SRES: &[&str] = &["implements", "interface", "package", "private", "protected", "public"];
const NUMS: &[(&str, f64)] = &[("0", 0.0), ("1", 1.0), ("42", 42.0), ("0x1F", 31.0), ("0Xabc", 2748.0), ("0b101", 5.0), ("0o17", 15.0), ("1.5", 1.5), (".5", 0.5),
    ("5.", 5.0), ("1e3", 1000.0), ("2E+2", 200.0), ("25e-1", 2.5), ("0.25", 0.25), ("0e0", 0.0)];
const STRS: &[(&str, &str)] = &[("''", ""), ("\"\"", ""), ("'a'", "a"), ("\"b c\"", "b c"), ("'\"'", "\""), ("\"'\"", "'"), ("'\\''", "\\'"), ("\"\\\"\"", "\\\""),
    ("'\\\\'", "\\\\"), ("'/*'", "/*"), ("'//'", "//"), ("\"`${\"", "`${"), ("'}'", "}"), ("'\\u0041\\x41'", "\\u0041\\x41"), ("'\u{e9}\u{1F600}'", "\u{e9}\u{1F600}"), ("'use strict'", "use strict")];
const RES: &[(&str, &str)] = &[("a", ""), ("a", "g"), ("[/]", ""), ("\\/", "i"), ("(", ""), ("[\\]/]", "gi"), ("=", ""), ("=a", "m"), (" ", ""), ("'", ""), ("\"", "u"), ("`", ""), ("}", ""), ("a*", "y"), ("[`${}]", "g"), ("\u{e9}", "")];
const TPLS: &[&str] = &["", "a", "$", "\\`", "\\${", "}", "{", "{}", "'", "\"", "/", "//", "/*", "$$", "\\\\", "a\nb", "\u{1F600}", "$ {", "\r\n"];

const WS: &[&str] = &[" ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "  ", "/**/", "/* c */", "/***/", "/* // */", "/*'\"`${}*/", " /*/*/ "];
const LT: &[&str] = &["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "//\n", "// c\r\n", "/*\n*/", "/* a\r */ ", "/*\u{2028}*/", "\n\n", " \n\t", "//*\n", "// '`/*\u{2029}"];

pub struct Renderer<'t> { pub tb: &'t Table, pub puncts: Vec<String>, near: Vec<String> }
pub struct Text { pub s: String, pub toks: Vec<Seen> }

fn is_word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '$' || c == '_' || c == '\\' || (!c.is_ascii() && c.is_alphanumeric()) }

impl<'t> Renderer<'t> {
    pub fn new(tb: &'t Table) -> Renderer<'t> {
        let mut puncts: Vec<String> = tb.toks.iter().filter(|s| !s.chars().next().unwrap().is_ascii_alphabetic()).cloned().collect();
        puncts.push("//".into()); puncts.push("/*".into()); puncts.push("<!--".into()); puncts.push("-->".into());
        // ordinary names that resemble words with a meaning
        let words: Vec<&String> = tb.toks.iter().filter(|s| s.len() > 1 && s.chars().all(|c| c.is_ascii_alphabetic())).collect();
        let mut near: Vec<String> = vec![];
        for w in &words {
            let cap = w[..1].to_uppercase() + &w[1..];
            let mut last = w.to_string(); let l = last.pop().unwrap(); last.push_str(&l.to_string().to_uppercase());
            for n in vec![cap, w.to_uppercase(), last, format!("{}s", w), format!("{}_", w), format!("{}$", w), format!("{}0", w), format!("_{}", w), format!("x{}", w), w[..w.len() - 1].to_string(), w[1..].to_string(), format!("{}{}", w, w)] {
                if !tb.toks.contains(&n) && !SRES.contains(&n.as_str()) && !near.contains(&n) && n != "arguments" && n != "eval" { near.push(n) }
            }
        }
        Renderer { tb, puncts, near }
    }
    pub fn needs_sep(&self, prev: &str, next: &str) -> bool {
        let (p, n) = match (prev.chars().last(), next.chars().next()) { (Some(p), Some(n)) => (p, n), _ => return false };
        if is_word(p) && is_word(n) { return true }
        if prev.chars().next().unwrap().is_ascii_digit() || (prev.starts_with('.') && prev.len() > 1 && prev != "...") { if n == '.' || is_word(n) { return true } }
        if prev.starts_with('/') && prev.len() > 2 && is_word(n) { return true }
        if p == '.' && (n.is_ascii_digit() || n == '.') { return true }
        if p == '/' && (n == '/' || n == '*' || n == '=') { return true }
        if self.puncts.iter().any(|q| q == prev) || prev == "!--" {
            let mut s = prev.to_string(); s.push(n);
            if self.puncts.iter().any(|q| q.starts_with(&s)) { return true }
        }
        if p == '<' && n == '!' { return true }
        if p == '-' && (n == '-' || n == '>') { return true }
        false
    }
    /// The spelling and payload of one token.
    pub fn spell(&self, r: &mut Rng, c: Tok, style: Style, fresh: &mut usize) -> (String, Seen) {
        let name = self.tb.toks[c as usize].as_str();
        let z = Pos::default();
        let plain = style == Style::Plain;
        let mk = |kind: &str, a: &str, b: &str, num: f64| Seen { kind: kind.into(), a: a.into(), b: b.into(), num, start: z, end: z };
        match name {
            "id" => {
                let w = if plain { *fresh += 1; format!("a{}", fresh) } else if r.chance(20) { *fresh += 1; format!("{}{}", r.pick(WORDS), fresh) } else if r.chance(40) { r.pick(&self.near).clone() } else { r.pick(WORDS).to_string() };
                (w.clone(), mk("word", &w, "", 0.0))
            }
            "sres" => { let w = *r.pick(SRES); (w.into(), mk("word", w, "", 0.0)) }
            "num" => { let (t, v) = if plain { NUMS[1] } else { *r.pick(NUMS) }; (t.into(), mk("num", "", "", v)) }
            "str" => { let (t, v) = if plain { STRS[2] } else { *r.pick(STRS) }; (t.into(), mk("str", v, "", 0.0)) }
            "re" => { let (p, f) = if plain { RES[1] } else { *r.pick(RES) }; (format!("/{}/{}", p, f), mk("re", p, f, 0.0)) }
            "tplN" | "tplH" | "tplM" | "tplT" => {
                let t = if plain { TPLS[1] } else { *r.pick(TPLS) };
                // a chunk that ends in an open dollar would swallow the brace after it
                let (o, e) = match name { "tplN" => ("`", "`"), "tplH" => ("`", "${"), "tplM" => ("}", "${"), _ => ("}", "`") };
                (format!("{}{}{}", o, t, e), mk(name, t, if crate::real::plain(t) { t } else { "" }, 0.0))
            }
            "eof" => (String::new(), mk("eof", "", "", 0.0)),
            w if w.chars().next().unwrap().is_ascii_alphabetic() => (w.to_string(), mk("word", w, "", 0.0)),
            p => (p.to_string(), mk(p, "", "", 0.0)),
        }
    }
    pub fn trivia(&self, r: &mut Rng, nl: bool, need: bool, style: Style) -> String {
        match style {
            Style::Plain => if nl { "\n".into() } else if need { " ".into() } else { " ".into() },
            Style::Dense => if nl { "\n".into() } else if need { " ".into() } else { String::new() },
            Style::Varied => {
                let mut s = String::new();
                if nl {
                    if r.chance(20) { s.push_str(*r.pick(WS)); }
                    s.push_str(*r.pick(LT));
                    while r.chance(25) { s.push_str(if r.chance(50) { *r.pick(WS) } else { *r.pick(LT) }); }
                } else if need || r.chance(50) {
                    s.push_str(*r.pick(WS));
                    while r.chance(25) { s.push_str(*r.pick(WS)); }
                }
                s
            }
        }
    }
    pub fn render(&self, r: &mut Rng, w: &[Ev], style: Style) -> Text {
        let mut s = String::new();
        let mut pieces: Vec<(usize, usize, Seen)> = vec![];
        let mut prev = String::new();
        let mut fresh = 0usize;
        for (i, e) in w.iter().enumerate() {
            let (t, seen) = self.spell(r, e.c, style, &mut fresh);
            let need = i > 0 && self.needs_sep(&prev, &t);
            let triv = if i == 0 && !e.nl { if style == Style::Varied && r.chance(10) { self.trivia(r, false, false, style) } else { String::new() } }
                else {
                    let mut tv = self.trivia(r, e.nl, need, style);
                    // trivia that begins with a slash must not join a token before it
                    if tv.starts_with('/') && i > 0 && (prev.ends_with('/') || prev.ends_with('*')) { tv.insert(0, ' '); }
                    tv
                };
            // a line comment that is not closed by its own line terminator swallows what follows
            s.push_str(&triv);
            let a = s.len();
            s.push_str(&t);
            pieces.push((a, s.len(), seen));
            prev = t;
        }
        let pos = positions(&s);
        let toks = pieces.into_iter().map(|(a, b, mut z)| { z.start = at(&pos, a); z.end = at(&pos, b); z }).collect();
        Text { s, toks }
    }
}

/// Line and column of every character boundary, by definition: lines before it, code points since.
pub fn positions(s: &str) -> Vec<Pos> {
    let mut v = vec![];
    let (mut line, mut col) = (1, 0);
    let mut prev = '\0';
    for (i, c) in s.char_indices() {
        v.push(Pos { off: i, line, col });
        match c {
            '\n' if prev == '\r' => {}
            '\n' | '\r' | '\u{2028}' | '\u{2029}' => { line += 1; col = 0; }
            _ => col += 1,
        }
        prev = c;
    }
    v.push(Pos { off: s.len(), line, col });
    v
}
pub fn at(v: &[Pos], off: usize) -> Pos {
    match v.binary_search_by(|p| p.off.cmp(&off)) { Ok(i) => v[i], Err(_) => Pos { off, line: 0, col: 0 } }
}
