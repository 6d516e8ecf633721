//! Runs the real tokenizer and parser, recording what they do.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use jsparse::verif_hooks::{Hint, Position, TokenRange};
use jsparse::verif_hooks::tokens::*;
use jsparse::{IntoTokenizer, Tokenizer};
use crate::render::{Pos, Seen};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome { Accept, ParseErr, LexErr, Crash, OverRead, Hang }
impl Outcome {
    pub fn rejected(self) -> bool { matches!(self, Outcome::ParseErr | Outcome::LexErr) }
    pub fn name(self) -> &'static str { match self { Outcome::Accept => "accept", Outcome::ParseErr => "parse-error", Outcome::LexErr => "lexical-error", Outcome::Crash => "crash", Outcome::OverRead => "over-read", Outcome::Hang => "hang" } }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec { pub expr: bool, pub tpl: bool, pub known_hint: bool, pub seen: Seen }

#[derive(Default)]
struct Log { recs: Vec<Rec>, in_lex: bool, past: u32, msg: String, bt: String, over: bool, limit: usize }
thread_local! { static LOG: RefCell<Log> = RefCell::new(Log::default()); }

/// The panic reports an `Err` the parser returned.
fn of_an_error(msg: &str) -> bool { ["on an `Err` value", "ParseError", "ErrorMessage", "UnexpectedToken"].iter().any(|x| msg.contains(x)) }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LOG.try_with(|l| if let Ok(mut l) = l.try_borrow_mut() {
            if !l.in_lex && !l.over && !of_an_error(&msg) {
                l.bt = std::backtrace::Backtrace::force_capture().to_string();
            }
            l.msg = format!("{} ({})", msg, loc);
            if std::env::var_os("CONFORM_SHOW").is_some() { eprintln!("panic: {}", l.msg); }
        });
    }));
}

pub fn punct_text(p: &PunctuatorToken) -> &'static str {
    use PunctuatorToken::*;
    match p {
        CurlyOpen => "{", CurlyClose => "}", ParenOpen => "(", ParenClose => ")", SquareOpen => "[", SquareClose => "]",
        Semicolon => ";", Comma => ",", Tilde => "~", Question => "?", Colon => ":", Period => ".", Ellipsis => "...",
        LAngle => "<", LAngleEq => "<=", LAngleAngle => "<<", LAngleAngleEq => "<<=", LAngleExclamDashDash => "<!--",
        RAngle => ">", RAngleEq => ">=", RAngleAngle => ">>", RAngleAngleEq => ">>=", RAngleAngleAngle => ">>>", RAngleAngleAngleEq => ">>>=",
        Exclam => "!", ExclamEq => "!=", ExclamEqEq => "!==", Eq => "=", Arrow => "=>", EqEq => "==", EqEqEq => "===",
        Plus => "+", PlusEq => "+=", PlusPlus => "++", Minus => "-", MinusEq => "-=", MinusMinus => "--", MinusMinusAngle => "-->",
        Percent => "%", PercentEq => "%=", Star => "*", StarEq => "*=", StarStar => "**", StarStarEq => "**=",
        Slash => "/", SlashEq => "/=", Amp => "&", AmpAmp => "&&", AmpEq => "&=", Bar => "|", BarBar => "||", BarEq => "|=",
        Caret => "^", CaretEq => "^=",
    }
}
pub fn punct_token(s: &str) -> Option<PunctuatorToken> {
    use PunctuatorToken::*;
    Some(match s {
        "{" => CurlyOpen, "}" => CurlyClose, "(" => ParenOpen, ")" => ParenClose, "[" => SquareOpen, "]" => SquareClose,
        ";" => Semicolon, "," => Comma, "~" => Tilde, "?" => Question, ":" => Colon, "." => Period, "..." => Ellipsis,
        "<" => LAngle, "<=" => LAngleEq, "<<" => LAngleAngle, "<<=" => LAngleAngleEq,
        ">" => RAngle, ">=" => RAngleEq, ">>" => RAngleAngle, ">>=" => RAngleAngleEq, ">>>" => RAngleAngleAngle, ">>>=" => RAngleAngleAngleEq,
        "!" => Exclam, "!=" => ExclamEq, "!==" => ExclamEqEq, "=" => Eq, "=>" => Arrow, "==" => EqEq, "===" => EqEqEq,
        "+" => Plus, "+=" => PlusEq, "++" => PlusPlus, "-" => Minus, "-=" => MinusEq, "--" => MinusMinus,
        "%" => Percent, "%=" => PercentEq, "*" => Star, "*=" => StarEq, "**" => StarStar, "**=" => StarStarEq,
        "/" => Slash, "/=" => SlashEq, "&" => Amp, "&&" => AmpAmp, "&=" => AmpEq, "|" => Bar, "||" => BarBar, "|=" => BarEq,
        "^" => Caret, "^=" => CaretEq,
        _ => return None,
    })
}

/// Templates without escapes and carriage returns: what they stand for is what is written.
pub fn plain(raw: &str) -> bool { !raw.contains('\\') && !raw.contains('\r') }

pub fn seen(t: &Token, r: &TokenRange) -> Seen {
    let p = |p: &Position| Pos { off: p.offset, line: p.line, col: p.column };
    let (start, end) = (p(&r.start), p(&r.end));
    let mk = |kind: &str, a: &str, b: &str, num: f64| Seen { kind: kind.into(), a: a.into(), b: b.into(), num, start, end };
    match t {
        Token::Punctuator(p) => mk(punct_text(p), "", "", 0.0),
        Token::Comment(c) => mk(match c.format { CommentFormat::Line => "lcom", CommentFormat::Block => "bcom", CommentFormat::HTMLOpen => "hopen", CommentFormat::HTMLClose => "hclose" }, &c.value, "", 0.0),
        Token::Whitespace(_) => mk("ws", "", "", 0.0),
        Token::LineTerminator(_) => mk("lt", "", "", 0.0),
        Token::RegularExpressionLiteral(r) => mk("re", &r.pattern, &r.flags, 0.0),
        Token::IdentifierName(i) => mk("word", &i.name, "", 0.0),
        Token::NumericLiteral(n) => mk("num", "", "", n.value),
        Token::StringLiteral(s) => mk("str", &s.value, "", 0.0),
        Token::Template(t) => {
            let k = match t.format { TemplateFormat::NoSubstitution => "tplN", TemplateFormat::Head => "tplH", TemplateFormat::Middle => "tplM", TemplateFormat::Tail => "tplT" };
            mk(k, &t.raw, if plain(&t.raw) { &t.cooked } else { "" }, 0.0)
        }
        Token::EOF(_) => mk("eof", "", "", 0.0),
    }
}

pub fn hint(expr: bool, tpl: bool) -> Hint { Hint::default().expression(expr).template(tpl) }
fn read_hint(h: &Hint) -> (bool, bool, bool) {
    for strict in [false, true] { for e in [false, true] { for t in [false, true] {
        if *h == hint(e, t).strict(strict) { return (e, t, true) }
    } } }
    (false, false, false)
}

#[derive(Debug, Clone)]
pub struct Recorder<T> { inner: T }
impl<'c, T: Tokenizer<'c>> Tokenizer<'c> for Recorder<T> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let (tok, range) = out;
        let (expr, tpl, known_hint) = read_hint(h);
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.past > 0 || l.recs.len() >= l.limit { l.past += 1; if l.past > 64 { l.over = true; drop(l); panic!("over-read"); } }
            l.in_lex = true;
        });
        self.inner.next_token(h, (&mut *tok, &mut *range));
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.in_lex = false;
            let s = seen(tok, range);
            if s.kind == "eof" { if l.past == 0 { l.past = 1; } }
            l.recs.push(Rec { expr, tpl, known_hint, seen: s });
        });
    }
}
struct Src<S>(S);
impl<'c, S: IntoTokenizer<'c>> IntoTokenizer<'c> for Src<S> {
    type Item = Recorder<S::Item>;
    fn into_tokenizer(self) -> Recorder<S::Item> { Recorder { inner: self.0.into_tokenizer() } }
}

#[derive(Debug, Clone)]
pub struct Stub { toks: std::rc::Rc<Vec<(Token<'static>, bool)>>, at: usize, line: usize }
impl<'c> Tokenizer<'c> for Stub {
    fn next_token(&mut self, _h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let i = self.at;
        let p = |line: usize| Position { offset: i, line, column: i };
        if i >= self.toks.len() { *out.0 = EOFToken {}.into(); *out.1 = TokenRange { start: p(self.line), end: p(self.line) }; return }
        *out.0 = match &self.toks[i] {
            (Token::Comment(c), true) => CommentToken { format: c.format.clone(), value: "c\nc".into() }.into(),
            (t, _) => t.clone(),
        };
        *out.1 = TokenRange { start: p(self.line), end: p(self.line + self.toks[i].1 as usize) };
        if self.toks[i].1 { self.line += 1; }
        self.at += 1;
    }
}
struct StubSrc(Stub);
impl<'c> IntoTokenizer<'c> for StubSrc { type Item = Recorder<Stub>; fn into_tokenizer(self) -> Recorder<Stub> { Recorder { inner: self.0 } } }

/// A line of a backtrace that names one of the parser's functions, the outermost excepted.
fn inside_parser(line: &str) -> bool {
    if line.trim_start().starts_with("at ") { return false }
    let mut s = line.to_string();
    for own in ["parse_root", "parse_text", "parse_stub"] { s = s.replace(own, ""); }
    s.contains("parse_") || s.contains("jsparse::parser") && !s.contains("from_tokenizer")
}

pub struct Run { pub outcome: Outcome, pub recs: Vec<Rec>, pub over: bool, pub msg: String }
impl Run {
    pub fn significant(&self) -> Vec<&Seen> { self.recs.iter().map(|r| &r.seen).filter(|s| !matches!(s.kind.as_str(), "ws" | "lt" | "lcom" | "bcom")).collect() }
}

fn finish(r: Result<(), Box<dyn std::any::Any + Send>>) -> Run {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let l = &mut *l;
        let outcome = match r {
            Ok(()) => Outcome::Accept,
            Err(_) => if l.over { Outcome::OverRead }
                else if l.in_lex { Outcome::LexErr }
                else if of_an_error(&l.msg) { Outcome::ParseErr }
                else if l.bt.lines().any(inside_parser) { Outcome::Crash }
                else { Outcome::ParseErr }
        };
        l.in_lex = false;
        Run { outcome, recs: std::mem::take(&mut l.recs), over: l.past > 1, msg: std::mem::take(&mut l.msg) }
    })
}
fn start(limit: usize) { LOG.with(|l| { *l.borrow_mut() = Log { limit, ..Log::default() } }) }

pub fn parse_text(s: &str) -> Run {
    start(s.len() * 2 + 16);
    let r = catch_unwind(AssertUnwindSafe(|| jsparse::parser::parse_root::<_, ()>(Src(s))));
    finish(r)
}
pub fn parse_stub(toks: Vec<(Token<'static>, bool)>) -> Run {
    start(toks.len() + 1);
    let st = Stub { toks: std::rc::Rc::new(toks), at: 0, line: 1 };
    let r = catch_unwind(AssertUnwindSafe(|| jsparse::parser::parse_root::<_, ()>(StubSrc(st))));
    finish(r)
}
pub fn stub_token(class: &str) -> Token<'static> {
    if let Some(p) = punct_token(class) { return Token::Punctuator(p) }
    match class {
        "num" => NumericLiteralToken { value: 1.0 }.into(),
        "str" => StringLiteralToken { value: "s".into() }.into(),
        "re" => RegularExpressionLiteralToken { pattern: "r".into(), flags: "".into() }.into(),
        "tplN" | "tplH" | "tplM" | "tplT" => TemplateToken { format: match class { "tplN" => TemplateFormat::NoSubstitution, "tplH" => TemplateFormat::Head, "tplM" => TemplateFormat::Middle, _ => TemplateFormat::Tail }, cooked: "t".into(), raw: "t".into() }.into(),
        "eof" => EOFToken {}.into(),
        "lt" => LineTerminatorToken {}.into(),
        "ws" => WhitespaceToken {}.into(),
        "lcom" => CommentToken { format: CommentFormat::Line, value: "c".into() }.into(),
        "bcom" => CommentToken { format: CommentFormat::Block, value: "c".into() }.into(),
        "id" => IdentifierNameToken { name: "a".into() }.into(),
        "sres" => IdentifierNameToken { name: "interface".into() }.into(),
        w => IdentifierNameToken { name: w.to_string().into() }.into(),
    }
}

/// What a tokenizer says when asked repeatedly with the given hints; None: it refused.
/// The caller's out parameters hold nothing, the last answer, or something else: it must not matter.
pub struct Lexer<'c> { inner: <&'c str as IntoTokenizer<'c>>::Item, out: (Token<'c>, TokenRange), n: usize }
pub fn lexer<'c>(s: &'c str) -> Lexer<'c> { Lexer { inner: s.into_tokenizer(), out: Default::default(), n: s.len() } }
const DIRT: &[&str] = &["re", "id", "num", "str", "tplH", "lt", "bcom", ")", "}", "/", "eof"];
impl<'c> Lexer<'c> {
    pub fn next(&mut self, expr: bool, tpl: bool, strict: bool) -> Option<Seen> {
        LOG.with(|l| { let mut l = l.borrow_mut(); l.in_lex = true; });
        self.n += 1;
        match self.n % 3 {
            0 => self.out = Default::default(),
            1 => {}
            _ => { let p = |k: usize| Position { offset: self.n + k, line: self.n, column: 7 * k };
                   self.out = (stub_token(DIRT[self.n / 3 % DIRT.len()]), TokenRange { start: p(3), end: p(1) }); }
        }
        let h = hint(expr, tpl).strict(strict);
        let (inner, out) = (&mut self.inner, &mut self.out);
        catch_unwind(AssertUnwindSafe(|| inner.next_token(&h, (&mut out.0, &mut out.1)))).ok()?;
        Some(seen(&out.0, &out.1))
    }
}
