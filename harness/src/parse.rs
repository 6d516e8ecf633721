//! Conformance of the parser: programs with the verdict of the specification.
use crate::gram::*;
use crate::gen::Gen;
use crate::real::*;
use crate::render::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub struct Violation { pub what: String, pub text: String, pub toks: String, pub expect: String, pub got: String }

#[derive(Default)]
pub struct Stats { pub n: BTreeMap<String, u64>, pub samples: Vec<String>, pub states: u64, pub feeds: u64 }
impl Stats {
    pub fn add(&mut self, k: &str) { *self.n.entry(k.to_string()).or_insert(0) += 1; }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n { *self.n.entry(k).or_insert(0) += v; }
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s) } }
        self.states += o.states; self.feeds += o.feeds;
    }
}

pub fn same_num(a: f64, b: f64) -> bool {
    if a == b { return true }
    if b != 0.0 && b.fract() == 0.0 && b.abs() < 9007199254740992.0 { return false }
    (a - b).abs() <= 1e-9 * b.abs()
}
/// First difference between the tokens expected and those seen (kind, payload, offsets).
pub fn diff_tokens(want: &[Seen], got: &[&Seen]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(w), Some(g)) => {
                if w.kind != g.kind || w.a != g.a || w.b != g.b || !same_num(g.num, w.num) || w.start.off != g.start.off || w.end.off != g.end.off {
                    return Some(format!("token {}: expected {} {:?}{:?} at {}..{}, got {} {:?}{:?} at {}..{}", i, w.kind, w.a, w.b, w.start.off, w.end.off, g.kind, g.a, g.b, g.start.off, g.end.off));
                }
            }
            (Some(w), None) => return Some(format!("token {} missing: {} at {}", i, w.kind, w.start.off)),
            (None, Some(g)) => return Some(format!("token {} extra: {} at {}", i, g.kind, g.start.off)),
            _ => {}
        }
    }
    None
}

pub struct Tester<'t> {
    pub tb: &'t Table, pub eng: Engine<'t>, pub rend: Renderer<'t>, pub stats: Stats, pub viol: Vec<Violation>, pub known: Vec<String>, pub hits: Vec<String>,
    pub slot: std::sync::Arc<crate::Slot>, pub record: Option<std::io::BufWriter<std::fs::File>>, pub record_left: usize, pub check_over: bool, pub dump: bool, pub whole: bool, pub seen: usize,
    pub ends: std::collections::HashMap<(Tok, Vec<Tok>), Vec<Vec<Ev>>>,
    /// ways found so far from a set of configurations back to itself
    pub loops: std::collections::HashMap<Set, Vec<Vec<Ev>>>,
}

impl<'t> Tester<'t> {
    /// The verdict of the specification; None where it says nothing or no text has these tokens.
    pub fn judge(&mut self, w: &[Ev]) -> Option<bool> {
        if w.iter().position(|t| t.c == self.eng.eof) != w.len().checked_sub(1) || w.is_empty() { return None }
        let mut x = self.eng.init();
        for &t in w {
            if !self.eng.possible(x, t) || !self.goal_clear(x, t) { return None }
            x = self.eng.feed(x, t);
            if x == 0 { return Some(false) }
            if self.eng.size(x) > MANY { return None }
        }
        match self.eng.verdict(x) { Verdict::Accept => Some(true), Verdict::Reject => Some(false), Verdict::Open => None }
    }
    fn goal_clear(&mut self, x: Set, t: Ev) -> bool {
        let k = self.tb.toks[t.c as usize].as_str();
        match k { "/" | "/=" | "re" => self.eng.clear(x, true), "}" | "tplM" | "tplT" => self.eng.clear(x, false), _ => true }
    }
    fn run_text(&self, s: &str) -> Run {
        self.slot.begin(s);
        let r = parse_text(s);
        self.slot.end();
        r
    }
    /// Compares the real parser with the verdict; returns what is wrong.
    pub fn compare(&mut self, text: &Text, accept: bool) -> Option<(String, String)> {
        let run = self.run_text(&text.s);
        if self.record_left > 0 && self.record.is_some() { if self.whole { self.write_whole(&run, &text.s) } else { self.write_trace(&run, &text.s) } }
        self.wrong(&run, text, accept)
    }
    fn wrong(&self, run: &Run, text: &Text, accept: bool) -> Option<(String, String)> {
        match run.outcome {
            Outcome::Crash => return Some(("crash".into(), run.msg.clone())),
            Outcome::OverRead => return Some(("over-read".into(), "keeps asking for tokens after the end".into())),
            Outcome::Hang => return Some(("hang".into(), String::new())),
            _ => {}
        }
        if self.check_over && run.over { return Some(("over-read".into(), "asked for a token after end of input".into())) }
        if accept && run.outcome != Outcome::Accept { return Some(("rejected".into(), run.msg.clone())) }
        if !accept && run.outcome == Outcome::Accept { return Some(("accepted".into(), String::new())) }
        if accept {
            if let Some(d) = diff_tokens(&text.toks, &run.significant()) { return Some(("tokens".into(), d)) }
        }
        None
    }
    /// One line for TraceParse.tla: how the parse ended, the text, and the requests with their answers.
    fn write_trace(&mut self, run: &Run, text: &str) {
        use std::io::Write;
        let v = match run.outcome { Outcome::Accept => "accept", Outcome::ParseErr => "reject", Outcome::LexErr => "refused", Outcome::Crash => "crash", Outcome::OverRead => "over-read", Outcome::Hang => "hang" };
        if run.recs.len() > 90 || text.len() > 600 { return }
        let mut s = format!("{{\"v\":\"{}\",\"t\":{},\"r\":[", v, crate::esc(text));
        for (i, r) in run.recs.iter().enumerate() {
            let k = r.seen.kind.as_str();
            let c = if k == "word" { word_class(self.tb, &r.seen.a) } else { k.to_string() };
            s.push_str(&format!("{}[{},{},{},{}]", if i > 0 { "," } else { "" }, crate::esc(&c), r.seen.start.line != r.seen.end.line, r.expr, r.tpl));
            if k == "eof" && !self.check_over { break }
        }
        s.push_str("]}\n");
        self.record_left -= 1;
        self.stats.add("traces recorded");
        let _ = self.record.as_mut().unwrap().write_all(s.as_bytes());
    }
    /// One line for TraceProgram.tla: the text, how the parse ended, and the requests with goal, kind and range of the answer.
    fn write_whole(&mut self, run: &Run, text: &str) {
        use std::io::Write;
        let v = match run.outcome { Outcome::Accept => "accept", Outcome::ParseErr => "reject", Outcome::LexErr => "refused", Outcome::Crash => "crash", Outcome::OverRead => "over-read", Outcome::Hang => "hang" };
        if run.recs.len() > 90 || text.len() > 300 { return }
        self.seen += 1;
        if self.seen % 41 != 7 { return }
        let cps: Vec<String> = text.chars().map(|c| (c as u32).to_string()).collect();
        let mut s = format!("{{\"v\":\"{}\",\"text\":[{}],\"r\":[", v, cps.join(","));
        for (i, r) in run.recs.iter().enumerate() {
            s.push_str(&format!("{}[{},{},{},{},{}]", if i > 0 { "," } else { "" }, crate::esc(&r.seen.kind), r.seen.start.off, r.seen.end.off, r.expr, r.tpl));
            if r.seen.kind == "eof" && !self.check_over { break }
        }
        s.push_str("]}\n");
        self.record_left -= 1;
        self.stats.add("traces recorded");
        let _ = self.record.as_mut().unwrap().write_all(s.as_bytes());
    }
    /// Replays the edges of the state graph that TLC explored.  Err: TLC and this engine differ.
    pub fn edges(&mut self, r: &mut Rng, path: &str, part: (usize, usize), stop: &std::sync::atomic::AtomicBool) -> Result<(), String> {
        let file = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        // how live behaviours that look alike (last token, open brackets) go on
        let mut ends: std::collections::HashMap<(Tok, Vec<Tok>), Vec<Vec<Tok>>> = std::collections::HashMap::new();
        for line in file.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            if f[1] != "live" { continue }
            let w = self.tb.parse_evs(f[0]);
            let Some(l) = w.last() else { continue };
            if l.c == self.eng.eof { continue }
            let e = ends.entry((l.c, self.open_brackets(&w).pop().unwrap())).or_default();
            if e.len() >= 8 { continue }
            self.eng.trim();
            let y = *self.eng.run(&w).last().unwrap();
            for c in self.eng.completions(y).into_iter().take(2) { if !e.contains(&c) { e.push(c); } }
        }
        // the graph itself, for the ways from a set of configurations back to it
        let mut graph: std::collections::HashMap<Set, Vec<(Ev, Set)>> = std::collections::HashMap::new();
        for line in file.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            if f[1] != "live" { continue }
            let w = self.tb.parse_evs(f[0]);
            if self.eng.trim() { graph.clear(); }
            let sets = self.eng.run(&w);
            if let Some(l) = w.last() { if l.c != self.eng.eof { graph.entry(sets[w.len() - 1]).or_default().push((*l, sets[w.len()])); } }
        }
        let mut around: std::collections::HashMap<Set, Vec<Vec<Ev>>> = std::collections::HashMap::new();
        for (ln, line) in file.lines().enumerate() {
            if ln % part.1 != part.0 { continue }
            if self.viol.len() >= 3 { break }
            if self.eng.trim() { graph.clear(); around.clear(); }
            let f: Vec<&str> = line.split('\t').collect();
            let w = self.tb.parse_evs(f[0]);
            let sets = self.eng.run(&w);
            let n = w.len();
            let (y, x) = (sets[n], sets[n - 1]);
            let st = match self.eng.status(y) { Status::Live => "live", Status::Loose => "loose", Status::Dead => "dead" };
            let ve = match self.eng.verdict(y) { Verdict::Accept => "accept", Verdict::Reject => "reject", Verdict::Open => "open" };
            if st != f[1] || ve != f[2] { return Err(format!("engine and TLC differ on {}: {} {} / {} {}", f[0], st, ve, f[1], f[2])) }
            self.stats.add("replay:edges");
            if stop.load(std::sync::atomic::Ordering::Relaxed) { self.stats.add("replay:skipped"); continue }
            let eof = Ev { c: self.eng.eof, nl: false };
            let mut vs: Vec<Vec<Ev>> = vec![];
            if w[n - 1].c == self.eng.eof { vs.push(w.clone()); }
            else if st == "live" {
                for c in self.eng.completions(y).iter().take(3) { let mut v = w.clone(); v.extend(c.iter().map(|&c| Ev { c, nl: false })); vs.push(v); }
            } else if st == "dead" {
                let mut v = w.clone(); v.push(eof); vs.push(v);
                for (i, c) in self.eng.completions(x).iter().take(4).enumerate() {
                    for k in [0usize, 1, 2] {
                        if k >= c.len() || (k > 0 && i > 1) { continue }
                        let mut v = w.clone(); v.extend(c[k..].iter().map(|&c| Ev { c, nl: false })); vs.push(v);
                    }
                }
                for c in self.eng.relaxed(x, w[n - 1]).iter().take(6) { let mut v = w.clone(); v.extend(c.iter().map(|&c| Ev { c, nl: false })); vs.push(v); }
                if let Some(e) = ends.get(&(w[n - 1].c, self.open_brackets(&w).pop().unwrap())) {
                    for c in e.iter().take(6) { let mut v = w.clone(); v.extend(c.iter().map(|&c| Ev { c, nl: false })); vs.push(v); }
                }
            } else { self.stats.add("replay:open") }
            // and after going round in circles before the last token
            let mut rounds: Vec<Vec<Ev>> = vec![];
            if f[1] != "loose" && f[1] != "open" && !vs.is_empty() {
                let cs = around.entry(x).or_insert_with(|| circles(&graph, x));
                for c in cs.iter() {
                    for k in [1usize, 2] { rounds.push(c.iter().cloned().cycle().take(k * c.len()).collect()); }
                    if r.chance(5) { let k = 3 + r.below(30); rounds.push(c.iter().cloned().cycle().take(k * c.len()).collect()); }
                }
            }
            for c in rounds {
                let v = r.pick(&vs);
                let mut u = w[..n - 1].to_vec(); u.extend(c); u.extend_from_slice(&v[n - 1..]);
                let st = Self::style(r);
                self.case(r, &u, st, "replay-round");
                if self.viol.len() >= 3 { break }
            }
            for v in vs { let st = Self::style(r); self.case(r, &v, st, if f[1] == "dead" { "replay-dead" } else { "replay-live" }); if self.viol.len() >= 3 { break } }
        }
        self.stats.states = self.eng.n_sets() as u64;
        self.stats.feeds = self.eng.feeds;
        Ok(())
    }
    pub fn case(&mut self, r: &mut Rng, w: &[Ev], style: Style, op: &str) -> bool {
        let Some(acc) = self.judge(w) else { self.stats.add(&format!("{}:open", op)); return true };
        let text = self.rend.render(r, w, style);
        self.case_text(r, w, text, acc, style, op)
    }
    pub fn case_text(&mut self, r: &mut Rng, w: &[Ev], text: Text, acc: bool, style: Style, op: &str) -> bool {
        self.stats.add(&format!("{}:{}", op, if acc { "accept" } else { "reject" }));
        if self.stats.samples.len() < 12 && self.stats.n.values().sum::<u64>() % 97 == 1 { self.stats.samples.push(format!("{} {:?}", if acc { "accept" } else { "reject" }, text.s)); }
        if self.dump { println!("{}\t{:?}", acc, text.s); return true }
        let Some((what, detail)) = self.compare(&text, acc) else { return true };
        // shrink, keeping the verdict and the kind of mismatch
        let (mut w, mut text, mut detail) = (w.to_vec(), text, detail);
        let mut tries = 0;
        let mut go = true;
        let since = std::time::Instant::now();
        while go && tries < 4000 && since.elapsed().as_secs() < 30 {
            go = false;
            let mut n = (w.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i + n < w.len() && since.elapsed().as_secs() < 30 {
                    let mut v = w.clone();
                    v.drain(i..i + n);
                    tries += 1;
                    if self.judge(&v) == Some(acc) {
                        let mut hit = false;
                        for st in [Style::Plain, style] {
                            let t = self.rend.render(r, &v, st);
                            if let Some((k, d)) = self.compare(&t, acc) {
                                if k == what { w = v.clone(); text = t; detail = d; go = true; hit = true; break }
                            }
                        }
                        if hit { continue }
                    }
                    i += 1;
                }
                if n == 1 { break }
                n /= 2;
            }
        }
        let toks = self.tb.show(&w);
        if self.known.iter().any(|k| *k == toks) { self.hits.push(toks); return true }
        self.viol.push(Violation { what: format!("{} ({})", what, op), text: text.s.clone(), toks, expect: if acc { "accept".into() } else { "reject".into() }, got: format!("{} {}", what, detail) });
        false
    }

    /// For each place in w, the brackets open there (at the end of the list, those open after all of w).
    fn open_brackets(&self, w: &[Ev]) -> Vec<Vec<Tok>> {
        let mut st: Vec<Tok> = vec![];
        let mut v = vec![st.clone()];
        for e in w {
            match self.tb.toks[e.c as usize].as_str() {
                "(" | "[" | "{" | "tplH" => st.push(e.c),
                ")" | "]" | "}" | "tplT" => { st.pop(); }
                _ => {}
            }
            v.push(st.clone());
        }
        v
    }
    fn rand_tok(&self, r: &mut Rng, alpha: &[Tok]) -> Tok {
        if !alpha.is_empty() && r.chance(70) { *r.pick(alpha) } else { r.below(self.tb.toks.len()) as Tok }
    }
    fn style(r: &mut Rng) -> Style { match r.below(4) { 0 => Style::Plain, 1 => Style::Dense, _ => Style::Varied } }

    /// Programs with every variant of every production (of these nonterminals more often).
    pub fn variants(&mut self, r: &mut Rng, cfg: &Cfg, part: (usize, usize), times: (usize, usize), wide: bool, stop: &std::sync::atomic::AtomicBool) {
        let mut all = vec![];
        let g = Gen::new(self.tb);
        let mut order: Vec<usize> = cfg.goals.clone();
        for n in 0..self.tb.nt_name.len() { if !order.contains(&n) { order.push(n); } }
        for (k, n) in order.iter().enumerate() {
            let t = if k < cfg.goals.len() { times.1 } else { times.0 };
            for v in g.variants(*n, wide) { all.push((v, t)); }
        }
        for (i, (v, t)) in all.iter().enumerate() {
            if i % part.1 != part.0 { continue }
            if self.viol.len() >= 3 { break }
            if stop.load(std::sync::atomic::Ordering::Relaxed) { self.stats.add("variant:skipped"); continue }
            self.eng.trim();
            for k in 0..*t {
                let mut g = Gen::new(self.tb);
                g.nl = 1; g.asi = if r.chance(cfg.nl_heavy) { 20 } else { 3 };
                let depth = if k == 0 { 1 } else { 1 + r.below(4) as i32 };
                let Some(w) = g.with_variant(r, v, depth, 40) else { self.stats.add("variant:unreached"); continue };
                if w.len() > 120 { continue }
                let st = Self::style(r);
                self.case(r, &w, st, "variant");
            }
        }
    }
    /// One random round: a program and some relatives of it.
    pub fn round(&mut self, r: &mut Rng, cfg: &Cfg) {
        if self.eng.trim() || self.loops.len() > 20000 { self.loops.clear(); }
        let mut g = Gen::new(self.tb);
        g.nl = if r.chance(cfg.nl_heavy) { 40 } else { 5 };
        g.asi = if r.chance(cfg.nl_heavy) { 60 } else { 15 };
        g.loose = if r.chance(10) { 8 } else { 0 };
        let goal = if cfg.goals.is_empty() || r.chance(15) { None } else { Some(*r.pick(&cfg.goals)) };
        let depth = 3 + r.below(cfg.depth) as i32;
        let w = if r.chance(cfg.seq) { self.seq_program(r, &g, goal, depth) } else { g.program(r, depth, goal, cfg.cap) };
        let Some(sets) = self.eng.run_bounded(&w) else { self.stats.add("too many readings"); return };
        let eofs = w.len() - 1;
        let first_dead = sets.iter().position(|&x| x == 0);
        let st = Self::style(r);
        if cfg.ops.contains(&Op::Program) || first_dead.is_some() { self.case(r, &w, st, "program"); }
        let live_to = first_dead.map(|i| i - 1).unwrap_or(eofs); // sets[0..=live_to] are not dead
        if cfg.ops.contains(&Op::Loop) {
            for i in 0..live_to {
                for j in i + 1..(i + 15).min(live_to + 1) {
                    if sets[i] != sets[j] { continue }
                    let e = self.loops.entry(sets[i]).or_default();
                    if e.len() < 6 { if !e.iter().any(|c| c[..] == w[i..j]) { e.push(w[i..j].to_vec()); } } else if r.chance(5) { let k = r.below(6); e[k] = w[i..j].to_vec(); }
                    break
                }
            }
        }
        for _ in 0..cfg.per {
            let op = *r.pick(&cfg.ops);
            match op {
                Op::Program => {}
                Op::Dead => {
                    let i = r.below(live_to + 1);
                    let t = Ev { c: self.rand_tok(r, &cfg.alpha), nl: r.chance(25) };
                    if !self.eng.possible(sets[i], t) { continue }
                    let y = self.eng.feed(sets[i], t);
                    let mut v = w[..i].to_vec();
                    v.push(t);
                    if y == 0 {
                        let relaxed = if t.c != self.eng.eof && r.chance(50) { self.eng.relaxed(sets[i], t) } else { vec![] };
                        match r.below(5) {
                            _ if t.c == self.eng.eof => {}
                            _ if !relaxed.is_empty() => { let k = relaxed.len().min(6); v.extend(r.pick(&relaxed[..k]).iter().map(|&c| Ev { c, nl: false })); }
                            0 => {}
                            1 => v.extend_from_slice(&w[i..]),
                            2 => v.extend_from_slice(&w[(i + 1).min(eofs)..]),
                            _ => {
                                let cs = self.eng.completions(sets[i]);
                                if !cs.is_empty() {
                                    let c = r.pick(&cs[..cs.len().min(4)]).clone();
                                    let skip = if r.chance(60) { 0 } else { r.below(c.len()) };
                                    v.extend(c[skip..].iter().map(|&c| Ev { c, nl: false }));
                                }
                            }
                        }
                        if v.last().unwrap().c != self.eng.eof { v.push(Ev { c: self.eng.eof, nl: false }) }
                        let st = Self::style(r);
                        self.case(r, &v, st, "dead");
                    } else if self.eng.status(y) == Status::Live && t.c != self.eng.eof {
                        let cs = self.eng.completions(y);
                        let c = r.pick(&cs[..cs.len().min(6)]).clone();
                        v.extend(c.iter().map(|&c| Ev { c, nl: false }));
                        let st = Self::style(r);
                        self.case(r, &v, st, "live");
                    }
                }
                Op::Graft => {
                    let v = g.grafted(r, depth, goal, cfg.cap);
                    if v == w { continue }
                    let st = Self::style(r);
                    self.case(r, &v, st, "graft");
                }
                Op::Cross => {
                    // the beginning of this program, the end of another one from a place that looks the same
                    let stacks = self.open_brackets(&w);
                    for (i, b) in stacks.iter().enumerate() {
                        if i == 0 || !r.chance(30) { continue }
                        let key = (w[i - 1].c, b.clone());
                        let e = self.ends.entry(key).or_default();
                        if e.len() < 40 { e.push(w[i..].to_vec()); } else if r.chance(20) { let k = r.below(40); e[k] = w[i..].to_vec(); }
                    }
                    if self.ends.len() > 20000 { self.ends.clear(); }
                    let i = 1 + r.below(eofs);
                    if i >= w.len() { continue }
                    // one more token, any of those possible, before the other end
                    let mut v = w[..i].to_vec();
                    if r.chance(60) { let t = Ev { c: self.rand_tok(r, &cfg.alpha), nl: r.chance(10) }; if t.c == self.eng.eof { continue } v.push(t); }
                    let b = self.open_brackets(&v).pop().unwrap();
                    let Some(e) = self.ends.get(&(v[v.len() - 1].c, b)) else { self.stats.add("cross:no end"); continue };
                    let e = r.pick(e).clone();
                    v.extend(e);
                    let st = Self::style(r);
                    self.case(r, &v, st, "cross");
                }
                Op::Loop => {
                    // round in circles somewhere, then on, or a token that is wrong there
                    let at: Vec<usize> = (0..=live_to).filter(|&i| self.loops.contains_key(&sets[i])).collect();
                    if at.is_empty() { self.stats.add("loop:none"); continue }
                    let i = *r.pick(&at);
                    let mut v = w[..i].to_vec();
                    let k = *r.pick(&[1usize, 1, 2, 2, 3, 5, 20]);
                    for _ in 0..k { let c = r.pick(&self.loops[&sets[i]]).clone(); v.extend(c); }
                    let mut x = sets[i];
                    let mut rest = 0;
                    if r.chance(30) { let d = r.below(4).min(live_to - i); v.extend_from_slice(&w[i..i + d]); x = sets[i + d]; rest = d; }
                    match r.below(4) {
                        0 => v.extend_from_slice(&w[i + rest..]),
                        m => {
                            let t = Ev { c: self.rand_tok(r, &cfg.alpha), nl: r.chance(15) };
                            if !self.eng.possible(x, t) || t.c == self.eng.eof { continue }
                            let y = self.eng.feed(x, t);
                            v.push(t);
                            if y == 0 {
                                let relaxed = if m != 1 { self.eng.relaxed(x, t) } else { vec![] };
                                if !relaxed.is_empty() { let n = relaxed.len().min(6); v.extend(r.pick(&relaxed[..n]).iter().map(|&c| Ev { c, nl: false })); }
                                else { v.extend_from_slice(&w[(i + rest + r.below(2)).min(eofs)..]); }
                            } else if self.eng.status(y) == Status::Live {
                                let cs = self.eng.completions(y);
                                let n = cs.len().min(6);
                                v.extend(r.pick(&cs[..n]).iter().map(|&c| Ev { c, nl: false }));
                            } else { continue }
                        }
                    }
                    if v.last().unwrap().c != self.eng.eof { v.push(Ev { c: self.eng.eof, nl: false }) }
                    if v.len() > 300 { continue }
                    let st = Self::style(r);
                    self.case(r, &v, st, "loop");
                }
                Op::Mutate => {
                    let mut v = w.clone();
                    for _ in 0..1 + (r.chance(15) as usize) {
                        if v.len() < 2 { break }
                        let i = r.below(v.len() - 1);
                        match r.below(6) {
                            0 | 1 => { v.remove(i); }
                            2 => { let t = Ev { c: self.rand_tok(r, &cfg.alpha), nl: v[i].nl }; v[i] = t; }
                            3 => { let t = Ev { c: self.rand_tok(r, &cfg.alpha), nl: r.chance(20) }; v.insert(i, t); }
                            4 => { let t = v[i]; v.insert(i, t); }
                            _ => { if i + 1 < v.len() - 1 { v.swap(i, i + 1); } }
                        }
                        if v.iter().position(|t| t.c == self.eng.eof) != Some(v.len() - 1) { v.retain(|t| t.c != self.eng.eof); v.push(Ev { c: self.eng.eof, nl: false }); }
                    }
                    let st = Self::style(r);
                    self.case(r, &v, st, "mutate");
                }
                Op::Newline => {
                    // move line terminators about and drop semicolons
                    let mut v = w.clone();
                    let k = 1 + r.below(3);
                    for _ in 0..k {
                        let i = r.below(v.len());
                        match r.below(4) {
                            0 => { if v.len() > 2 { if let Some(j) = (0..v.len()).cycle().skip(i).take(v.len()).find(|&j| v[j].c == self.eng.semi) { v.remove(j); if r.chance(70) && j < v.len() { v[j].nl = true; } } } }
                            1 => { if let Some(j) = (0..v.len()).cycle().skip(i).take(v.len()).find(|&j| v[j].nl) { v[j].nl = false; } }
                            2 => { v[i].nl = true; }
                            _ => { v[i].nl = !v[i].nl; }
                        }
                    }
                    let st = Self::style(r);
                    self.case(r, &v, st, "newline");
                }
                Op::Bracket => {
                    let mut v = w.clone();
                    let br: Vec<Tok> = ["(", ")", "[", "]", "{", "}", "tplH", "tplM", "tplT"].iter().map(|s| self.tb.t(s)).collect();
                    let at: Vec<usize> = (0..v.len()).filter(|&i| br.contains(&v[i].c)).collect();
                    match r.below(5) {
                        0 if !at.is_empty() => { v.remove(*r.pick(&at)); }
                        1 if !at.is_empty() => { let i = *r.pick(&at); v[i].c = *r.pick(&br); }
                        2 => { let i = r.below(v.len()); v.truncate(i); v.push(Ev { c: self.eng.eof, nl: false }); }
                        3 => { let e = v.pop().unwrap(); let k = 1 + r.below(2); for _ in 0..k { v.push(Ev { c: self.rand_tok(r, &br), nl: r.chance(30) }); } v.push(e); }
                        _ => { let i = r.below(v.len()); v.insert(i, Ev { c: *r.pick(&br), nl: false }); }
                    }
                    v.retain(|t| t.c != self.eng.eof); v.push(Ev { c: self.eng.eof, nl: false });
                    let st = Self::style(r);
                    self.case(r, &v, st, "bracket");
                }
                Op::Words => {
                    let i = r.below(live_to + 1).min(eofs);
                    let words: Vec<Tok> = (0..self.tb.toks.len() as Tok).filter(|&t| self.tb.toks[t as usize].chars().next().unwrap().is_ascii_alphabetic() && !matches!(self.tb.toks[t as usize].as_str(), "eof" | "num" | "str" | "re" | "tplN" | "tplH" | "tplM" | "tplT")).collect();
                    let js: Vec<usize> = (0..w.len()).filter(|&j| words.contains(&w[j].c)).collect();
                    let j = if js.is_empty() { i } else { *r.pick(&js) };
                    if w[j].c == self.eng.eof { continue }
                    let mut v = w.clone();
                    v[j].c = *r.pick(&words);
                    let st = Self::style(r);
                    self.case(r, &v, st, "words");
                }
                Op::Trivia => {
                    // the same program in different white space and comments
                    let Some(acc) = self.judge(&w) else { continue };
                    let t1 = self.rend.render(r, &w, Style::Varied);
                    if !self.case_text(r, &w, t1, acc, Style::Varied, "trivia") { continue }
                    if r.chance(50) {
                        // and one of its relatives that may be rejected
                        let mut v = w.clone();
                        let i = r.below(v.len() - 1);
                        if r.chance(50) { v.remove(i); } else { v[i].nl = !v[i].nl }
                        self.case(r, &v, Style::Varied, "trivia");
                    }
                }
                Op::Stub => {
                    let mut v: Vec<Ev> = w.clone();
                    if r.chance(70) { for _ in 0..r.below(4) { let i = r.below(v.len()); let t = self.rand_tok(r, &cfg.alpha); match r.below(4) { 0 => { v.remove(i); if v.is_empty() { v.push(Ev { c: t, nl: false }) } } 1 => v[i].c = t, 2 => v.insert(i, Ev { c: t, nl: false }), _ => v.truncate(i + 1) } } }
                    if r.chance(10) { v = (0..r.below(12) + 1).map(|_| Ev { c: self.rand_tok(r, &cfg.alpha), nl: r.chance(20) }).collect(); }
                    let verdict = if v.iter().position(|t| t.c == self.eng.eof).map(|i| i + 1) == Some(v.len()) { self.judge(&v) } else { v.retain(|t| t.c != self.eng.eof); self.eng.eof; None };
                    self.stub_case(r, &v, verdict);
                }
            }
        }
        self.stats.states = self.eng.n_sets() as u64;
        self.stats.feeds = self.eng.feeds;
    }
    pub fn stub_case(&mut self, r: &mut Rng, v: &[Ev], verdict: Option<bool>) {
        let mut toks = vec![];
        for e in v {
            if r.chance(10) { toks.push((stub_token(*r.pick(&["ws", "bcom", "ws"])), false)); }
            if e.nl { let k = *r.pick(&["lt", "bcom", "lt"]); toks.push((stub_token(k), true)); if r.chance(20) { toks.push((stub_token("lcom"), false)); toks.push((stub_token("lt"), true)); } }
            toks.push((stub_token(&self.tb.toks[e.c as usize]), false));
        }
        let shown = self.tb.show(v);
        self.stub_stream(toks, verdict, shown, "stub");
    }
    /// Runs the parser on a stand-in tokenizer that answers with these tokens and then end of input.
    pub fn stub_stream(&mut self, toks: Vec<(jsparse::verif_hooks::tokens::Token<'static>, bool)>, verdict: Option<bool>, shown: String, op: &str) -> bool {
        self.stats.add(&format!("{}:{}", op, match verdict { Some(true) => "accept", Some(false) => "reject", None => "open" }));
        self.slot.begin(&format!("[stub] {}", shown));
        let n = toks.len();
        let run = parse_stub(toks);
        self.slot.end();
        let mut bad = match run.outcome {
            Outcome::Crash => Some(format!("crash {}", run.msg)),
            Outcome::OverRead => Some("over-read: keeps asking after the end".to_string()),
            Outcome::LexErr => Some(format!("crash in the tokenizer stand-in {}", run.msg)),
            _ => None,
        };
        if bad.is_none() && self.check_over && run.over { bad = Some("over-read: asked for a token after end of input".into()) }
        // requested in order, each once
        if bad.is_none() { for (i, x) in run.recs.iter().enumerate() { if x.seen.start.off != i.min(n) { bad = Some(format!("request {} got token {}", i, x.seen.start.off)); break } } }
        if bad.is_none() && run.outcome == Outcome::Accept && verdict == Some(false) { bad = Some("accepted".into()) }
        if bad.is_none() && run.outcome != Outcome::Accept && verdict == Some(true) { bad = Some("rejected".into()) }
        if let Some(b) = bad {
            if self.known.iter().any(|k| *k == shown) { self.hits.push(shown); return true }
            self.viol.push(Violation { what: op.into(), text: String::new(), toks: shown, expect: match verdict { Some(true) => "accept", Some(false) => "reject", None => "accept or reject, in order, no crash" }.into(), got: b });
            return false;
        }
        true
    }
    /// Replays the steps of MCPull: sequences of answers, trivia included.
    pub fn pulls(&mut self, path: &str, part: (usize, usize)) -> Result<(), String> {
        let file = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        for (ln, line) in file.lines().enumerate() {
            if ln % part.1 != part.0 { continue }
            if self.viol.len() >= 3 { break }
            self.eng.trim();
            let f: Vec<&str> = line.split('\t').collect();
            let words: Vec<&str> = f[0].split(' ').collect();
            let mut w: Vec<Ev> = vec![];
            let mut nl = false;
            for x in &words {
                match *x { "lt" | "bcomL" => nl = true, "ws" | "lcom" | "bcom" => {}, _ => { w.push(Ev { c: self.tb.t(x), nl }); nl = false; } }
            }
            let sets = self.eng.run(&w);
            let y = *sets.last().unwrap();
            let st = match self.eng.status(y) { Status::Live => "live", Status::Loose => "loose", Status::Dead => "dead" };
            let ve = match self.eng.verdict(y) { Verdict::Accept => "accept", Verdict::Reject => "reject", Verdict::Open => "open" };
            if st != f[1] || ve != f[2] { return Err(format!("engine and TLC differ on {}: {} {} / {} {}", f[0], st, ve, f[1], f[2])) }
            self.stats.add("replay:answers");
            let mut tails: Vec<Vec<Tok>> = vec![];
            let mut verdict = None;
            if *words.last().unwrap() == "eof" { tails.push(vec![]); verdict = match ve { "accept" => Some(true), "reject" => Some(false), _ => None }; }
            else if st == "live" && !nl { tails = self.eng.completions(y).into_iter().take(2).collect(); verdict = Some(true); }
            else if st == "dead" { tails.push(vec![self.eng.eof]); tails.push(vec![self.eng.close, self.eng.eof]); verdict = Some(false); }
            for t in tails {
                let mut toks: Vec<_> = words.iter().map(|x| (stub_token(if *x == "bcomL" { "bcom" } else { x }), matches!(*x, "lt" | "bcomL"))).collect();
                let mut shown = f[0].to_string();
                // whatever the rest is, judge the whole
                let mut v = w.clone();
                for &c in &t { let e = &self.tb.toks[c as usize]; toks.push((stub_token(e), false)); shown.push(' '); shown.push_str(e); v.push(Ev { c, nl: false }); }
                let verdict = if t.is_empty() { verdict } else { match (self.judge_stream(&v), verdict) { (a, b) if a == b => b, _ => None } };
                if !self.stub_stream(toks, verdict, shown, "replay-pull") && self.viol.len() >= 3 { break }
            }
        }
        self.stats.states = self.eng.n_sets() as u64;
        self.stats.feeds = self.eng.feeds;
        Ok(())
    }
    /// The verdict on a stream of tokens, without asking whether a text has them.
    fn judge_stream(&mut self, w: &[Ev]) -> Option<bool> {
        let mut x = self.eng.init();
        for &t in w { x = self.eng.feed(x, t); if x == 0 { return Some(false) } if self.eng.size(x) > MANY { return None } }
        match self.eng.verdict(x) { Verdict::Accept => Some(true), Verdict::Reject => Some(false), Verdict::Open => None }
    }
    /// Constructs nested deep in one another: the wrappers, repeated.
    fn nested(&mut self, r: &mut Rng, g: &Gen, levels: usize, depth: i32, goals: &[usize]) -> Vec<Ev> {
        // (opening, closing, what is inside: s(tatements), e(xpression, assignment level), what it is)
        let forms: &[(&str, &str, char, char)] = &[
            ("{", "}", 's', 's'), ("function id ( ) {", "}", 's', 's'), ("function * id ( ) {", "}", 's', 's'), ("async function id ( ) {", "}", 's', 's'),
            ("if ( id ) {", "}", 's', 's'), ("if ( id ) ; else {", "}", 's', 's'), ("for ( ; ; ) {", "}", 's', 's'), ("do {", "} while ( id )", 's', 's'),
            ("try {", "} finally { }", 's', 's'), ("try { } catch ( id ) {", "}", 's', 's'), ("switch ( id ) { default :", "}", 's', 's'), ("switch ( id ) { case id :", "}", 's', 's'),
            ("class id { id ( ) {", "} }", 's', 's'), ("class id { get id ( ) {", "} }", 's', 's'), ("class id { static * id ( ) {", "} }", 's', 's'), ("id : {", "}", 's', 's'),
            ("id = ", ";", 'e', 's'), ("id ( ", ") ;", 'e', 's'), ("var id =", ";", 'e', 's'), ("throw", ";", 'e', 's'), ("for ( id of", ") ;", 'e', 's'), ("for ( ; ;", ") ;", 'e', 's'), ("if (", ") ;", 'e', 's'),
            ("for ( id =", "; ; ) ;", 'e', 's'), ("for ( var id =", "; ; ) ;", 'e', 's'), ("tplH", "tplT ;", 'e', 's'), ("class id extends (", ") { }", 'e', 's'),
            ("( ) => {", "}", 's', 'e'), ("id => {", "}", 's', 'e'), ("async ( ) => {", "}", 's', 'e'), ("async id => {", "}", 's', 'e'), ("function ( ) {", "}", 's', 'e'), ("function * ( ) {", "}", 's', 'e'),
            ("async function ( ) {", "}", 's', 'e'), ("{ id ( ) {", "} }", 's', 'e'), ("{ * id ( ) {", "} , id }", 's', 'e'), ("class { id ( ) {", "} }", 's', 'e'), ("{ set id ( id ) {", "} }", 's', 'e'),
            ("(", ")", 'e', 'e'), ("[", "]", 'e', 'e'), ("[ id ,", ", ]", 'e', 'e'), ("{ id :", "}", 'e', 'e'), ("{ [", "] : id }", 'e', 'e'), ("id (", ")", 'e', 'e'), ("id ( id , ...", ")", 'e', 'e'), ("id [", "]", 'e', 'e'),
            ("tplH", "tplT", 'e', 'e'), ("tplH id tplM", "tplM id tplT", 'e', 'e'), ("id =>", "", 'e', 'e'), ("( id ) =>", "", 'e', 'e'), ("id ?", ": id", 'e', 'e'), ("id ? id :", "", 'e', 'e'), ("id =", "", 'e', 'e'), ("id . id +=", "", 'e', 'e'),
            ("new id (", ")", 'e', 'e'), ("( id ,", ")", 'e', 'e'), ("id + (", ") . id", 'e', 'e'), ("! (", ")", 'e', 'e'), ("( id =", ") => id", 'e', 'e'), ("function ( id =", ") { }", 'e', 'e'), ("class extends (", ") { }", 'e', 'e'), ("id in (", ") in id", 'e', 'e'),
        ];
        let few: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(forms.len())).collect();
        let all = r.chance(50);
        let (mut open, mut close) = (vec![], vec![]);
        let mut at = 's';
        let mut n = 0;
        let mut skipped = 0;
        while n < levels {
            let f = &forms[if all || skipped > 20 { r.below(forms.len()) } else { few[n % few.len()] }];
            // an expression where statements are due
            if f.3 == 'e' && at == 's' { open.extend(self.tb.parse_evs("id =")); let mut c = self.tb.parse_evs(";"); c.reverse(); close.extend(c); at = 'e'; }
            if f.3 != at { skipped += 1; if skipped > 2000 { break } let f = &forms[27 + r.below(11)]; open.extend(self.tb.parse_evs(f.0)); let mut c = self.tb.parse_evs(f.1); c.reverse(); close.extend(c); at = 's'; n += 1; continue }
            open.extend(self.tb.parse_evs(f.0));
            let mut c = self.tb.parse_evs(f.1); c.reverse(); close.extend(c);
            at = f.2;
            n += 1;
        }
        // in the middle, something of each kind the property is about
        for _ in 0..3 {
            let gl = if goals.is_empty() || at != 's' { None } else { Some(*r.pick(goals)) };
            let inner = match gl { Some(gl) => { let v = g.program(r, depth + 2, Some(gl), 60); v[..v.len() - 1].to_vec() } None => g.fragment(r, if at == 's' { "SItem" } else { "Assign" }, 1, depth, 30) };
            // (an import or export has no place there)
            if inner.iter().any(|e| matches!(self.tb.toks[e.c as usize].as_str(), "import" | "export")) { continue }
            open.extend(inner);
            if at != 's' { break }
            if open.last().map(|e| e.c != self.eng.semi && e.c != self.eng.close) == Some(true) { open.push(Ev { c: self.eng.semi, nl: false }); }
        }
        if at == 's' { open.push(Ev { c: self.eng.semi, nl: false }); }
        close.reverse();
        open.extend(close);
        open.push(Ev { c: self.eng.eof, nl: false });
        open
    }
    /// Long and deep programs, and the same with one token wrong.
    pub fn pumped(&mut self, r: &mut Rng, cfg: &Cfg, times: usize, stop: &std::sync::atomic::AtomicBool) {
        for j in 0..times {
            if self.viol.len() >= 3 { break }
            if stop.load(std::sync::atomic::Ordering::Relaxed) { self.stats.add("pumped:cut short"); break }
            self.eng.trim();
            let mut g = Gen::new(self.tb);
            g.nl = 3; g.asi = 10;
            let goal = if cfg.goals.is_empty() || r.chance(30) { None } else { Some(*r.pick(&cfg.goals)) };
            let w = match j % 8 {
                0 => self.seq_of(r, &g, goal, 3, if j == 0 { 30000 } else { 2000 }),
                1 | 2 => { let n = 260 + r.below(100); self.seq_of(r, &g, goal, 3, n) }
                3 | 4 => { let d = 130 + r.below(160); self.nested(r, &g, d, 3, &cfg.goals) }
                _ => { let d = 20 + r.below(60); self.nested(r, &g, d, 3, &cfg.goals) }
            };
            let st = Self::style(r);
            self.case(r, &w, st, "pumped");
            for _ in 0..4 {
                let mut v = w.clone();
                let i = if r.chance(60) { r.below(v.len() - 1) } else { (v.len() * 2 / 5 + r.below(v.len() / 5 + 1)).min(v.len() - 2) };
                let t = Ev { c: self.rand_tok(r, &cfg.alpha), nl: r.chance(20) };
                match r.below(4) { 0 => { v.remove(i); } 1 => v[i] = t, 2 => v[i].nl = !v[i].nl, _ => v.insert(i, t) }
                v.retain(|t| t.c != self.eng.eof); v.push(Ev { c: self.eng.eof, nl: false });
                self.case(r, &v, st, "pumped");
            }
        }
    }
    /// Constructs one after another, in one of the contexts a list of them can stand in.
    fn seq_program(&mut self, r: &mut Rng, g: &Gen, goal: Option<usize>, depth: i32) -> Vec<Ev> { let n = 2 + r.below(5); self.seq_of(r, g, goal, depth, n) }
    fn seq_of(&mut self, r: &mut Rng, g: &Gen, goal: Option<usize>, depth: i32, n: usize) -> Vec<Ev> {
        let t = |s: &str| Ev { c: self.tb.t(s), nl: false };
        let words = |s: &str| self.tb.parse_evs(s);
        // (opening, item, separator, closing, context of the item)
        let forms: &[(&str, &str, &str, &str, u8)] = &[
            ("", "SItem", "", "", 1), ("", "Item", "", "", 1), ("{", "SItem", "", "}", 1),
            ("function id ( ) {", "SItem", "", "}", 9), ("function * id ( ) {", "SItem", "", "}", 11), ("async function id ( ) {", "SItem", "", "}", 13),
            ("( id ) => {", "SItem", "", "}", 9), ("async id => {", "SItem", "", "}", 13), ("id = { id ( ) {", "SItem", "", "} }", 9),
            ("class id {", "Method", "", "}", 1), ("( class { * id ( ) {", "SItem", "", "} } )", 11),
            ("id ( [", "Assign", ",", "] ) ;", 1), ("id (", "Assign", ",", ") ;", 1), ("id = {", "Prop", ",", "} ;", 1), ("id ;", "Assign", ",", ";", 1),
            ("tplH", "Expr", "tplM", "tplT ;", 1), ("switch ( id ) { case id :", "SItem", "", "}", 1), ("if ( id ) {", "SItem", "", "}", 1),
            ("for ( ; ; ) {", "SItem", "", "}", 1), ("try {", "SItem", "", "} finally { }", 1), ("function * id ( ) { id (", "Assign", ",", ") ; }", 11),
            ("async function id ( ) { [", "Assign", ",", "] ; }", 13), ("function id (", "BElem", ",", ") { }", 9), ("let {", "BProp", ",", "} = id ;", 1),
            ("var [", "BElem", ",", "] = id ;", 1), ("for ( id = (", "Assign", ",", ") ; ; ) ;", 1), ("for ( id of [", "Assign", ",", "] ) ;", 1),
        ];
        let f = r.pick(forms);
        let mut v = words(f.0);
        for i in 0..n {
            if i > 0 && !f.2.is_empty() { v.extend(words(f.2)); }
            let mut frag = if let (Some(gl), true) = (goal, r.chance(50)) {
                let nt = self.tb.names[self.tb.nt_name[gl] as usize].clone();
                if nt == f.1 { g.fragment(r, &nt, f.4, depth, 40) } else { g.fragment(r, f.1, f.4, depth, 40) }
            } else { g.fragment(r, f.1, f.4, depth, 40) };
            if f.1 == "SItem" || f.1 == "Item" { match frag.last() { Some(e) if e.c == self.eng.semi || e.c == self.eng.close => {} _ => frag.push(t(";")) } }
            v.extend(frag);
        }
        v.extend(words(f.3));
        v.push(t("eof"));
        v
    }
}

/// Ways from x back to x in the graph, short and few.
fn circles(graph: &std::collections::HashMap<Set, Vec<(Ev, Set)>>, x: Set) -> Vec<Vec<Ev>> {
    fn go(graph: &std::collections::HashMap<Set, Vec<(Ev, Set)>>, x: Set, at: Set, path: &mut Vec<Ev>, left: usize, steps: &mut usize, out: &mut Vec<Vec<Ev>>) {
        let Some(es) = graph.get(&at) else { return };
        for (e, y) in es {
            *steps += 1;
            if *steps > 3000 || out.len() >= 3 { return }
            path.push(*e);
            if *y == x { if !out.iter().any(|c| c[0].c == path[0].c && c.len() <= path.len()) { out.push(path.clone()); } }
            else if left > 1 { go(graph, x, *y, path, left - 1, steps, out); }
            path.pop();
        }
    }
    let mut out = vec![];
    for n in 1..=4 { let mut steps = 0; go(graph, x, x, &mut vec![], n, &mut steps, &mut out); if out.len() >= 3 { break } }
    out
}
pub fn word_class(tb: &Table, s: &str) -> String {
    match s {
        "implements" | "interface" | "package" | "private" | "protected" | "public" => "sres".into(),
        "eof" | "num" | "str" | "re" | "tplN" | "tplH" | "tplM" | "tplT" | "sres" => "id".into(),
        _ => if tb.tok_ix.contains_key(s) { s.into() } else { "id".into() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Program, Dead, Mutate, Newline, Bracket, Words, Trivia, Stub, Graft, Cross, Loop }
pub struct Cfg { pub goals: Vec<usize>, pub alpha: Vec<Tok>, pub ops: Vec<Op>, pub depth: usize, pub cap: usize, pub per: usize, pub nl_heavy: u32, pub seq: u32 }
