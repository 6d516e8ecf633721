//! Interprets the grammar table that TLC exports from JsParse.tla.
use std::collections::HashMap;

pub type Tok = u16;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ev { pub c: Tok, pub nl: bool }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Sym { pub name: u16, pub ctx: u8 }

pub const CTX0: u8 = 1; // In on; bits: 1 In, 2 Yield, 4 Await, 8 Return

fn apply(c: u8, m: u8) -> u8 {
    match m {
        b'=' => c,
        b'I' => c | 1,
        b'X' => c & !1,
        b'F' => 1 | 8,
        b'G' => 1 | 2 | 8,
        b'A' => 1 | 4 | 8,
        b'B' => 1 | 2 | 4 | 8,
        b'W' => c & (1 | 8),
        b'V' => (c & (1 | 8)) | 4,
        _ => panic!("mod"),
    }
}
fn guard(g: u8, c: u8) -> bool {
    match g {
        b'-' => true,
        b'i' => c & 1 != 0,
        b'y' => c & 2 != 0,
        b'a' => c & 4 != 0,
        b'r' => c & 8 != 0,
        _ => panic!("guard"),
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Nt(usize),
    Terms(Vec<bool>),
    Nolt, Semi, Dsemi, Naf, Nfn,
    Not(Vec<bool>),
    Pos(Vec<bool>),
}
#[derive(Clone, Debug)]
pub struct Prod { pub body: Vec<(u16, u8)>, pub l: bool, pub g: u8, pub null: bool, pub semi: bool, pub first: Vec<bool> }

pub struct Table {
    pub toks: Vec<String>,
    pub tok_ix: HashMap<String, Tok>,
    pub names: Vec<String>,
    pub name_ix: HashMap<String, u16>,
    pub kinds: Vec<Kind>,
    pub prods: Vec<Vec<Prod>>, // per nonterminal
    pub nt_name: Vec<u16>,
    pub min: Vec<Vec<Tok>>,    // per nonterminal
    pub nfn: u16,
    /// dist[g][nt * 16 + ctx]: how many productions from nt in that context to g (u32::MAX: never)
    pub dist: Vec<Vec<u32>>,
}

impl Table {
    pub fn load(path: &str) -> Table {
        let text = std::fs::read_to_string(path).expect("grammar table");
        let mut toks = vec![];
        let mut sets: Vec<(char, String, Vec<String>)> = vec![];
        let mut nts: Vec<String> = vec![];
        for line in text.lines() {
            let mut it = line.split(' ');
            match it.next().unwrap() {
                "K" => toks = it.map(|s| s.to_string()).collect(),
                t @ "T" | t @ "X" | t @ "O" => {
                    let n = it.next().unwrap().to_string();
                    sets.push((t.chars().next().unwrap(), n, it.map(|s| s.to_string()).collect()));
                }
                "N" => nts.push(it.next().unwrap().to_string()),
                _ => {}
            }
        }
        let tok_ix: HashMap<String, Tok> = toks.iter().enumerate().map(|(i, s)| (s.clone(), i as Tok)).collect();
        let nt = toks.len();
        let bits = |v: &Vec<String>| { let mut b = vec![false; nt]; for s in v { b[tok_ix[s] as usize] = true; } b };
        let mut names: Vec<String> = vec![];
        let mut kinds: Vec<Kind> = vec![];
        let mut nt_name = vec![];
        for (i, n) in nts.iter().enumerate() { nt_name.push(names.len() as u16); names.push(n.clone()); kinds.push(Kind::Nt(i)); }
        for (t, n, v) in &sets {
            names.push(n.clone());
            kinds.push(match t { 'T' => Kind::Terms(bits(v)), 'X' => Kind::Not(bits(v)), _ => Kind::Pos(bits(v)) });
        }
        for (n, k) in [("NOLT", Kind::Nolt), ("SEMI", Kind::Semi), ("DSEMI", Kind::Dsemi), ("NAF", Kind::Naf), ("NFN", Kind::Nfn)] {
            names.push(n.to_string()); kinds.push(k);
        }
        for (i, s) in toks.iter().enumerate() {
            let mut b = vec![false; nt]; b[i] = true;
            names.push(s.clone()); kinds.push(Kind::Terms(b));
        }
        let mut name_ix: HashMap<String, u16> = HashMap::new();
        for (i, s) in names.iter().enumerate() { assert!(name_ix.insert(s.clone(), i as u16).is_none(), "dup {}", s); }
        let mut prods: Vec<Vec<Prod>> = vec![vec![]; nts.len()];
        let mut min: Vec<Vec<Tok>> = vec![vec![]; nts.len()];
        for line in text.lines() {
            if line.starts_with("R\t") {
                let f: Vec<&str> = line.split('\t').collect();
                let Kind::Nt(n) = kinds[name_ix[f[1]] as usize] else { panic!() };
                let words: Vec<&str> = f[7].split(' ').filter(|s| !s.is_empty()).collect();
                let body = words.chunks(2).map(|c| (name_ix[c[0]], c[1].as_bytes()[0])).collect();
                let first: Vec<String> = f[6].split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                prods[n].push(Prod { body, l: f[2] == "1", g: f[3].as_bytes()[0], null: f[4] == "1", semi: f[5] == "1", first: bits(&first) });
            } else if line.starts_with("M ") {
                let mut it = line.split(' ');
                it.next();
                let Kind::Nt(n) = kinds[name_ix[it.next().unwrap()] as usize] else { panic!() };
                min[n] = it.filter(|s| !s.is_empty()).map(|s| tok_ix[s]).collect();
            }
        }
        let nfn = name_ix["NFN"];
        let n = nts.len();
        let mut dist = vec![];
        for g in 0..n {
            let mut d = vec![u32::MAX; n * 16];
            for c in 0..16 { d[g * 16 + c] = 0; }
            loop {
                let mut ch = false;
                for a in 0..n { for c in 0..16u8 {
                    for p in &prods[a] {
                        if p.l || !guard(p.g, c) { continue }
                        for &(s, m) in &p.body {
                            if let Kind::Nt(b) = kinds[s as usize] {
                                let (x, y) = (b * 16 + apply(c, m) as usize, a * 16 + c as usize);
                                if d[x] != u32::MAX && d[x] + 1 < d[y] { d[y] = d[x] + 1; ch = true; }
                            }
                        }
                    }
                } }
                if !ch { break }
            }
            dist.push(d);
        }
        Table { toks, tok_ix, names, name_ix, kinds, prods, nt_name, min, nfn, dist }
    }
    pub fn t(&self, s: &str) -> Tok { *self.tok_ix.get(s).unwrap_or_else(|| panic!("token {}", s)) }
    pub fn nt(&self, s: &str) -> usize { match self.kinds[self.name_ix[s] as usize] { Kind::Nt(n) => n, _ => panic!("nt {}", s) } }
    pub fn sym_min(&self, s: Sym) -> Vec<Tok> {
        match &self.kinds[s.name as usize] {
            Kind::Nt(n) => self.min[*n].clone(),
            Kind::Semi | Kind::Dsemi => vec![self.t(";")],
            Kind::Terms(_) => {
                let n = &self.names[s.name as usize];
                let w = match n.as_str() { "BID" | "WORD" => "id", "LIT" => "num", "AOP" => "=", "BOP" => "+", "UNOP" => "!", "INC" => "++", x => x };
                vec![self.t(w)]
            }
            _ => vec![],
        }
    }
    pub fn show(&self, w: &[Ev]) -> String {
        w.iter().map(|e| format!("{}{}", if e.nl { "\\n" } else { "" }, self.toks[e.c as usize])).collect::<Vec<_>>().join(" ")
    }
    pub fn parse_evs(&self, s: &str) -> Vec<Ev> {
        s.split(' ').filter(|x| !x.is_empty()).map(|x| {
            let (nl, y) = if let Some(r) = x.strip_prefix("\\n") { (true, r) } else { (false, x) };
            Ev { c: self.t(y), nl }
        }).collect()
    }
}

#[derive(Clone, Debug)]
enum Out { Res(Vec<Sym>, bool), Pass(bool, bool) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status { Live, Loose, Dead }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict { Accept, Reject, Open }

pub type Set = u32;
pub const MANY: usize = 150;
pub struct Engine<'t> {
    pub tb: &'t Table,
    cells: Vec<(Sym, u32)>,                 // cell 0 is the empty stack
    cell_ix: HashMap<(Sym, u32), u32>,
    dmemo: HashMap<(Sym, Tok, bool, bool), std::rc::Rc<Vec<Out>>>,
    imemo: HashMap<(Sym, Tok, bool, bool), std::rc::Rc<Vec<Out>>>,
    /// Ignore guards, lookahead and line-terminator restrictions (only to find texts that break them).
    relax: bool,
    sets: Vec<std::rc::Rc<Vec<(u32, bool)>>>, // set 0 is empty
    set_ix: HashMap<std::rc::Rc<Vec<(u32, bool)>>, Set>,
    fmemo: HashMap<(Set, Tok, bool), Set>,
    pub feeds: u64,
    pub semi: Tok, pub eof: Tok, pub close: Tok, pub re: Tok, pub slash: Tok, pub slasheq: Tok, pub tplm: Tok, pub tplt: Tok,
    pub tplh: Tok, pub async_: Tok, pub function: Tok,
}

impl<'t> Engine<'t> {
    pub fn new(tb: &'t Table) -> Engine<'t> {
        let mut e = Engine {
            tb, cells: vec![(Sym { name: 0, ctx: 0 }, 0)], cell_ix: HashMap::new(), dmemo: HashMap::new(), imemo: HashMap::new(), relax: false,
            sets: vec![], set_ix: HashMap::new(), fmemo: HashMap::new(), feeds: 0,
            semi: tb.t(";"), eof: tb.t("eof"), close: tb.t("}"), re: tb.t("re"), slash: tb.t("/"), slasheq: tb.t("/="),
            tplm: tb.t("tplM"), tplt: tb.t("tplT"), tplh: tb.t("tplH"), async_: tb.t("async"), function: tb.t("function"),
        };
        e.intern(vec![]);
        e
    }
    /// Forgets memoised states when there are many; invalidates set numbers.
    pub fn trim(&mut self) -> bool {
        if self.cells.len() > 3_000_000 || self.sets.len() > 1_000_000 || self.fmemo.len() > 3_000_000 {
            self.cells.truncate(1);
            self.cell_ix.clear(); self.sets.clear(); self.set_ix.clear(); self.fmemo.clear();
            self.intern(vec![]);
            return true;
        }
        false
    }
    fn push(&mut self, s: Sym, tail: u32) -> u32 {
        if let Some(&i) = self.cell_ix.get(&(s, tail)) { return i }
        let i = self.cells.len() as u32;
        self.cells.push((s, tail));
        self.cell_ix.insert((s, tail), i);
        i
    }
    fn intern(&mut self, mut v: Vec<(u32, bool)>) -> Set {
        v.sort(); v.dedup();
        // drop a loose configuration when the strict one is there too
        let mut w: Vec<(u32, bool)> = Vec::with_capacity(v.len());
        for x in v { if let Some(&(s, false)) = w.last() { if s == x.0 { continue } } w.push(x); }
        if let Some(&i) = self.set_ix.get(&w) { return i }
        let i = self.sets.len() as Set;
        let r = std::rc::Rc::new(w);
        self.sets.push(r.clone());
        self.set_ix.insert(r, i);
        i
    }
    pub fn init(&mut self) -> Set {
        let e = Sym { name: self.tb.name_ix["eof"], ctx: CTX0 };
        let i = Sym { name: self.tb.name_ix["Items"], ctx: CTX0 };
        let a = self.push(e, 0);
        let b = self.push(i, a);
        self.intern(vec![(b, false)])
    }
    fn d_sym(&mut self, s: Sym, t: Ev) -> std::rc::Rc<Vec<Out>> {
        let key = (s, t.c, t.nl, self.relax);
        if let Some(r) = self.dmemo.get(&key) { return r.clone() }
        let tb = self.tb;
        let r = match &tb.kinds[s.name as usize] {
            Kind::Nt(n) => {
                let mut v = vec![];
                for p in &tb.prods[*n] {
                    if (p.first[t.c as usize] || p.null) && (if self.relax { !p.l } else { guard(p.g, s.ctx) }) {
                        let body: Vec<Sym> = p.body.iter().map(|&(x, m)| Sym { name: x, ctx: apply(s.ctx, m) }).collect();
                        for o in self.d_seq(&body, t) {
                            v.push(match o { Out::Res(b, l) => Out::Res(b, l || p.l), Out::Pass(l, w) => Out::Pass(l || p.l, w) });
                        }
                    }
                }
                v
            }
            Kind::Nolt => if t.nl && !self.relax { vec![] } else { vec![Out::Pass(false, false)] },
            Kind::Semi => if t.c == self.semi { vec![Out::Res(vec![], false)] } else { vec![] },
            Kind::Dsemi => if t.c == self.semi { vec![Out::Res(vec![], false)] } else { vec![Out::Pass(false, false)] },
            Kind::Naf => vec![Out::Pass(false, t.c == self.async_)],
            Kind::Nfn => if t.c == self.function && !t.nl && !self.relax { vec![] } else { vec![Out::Pass(false, false)] },
            Kind::Not(b) => if b[t.c as usize] && !self.relax { vec![] } else { vec![Out::Pass(false, false)] },
            Kind::Pos(b) => if b[t.c as usize] { vec![Out::Pass(false, false)] } else { vec![] },
            Kind::Terms(b) => if b[t.c as usize] { vec![Out::Res(vec![], false)] } else { vec![] },
        };
        let r = std::rc::Rc::new(r);
        self.dmemo.insert(key, r.clone());
        r
    }
    fn d_seq(&mut self, body: &[Sym], t: Ev) -> Vec<Out> {
        if body.is_empty() { return vec![Out::Pass(false, false)] }
        let head = self.d_sym(body[0], t);
        let mut v = vec![];
        for o in head.iter() {
            match o {
                Out::Res(b, l) => { let mut b = b.clone(); b.extend_from_slice(&body[1..]); v.push(Out::Res(b, *l)); }
                Out::Pass(l, w) => for o2 in self.d_seq(&body[1..], t) {
                    v.push(match o2 {
                        Out::Res(mut b, l2) => { if *w { b.insert(0, Sym { name: self.tb.nfn, ctx: 0 }); } Out::Res(b, *l || l2) }
                        Out::Pass(l2, w2) => Out::Pass(*l || l2, *w || w2),
                    });
                },
            }
        }
        v
    }
    fn derive(&mut self, stk: u32, t: Ev, l: bool, wrap: bool, out: &mut Vec<(u32, bool)>) {
        if stk == 0 { return }
        let (s, tail) = self.cells[stk as usize];
        let outs = self.d_sym(s, t);
        for o in outs.iter() {
            match o {
                Out::Res(b, l2) => {
                    let mut x = tail;
                    for &y in b.iter().rev() { x = self.push(y, x); }
                    if wrap { x = self.push(Sym { name: self.tb.nfn, ctx: 0 }, x); }
                    out.push((x, l || *l2));
                }
                Out::Pass(l2, w) => self.derive(tail, t, l || *l2, wrap || *w, out),
            }
        }
    }
    fn i_sym(&mut self, s: Sym, t: Ev) -> std::rc::Rc<Vec<Out>> {
        let key = (s, t.c, t.nl, self.relax);
        if let Some(r) = self.imemo.get(&key) { return r.clone() }
        let tb = self.tb;
        let r = match &tb.kinds[s.name as usize] {
            Kind::Nt(n) => {
                let mut v = vec![];
                for p in &tb.prods[*n] {
                    if (p.semi || p.null) && (if self.relax { !p.l } else { guard(p.g, s.ctx) }) {
                        let body: Vec<Sym> = p.body.iter().map(|&(x, m)| Sym { name: x, ctx: apply(s.ctx, m) }).collect();
                        for o in self.i_seq(&body, t) {
                            v.push(match o { Out::Res(b, l) => Out::Res(b, l || p.l), Out::Pass(l, w) => Out::Pass(l || p.l, w) });
                        }
                    }
                }
                v
            }
            Kind::Semi => vec![Out::Res(vec![], false)],
            Kind::Nfn => if t.c == self.function && !t.nl && !self.relax { vec![] } else { vec![Out::Pass(false, false)] },
            Kind::Nolt | Kind::Dsemi | Kind::Not(_) => vec![Out::Pass(false, false)],
            _ => vec![],
        };
        let r = std::rc::Rc::new(r);
        self.imemo.insert(key, r.clone());
        r
    }
    fn i_seq(&mut self, body: &[Sym], t: Ev) -> Vec<Out> {
        if body.is_empty() { return vec![Out::Pass(false, false)] }
        let head = self.i_sym(body[0], t);
        let mut v = vec![];
        for o in head.iter() {
            match o {
                Out::Res(b, l) => { let mut b = b.clone(); b.extend_from_slice(&body[1..]); v.push(Out::Res(b, *l)); }
                Out::Pass(l, _) => for o2 in self.i_seq(&body[1..], t) {
                    v.push(match o2 { Out::Res(b, l2) => Out::Res(b, *l || l2), Out::Pass(l2, w2) => Out::Pass(*l || l2, w2) });
                },
            }
        }
        v
    }
    fn insert(&mut self, stk: u32, t: Ev, l: bool, out: &mut Vec<(u32, bool)>) {
        if stk == 0 { return }
        let (s, tail) = self.cells[stk as usize];
        let outs = self.i_sym(s, t);
        for o in outs.iter() {
            match o {
                Out::Res(b, l2) => {
                    let mut x = tail;
                    for &y in b.iter().rev() { x = self.push(y, x); }
                    out.push((x, l || *l2));
                }
                Out::Pass(l2, _) => self.insert(tail, t, l || *l2, out),
            }
        }
    }
    pub fn feed(&mut self, x: Set, t: Ev) -> Set {
        if let Some(&r) = self.fmemo.get(&(x, t.c, t.nl)) { return r }
        self.feeds += 1;
        let confs = self.sets[x as usize].clone();
        let mut direct = vec![];
        for &(s, l) in confs.iter() { self.derive(s, t, l, false, &mut direct); }
        if t.nl || t.c == self.close || t.c == self.eof {
            let strict = direct.iter().any(|c| !c.1);
            let mut mid = vec![];
            for &(s, l) in confs.iter() { if l || !strict { self.insert(s, t, l, &mut mid); } }
            for (s, l) in mid { self.derive(s, t, l, false, &mut direct); }
        }
        let r = self.intern(direct);
        self.fmemo.insert((x, t.c, t.nl), r);
        r
    }
    /// Completions after a token that is possible here only without the restrictions of the grammar.
    pub fn relaxed(&mut self, x: Set, t: Ev) -> Vec<Vec<Tok>> {
        let confs = self.sets[x as usize].clone();
        let mut v = vec![];
        self.relax = true;
        for &(s, l) in confs.iter() { if !l { self.derive(s, t, l, false, &mut v); } }
        let mut mid = vec![];
        for &(s, l) in confs.iter() { if !l { self.insert(s, t, l, &mut mid); } }
        for (s, l) in mid { self.derive(s, t, l, false, &mut v); }
        self.relax = false;
        v.sort(); v.dedup(); v.truncate(40);
        let y = self.intern(v);
        self.completions(y)
    }
    /// Is there any way to consume t without inserting a semicolon?
    fn direct(&mut self, x: Set, c: Tok) -> bool {
        let confs = self.sets[x as usize].clone();
        let mut v = vec![];
        for &(s, l) in confs.iter() { self.derive(s, Ev { c, nl: false }, l, false, &mut v); if !v.is_empty() { return true } }
        false
    }
    pub fn slash_is_div(&mut self, x: Set) -> bool { let (a, b) = (self.slash, self.slasheq); self.direct(x, a) || self.direct(x, b) }
    pub fn brace_is_tpl(&mut self, x: Set) -> bool { let (a, b) = (self.tplm, self.tplt); self.direct(x, a) || self.direct(x, b) }
    /// The reading of a slash (or of a brace) is the same in each of the ways left open and in the others.
    pub fn clear(&mut self, x: Set, slash: bool) -> bool {
        let all = self.sets[x as usize].clone();
        if all.iter().all(|c| !c.1) || all.len() == 1 { return true }
        let strict: Vec<(u32, bool)> = all.iter().filter(|c| !c.1).cloned().collect();
        let y = if strict.is_empty() { x } else { self.intern(strict) };
        let v = |e: &mut Self, x: Set| if slash { e.slash_is_div(x) } else { e.brace_is_tpl(x) };
        let want = v(self, y);
        for &k in all.iter() {
            if !k.1 { continue }
            let z = self.intern(vec![k]);
            if v(self, z) == want { continue }
            let other = Ev { c: if slash { self.re } else { self.close }, nl: true };
            if !want || self.feed(z, other) != 0 { return false }
        }
        true
    }
    pub fn possible(&mut self, x: Set, t: Ev) -> bool {
        if t.c == self.slash || t.c == self.slasheq { self.slash_is_div(x) }
        else if t.c == self.re { !self.slash_is_div(x) }
        else if t.c == self.tplm || t.c == self.tplt { self.brace_is_tpl(x) }
        else if t.c == self.close { !self.brace_is_tpl(x) }
        else { true }
    }
    pub fn status(&self, x: Set) -> Status {
        let v = &self.sets[x as usize];
        if v.is_empty() { Status::Dead } else if v.iter().any(|c| !c.1) { Status::Live } else { Status::Loose }
    }
    pub fn verdict(&self, x: Set) -> Verdict {
        let v = &self.sets[x as usize];
        if v.is_empty() { Verdict::Reject } else if v.contains(&(0, false)) { Verdict::Accept } else { Verdict::Open }
    }
    /// Is every configuration of the set strict?
    pub fn all_strict(&self, x: Set) -> bool { self.sets[x as usize].iter().all(|c| !c.1) }
    pub fn size(&self, x: Set) -> usize { self.sets[x as usize].len() }
    pub fn n_sets(&self) -> usize { self.sets.len() }
    pub fn strict_stacks(&self, x: Set) -> Vec<Vec<Sym>> {
        self.sets[x as usize].iter().filter(|c| !c.1).map(|c| {
            let mut v = vec![]; let mut i = c.0;
            while i != 0 { let (s, t) = self.cells[i as usize]; v.push(s); i = t; }
            v
        }).collect()
    }
    /// Completions of the strict configurations, each a token sequence that ends in eof; shortest first.
    pub fn completions(&self, x: Set) -> Vec<Vec<Tok>> {
        let mut v: Vec<Vec<Tok>> = self.strict_stacks(x).iter().map(|st| st.iter().flat_map(|&s| self.tb.sym_min(s)).collect()).collect();
        v.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
        v.dedup();
        v
    }
    pub fn run(&mut self, w: &[Ev]) -> Vec<Set> {
        let mut x = self.init();
        let mut v = vec![x];
        for &t in w { x = self.feed(x, t); v.push(x); }
        v
    }
    /// As run, but gives up when too many readings are open at once (deeply nested brackets that may be patterns).
    pub fn run_bounded(&mut self, w: &[Ev]) -> Option<Vec<Set>> {
        let mut x = self.init();
        let mut v = vec![x];
        for &t in w { x = self.feed(x, t); v.push(x); if self.size(x) > MANY { return None } }
        Some(v)
    }
}
