//! Random sentences of the grammar.
use crate::gram::*;
use crate::rng::Rng;

pub struct Gen<'t> { pub tb: &'t Table, pub loose: u32, pub nl: u32, pub asi: u32 }

/// n: expansions so far; at: the one to change; goal: the one where the goal was reached; done: changed.
struct St { out: Vec<Ev>, force_nl: bool, no_nl: bool, cap: usize, n: usize, at: usize, goal: usize, done: bool, broken_nolt: bool, variant: Option<Variant> }
impl St { fn new(cap: usize, at: usize) -> St { St { out: vec![], force_nl: false, no_nl: false, cap, n: 0, at, goal: 0, done: false, broken_nolt: false, variant: None } } }

/// A body for nt: one of its productions, or one change away from one.  sub: the production to use for one of its symbols.
#[derive(Clone, Debug)]
pub struct Variant { pub nt: usize, pub body: Vec<(u16, u8)>, pub sub: Option<(usize, usize)> }

impl<'t> Gen<'t> {
    pub fn new(tb: &'t Table) -> Gen<'t> { Gen { tb, loose: 0, nl: 6, asi: 20 } }

    fn emit(&self, r: &mut Rng, st: &mut St, c: Tok) {
        let nl = if st.no_nl { false } else { st.force_nl || r.chance(self.nl) };
        st.force_nl = false; st.no_nl = false;
        st.out.push(Ev { c, nl });
    }
    fn term(&self, r: &mut Rng, name: &str, b: &[bool]) -> Tok {
        let v: Vec<Tok> = (0..b.len()).filter(|&i| b[i]).map(|i| i as Tok).collect();
        if v.len() == 1 { return v[0] }
        let t = |s: &str| self.tb.t(s);
        match name {
            "BID" => if r.chance(75) { return t("id") },
            "WORD" => if r.chance(40) { return t("id") },
            "LIT" => { let p = r.below(10); if p < 3 { return t("num") } if p < 5 { return t("re") } if p < 6 { return t("str") } }
            _ => {}
        }
        *r.pick(&v)
    }
    fn body_min(&self, p: &Prod) -> usize {
        p.body.iter().map(|&(s, _)| match &self.tb.kinds[s as usize] { Kind::Nt(n) => self.tb.min[*n].len(), Kind::Terms(_) | Kind::Semi | Kind::Dsemi => 1, _ => 0 }).sum()
    }
    /// depth: how many more expansions may be free; goal: nonterminal to reach.
    fn expand(&self, r: &mut Rng, st: &mut St, s: Sym, depth: i32, goal: Option<usize>, bonus: i32) {
        match &self.tb.kinds[s.name as usize] {
            Kind::Terms(b) => { let c = self.term(r, &self.tb.names[s.name as usize], b); self.emit(r, st, c) }
            Kind::Semi => {
                if r.chance(self.asi) { if !st.no_nl && r.chance(70) { st.force_nl = true; } } else { let c = self.tb.t(";"); self.emit(r, st, c) }
            }
            Kind::Dsemi => if r.chance(70) { let c = self.tb.t(";"); self.emit(r, st, c) },
            Kind::Nolt => if st.broken_nolt { st.broken_nolt = false; st.force_nl = true; } else { st.no_nl = true; st.force_nl = false; },
            Kind::Nt(n) => {
                let n = *n;
                let (mut goal, mut depth) = (goal, depth);
                if goal == Some(n) {
                    goal = None; depth = bonus; st.goal = st.n;
                    if let Some(v) = st.variant.take() {
                        for (i, &(y, m)) in v.body.iter().enumerate() {
                            let y = Sym { name: y, ctx: apply_mod(s.ctx, m) };
                            match v.sub {
                                Some((j, q)) if i == j => if let Kind::Nt(k) = self.tb.kinds[y.name as usize] {
                                    let b = self.tb.prods[k][q].body.clone();
                                    for (z, m) in b { self.expand(r, st, Sym { name: z, ctx: apply_mod(y.ctx, m) }, depth - 2, None, bonus); }
                                },
                                _ => self.expand(r, st, y, depth - 1, None, bonus),
                            }
                        }
                        return;
                    }
                }
                st.n += 1;
                if st.n == st.at { if let Some(b) = self.graft(r, n, s.ctx, st) {
                    st.done = true;
                    for y in b { self.expand(r, st, y, depth - 1, None, bonus); }
                    return;
                } else { st.at += 1; } }
                let ok: Vec<&Prod> = self.tb.prods[n].iter().filter(|p| guard_ok(p.g, s.ctx) && (!p.l || r.chance(self.loose))).collect();
                if ok.is_empty() {
                    for &t in &self.tb.min[n] { self.emit(r, st, t); }
                    return;
                }
                if let Some(g) = goal {
                    let d = &self.tb.dist[g];
                    let mut cands: Vec<(&Prod, usize, f64)> = vec![];
                    for p in &ok {
                        for (j, &(x, m)) in p.body.iter().enumerate() {
                            if let Kind::Nt(b) = self.tb.kinds[x as usize] {
                                let k = d[b * 16 + apply_mod(s.ctx, m) as usize];
                                if k != u32::MAX { cands.push((p, j, 0.45f64.powi(k as i32))); }
                            }
                        }
                    }
                    if !cands.is_empty() {
                        let tot: f64 = cands.iter().map(|c| c.2).sum();
                        let mut x = (r.next() % 1_000_000) as f64 / 1e6 * tot;
                        let mut k = cands.len() - 1;
                        for (i, c) in cands.iter().enumerate() { if x < c.2 { k = i; break } x -= c.2; }
                        let (p, j, _) = cands[k];
                        for (i, &(y, m)) in p.body.iter().enumerate() {
                            let y = Sym { name: y, ctx: apply_mod(s.ctx, m) };
                            if i == j { self.expand(r, st, y, depth - 1, goal, bonus) } else { self.expand(r, st, y, (depth - 3).max(1).min(4), None, bonus) }
                        }
                        return;
                    }
                }
                let p: &Prod = if depth <= 0 || st.out.len() > st.cap {
                    let m = ok.iter().map(|p| self.body_min(p)).min().unwrap();
                    let short: Vec<&&Prod> = ok.iter().filter(|p| self.body_min(p) <= m + if st.out.len() > st.cap { 0 } else { r.below(2) }).collect();
                    let i = r.below(short.len()); short[i]
                } else {
                    // recursion is likelier while there is depth left
                    let w: Vec<u64> = ok.iter().map(|p| if p.body.is_empty() { 2 } else { 3 }).collect();
                    let tot: u64 = w.iter().sum();
                    let mut x = r.next() % tot;
                    let mut k = 0;
                    for (i, &y) in w.iter().enumerate() { if x < y { k = i; break } x -= y; }
                    ok[k]
                };
                let body = p.body.clone();
                for (y, m) in body {
                    // right-recursive tails keep most of the depth
                    let used = if r.chance(30) { 2 } else { 1 };
                    self.expand(r, st, Sym { name: y, ctx: apply_mod(s.ctx, m) }, depth - used, None, bonus);
                }
            }
            _ => {}
        }
    }
    /// A body for n that is one change away from one of its productions.
    fn graft(&self, r: &mut Rng, n: usize, ctx: u8, st: &mut St) -> Option<Vec<Sym>> {
        let all: Vec<&Prod> = self.tb.prods[n].iter().filter(|p| !p.l).collect();
        let inst = |p: &Prod| -> Vec<Sym> { p.body.iter().map(|&(y, m)| Sym { name: y, ctx: apply_mod(ctx, m) }).collect() };
        let real: Vec<&Prod> = all.iter().filter(|p| guard_ok(p.g, ctx)).cloned().collect();
        if real.is_empty() { return None }
        let p = *r.pick(&real);
        let mut b = inst(p);
        let nts = |r: &mut Rng| -> u16 { let k = r.below(self.tb.nt_name.len()); self.tb.nt_name[k] };
        let term = |r: &mut Rng| -> u16 { let t = r.below(self.tb.toks.len()); self.tb.name_ix[&self.tb.toks[t]] };
        match r.below(12) {
            0 | 1 | 2 => {
                // the beginning of one production, the end of another
                let q = *r.pick(&all);
                let c = inst(q);
                if std::ptr::eq(p, q) { return None }
                let i = r.below(b.len() + 1); let j = r.below(c.len() + 1);
                b.truncate(i); b.extend_from_slice(&c[j..]);
            }
            3 => { if b.is_empty() { return None } let i = r.below(b.len()); b[i].name = if r.chance(70) { nts(r) } else { term(r) }; }
            4 | 5 => { if b.is_empty() { return None } let i = r.below(b.len()); b.remove(i); }
            6 => { if b.is_empty() { return None } let i = r.below(b.len()); let x = b[i]; b.insert(i, x); }
            7 => { if b.len() < 2 { return None } let i = r.below(b.len() - 1); b.swap(i, i + 1); }
            8 => {
                // a production that this context does not have
                let q: Vec<&Prod> = all.iter().filter(|p| !guard_ok(p.g, ctx)).cloned().collect();
                if q.is_empty() { return None }
                b = inst(*r.pick(&q));
            }
            9 => {
                // another context for a part, with something in it that depends on it
                if b.is_empty() { return None }
                let bit = 1u8 << r.below(4);
                for x in b.iter_mut() { x.ctx ^= bit; }
            }
            10 => { let i = r.below(b.len() + 1); let x = if r.chance(40) { nts(r) } else { term(r) }; b.insert(i, Sym { name: x, ctx }); }
            _ => {
                if !b.iter().any(|x| matches!(self.tb.kinds[x.name as usize], Kind::Nolt)) { return None }
                st.broken_nolt = true;
            }
        }
        Some(b)
    }
    /// Every production with every production of every symbol in it, and every body one change away from a production:
    /// a symbol left out, twice, exchanged with the next; the beginning of one production and the end of another;
    /// a symbol of a sibling or any token put in or put in place of another.
    pub fn variants(&self, nt: usize, wide: bool) -> Vec<Variant> {
        let mut out: Vec<Variant> = vec![];
        let prods: Vec<&Prod> = self.tb.prods[nt].iter().filter(|p| !p.l).collect();
        let special = |x: u16| !matches!(self.tb.kinds[x as usize], Kind::Nt(_) | Kind::Terms(_) | Kind::Semi | Kind::Dsemi);
        let mut pool: Vec<(u16, u8)> = vec![];
        for p in &prods { for &x in &p.body { if !special(x.0) && !pool.contains(&x) { pool.push(x); } } }
        if wide { for &n in &self.tb.nt_name { if !pool.iter().any(|x| x.0 == n) { pool.push((n, b'=')); } } }
        for t in &self.tb.toks { let i = self.tb.name_ix[t]; if t != "eof" && !pool.iter().any(|x| x.0 == i) { pool.push((i, b'=')); } }
        let mut seen: std::collections::HashSet<Vec<(u16, u8)>> = prods.iter().map(|p| p.body.clone()).collect();
        for p in &prods {
            out.push(Variant { nt, body: p.body.clone(), sub: None });
            for (j, &(y, _)) in p.body.iter().enumerate() {
                if let Kind::Nt(k) = self.tb.kinds[y as usize] { for q in 0..self.tb.prods[k].len() { out.push(Variant { nt, body: p.body.clone(), sub: Some((j, q)) }); } }
            }
        }
        let mut add = |b: Vec<(u16, u8)>| { if seen.insert(b.clone()) { out.push(Variant { nt, body: b, sub: None }); } };
        for p in &prods {
            let b = &p.body;
            for i in 0..b.len() {
                let mut c = b.clone(); c.remove(i); add(c);
                let mut c = b.clone(); c.insert(i, b[i]); add(c);
                if i + 1 < b.len() { let mut c = b.clone(); c.swap(i, i + 1); add(c); }
                for &x in &pool { let mut c = b.clone(); c[i] = x; add(c); }
            }
            for i in 0..=b.len() { for &x in &pool { let mut c = b.clone(); c.insert(i, x); add(c); } }
            for q in &prods { for i in 0..=b.len() { for j in 0..=q.body.len() { let mut c = b[..i].to_vec(); c.extend_from_slice(&q.body[j..]); add(c); } } }
        }
        out
    }
    /// A program with this variant in it.
    pub fn with_variant(&self, r: &mut Rng, v: &Variant, depth: i32, cap: usize) -> Option<Vec<Ev>> {
        let mut st = St::new(cap, usize::MAX);
        st.variant = Some(v.clone());
        let items = Sym { name: self.tb.name_ix["Items"], ctx: CTX0 };
        self.expand(r, &mut st, items, 8, Some(v.nt), depth);
        if st.variant.is_some() { return None }
        let e = self.tb.t("eof");
        st.out.retain(|x| x.c != e);
        self.emit(r, &mut st, e);
        Some(st.out)
    }
    /// A program with one change in its derivation.
    pub fn grafted(&self, r: &mut Rng, depth: i32, goal: Option<usize>, cap: usize) -> Vec<Ev> {
        let seed = r.clone();
        let (a, mark, n) = self.derive(r, depth, goal, cap, usize::MAX);
        if n == 0 { return a }
        let at = if r.chance(60) { mark + 1 + r.below((n - mark).min(12)) } else { 1 + r.below(n) };
        let mut again = seed;
        // the same derivation up to the change
        self.derive(&mut again, depth, goal, cap, at).0
    }
    fn derive(&self, r: &mut Rng, depth: i32, goal: Option<usize>, cap: usize, at: usize) -> (Vec<Ev>, usize, usize) {
        let mut st = St::new(cap, at);
        let items = Sym { name: self.tb.name_ix["Items"], ctx: CTX0 };
        self.expand(r, &mut st, items, if goal.is_some() { 8 } else { depth }, goal, depth);
        let e = self.tb.t("eof");
        st.out.retain(|x| x.c != e);
        self.emit(r, &mut st, e);
        (st.out, st.goal, st.n)
    }
    pub fn program(&self, r: &mut Rng, depth: i32, goal: Option<usize>, cap: usize) -> Vec<Ev> { self.derive(r, depth, goal, cap, usize::MAX).0 }
    pub fn fragment(&self, r: &mut Rng, nt: &str, ctx: u8, depth: i32, cap: usize) -> Vec<Ev> {
        let mut st = St::new(cap, usize::MAX);
        self.expand(r, &mut st, Sym { name: self.tb.name_ix[nt], ctx }, depth, None, depth);
        st.out
    }
}
pub fn guard_ok(g: u8, c: u8) -> bool {
    match g { b'-' => true, b'i' => c & 1 != 0, b'y' => c & 2 != 0, b'a' => c & 4 != 0, b'r' => c & 8 != 0, _ => false }
}
pub fn apply_mod(c: u8, m: u8) -> u8 {
    match m { b'=' => c, b'I' => c | 1, b'X' => c & !1, b'F' => 9, b'G' => 11, b'A' => 13, b'B' => 15, b'W' => c & 9, b'V' => (c & 9) | 4, _ => c }
}
