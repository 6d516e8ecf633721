mod text;
mod rng; mod gram; mod gen; mod render; mod real; mod parse; mod lex;
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Mutex, atomic::{AtomicBool, AtomicU64, Ordering}};
use std::time::{Duration, Instant};
use gram::*;
use parse::*;
use rng::Rng;

extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }

/// What a worker is doing, for the watchdog and for a crash of the whole process.
pub struct Slot { since: AtomicU64, what: Mutex<String>, t0: Instant, journal: Option<Mutex<std::fs::File>> }
impl Slot {
    fn new(journal: Option<String>) -> Slot { Slot { since: AtomicU64::new(0), what: Mutex::new(String::new()), t0: Instant::now(), journal: journal.map(|p| Mutex::new(std::fs::File::create(p).unwrap())) } }
    pub fn begin(&self, s: &str) {
        *self.what.lock().unwrap() = s.to_string();
        if let Some(j) = &self.journal {
            use std::io::Seek;
            let mut f = j.lock().unwrap();
            let _ = f.set_len(0); let _ = f.seek(std::io::SeekFrom::Start(0)); let _ = f.write_all(s.as_bytes());
        }
        self.since.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    pub fn end(&self) { self.since.store(0, Ordering::SeqCst); }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0x7e => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts(HashMap<String, String>);
impl Opts {
    fn get(&self, k: &str) -> Option<&str> { self.0.get(k).map(|s| s.as_str()) }
    fn num(&self, k: &str, d: u64) -> u64 { self.get(k).map(|s| s.parse().expect(k)).unwrap_or(d) }
    fn list(&self, k: &str) -> Vec<String> { self.get(k).map(|s| s.split_whitespace().map(|x| x.to_string()).collect()).unwrap_or_default() }
}

fn op_of(s: &str) -> Op {
    match s { "program" => Op::Program, "dead" => Op::Dead, "mutate" => Op::Mutate, "newline" => Op::Newline, "bracket" => Op::Bracket, "words" => Op::Words, "trivia" => Op::Trivia, "stub" => Op::Stub, "graft" => Op::Graft, "loop" => Op::Loop, "cross" => Op::Cross, _ => panic!("op {}", s) }
}

pub fn report(out: &mut dyn Write, stats: &Stats, viol: &[Violation], hits: &[String]) {
    for v in viol {
        let _ = writeln!(out, "{{\"violation\":{},\"text\":{},\"tokens\":{},\"expected\":{},\"got\":{}}}", esc(&v.what), esc(&v.text), esc(&v.toks), esc(&v.expect), esc(&v.got));
    }
    for h in hits { let _ = writeln!(out, "{{\"known\":{}}}", esc(h)); }
    let n: Vec<String> = stats.n.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let s: Vec<String> = stats.samples.iter().map(|s| esc(s)).collect();
    let _ = writeln!(out, "{{\"stats\":{{{}}},\"states\":{},\"feeds\":{},\"samples\":[{}]}}", n.join(","), stats.states, stats.feeds, s.join(","));
}

/// Waits for the workers; a case that does not end is a violation.
fn watch<T>(stop: &AtomicBool, hard: &AtomicBool, secs: u64, hs: &[&std::thread::JoinHandle<T>], slots: &[Arc<Slot>], out: &mut dyn Write) {
    let t0 = Instant::now();
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if t0.elapsed() > Duration::from_secs(secs) { stop.store(true, Ordering::Relaxed); }
        // on a slow machine, go on until the least number of rounds is done, but not for ever
        if t0.elapsed() > Duration::from_secs(secs * 5) { hard.store(true, Ordering::Relaxed); }
        if hs.iter().all(|h| h.is_finished()) { break }
        for s in slots {
            let b = s.since.load(Ordering::SeqCst);
            if b > 0 && s.t0.elapsed().as_millis() as u64 > b + 15000 {
                let v = Violation { what: "hang".into(), text: s.what.lock().unwrap().clone(), toks: String::new(), expect: "an end".into(), got: "no end after 15 s".into() };
                report(out, &Stats::default(), &[v], &[]);
                let _ = out.flush();
                std::process::exit(0);
            }
        }
    }
}

/// \\n, \\r, \\t, \\s (space), \\uXXXX; and \\\\ for a backslash.
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && i + 1 < cs.len() {
            i += 1;
            match cs[i] {
                'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'), 's' => o.push(' '),
                'u' => { let h: String = cs[i + 1..i + 5].iter().collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()); i += 4; }
                c => o.push(c),
            }
        } else { o.push(cs[i]) }
        i += 1;
    }
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let mut o = HashMap::new();
    for a in args { let (k, v) = a.split_once('=').expect("key=value"); o.insert(k.to_string(), v.to_string()); }
    let o = Opts(o);
    // the parser prints timings; keep them out of the way
    let mut out: Box<dyn Write> = if o.get("dump").is_some() { Box::new(std::io::stdout()) } else {
        unsafe {
            let keep = dup(1);
            use std::os::fd::{AsRawFd, FromRawFd};
            if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") { dup2(null.as_raw_fd(), 1); }
            Box::new(std::fs::File::from_raw_fd(keep))
        }
    };
    std::env::set_var("RUST_BACKTRACE", "0"); std::env::set_var("RUST_LIB_BACKTRACE", "0");
    real::install_hook();
    match cmd.as_str() {
        "one" => {
            let s = match o.get("file") { Some(f) => std::fs::read_to_string(f).unwrap(), None => o.get("text").unwrap().to_string() };
            let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || real::parse_text(&s)).unwrap();
            let r = h.join().unwrap();
            let _ = writeln!(out, "{} {}{}", r.outcome.name(), r.msg, if r.over { " [over-read]" } else { "" });
            for x in &r.recs { let _ = writeln!(out, "{} {:?} {:?} {} {:?}..{:?} expr={} tpl={}", x.seen.kind, x.seen.a, x.seen.b, x.seen.num, x.seen.start, x.seen.end, x.expr, x.tpl); }
        }
        "judge" => {
            let tb = Table::load(o.get("grammar").unwrap());
            let mut e = Engine::new(&tb);
            let w = tb.parse_evs(o.get("toks").unwrap());
            let v = e.run(&w);
            for (i, x) in v.iter().enumerate() { let _ = writeln!(out, "{} {:?} {}", if i > 0 { tb.toks[w[i - 1].c as usize].as_str() } else { "-" }, e.status(*x), e.size(*x)); }
            let _ = writeln!(out, "{:?}", e.verdict(*v.last().unwrap()));
        }
        "random" => {
            let threads = o.num("threads", 8) as usize;
            let secs = o.num("secs", 5);
            let seed = o.num("seed", 1);
            let rounds = o.num("rounds", u64::MAX);
            let tb: &'static Table = Box::leak(Box::new(Table::load(o.get("grammar").unwrap())));
            let known: Vec<String> = o.get("known").map(|f| std::fs::read_to_string(f).unwrap().lines().map(|l| l.to_string()).collect()).unwrap_or_default();
            let cfg = Arc::new(Cfg {
                goals: o.list("goals").iter().map(|s| tb.nt(s)).collect(),
                alpha: o.list("alpha").iter().map(|s| tb.t(s)).collect(),
                ops: { let v: Vec<Op> = o.list("ops").iter().map(|s| op_of(s)).collect(); if v.is_empty() { vec![Op::Program, Op::Dead, Op::Mutate] } else { v } },
                depth: o.num("depth", 9) as usize, cap: o.num("cap", 60) as usize, per: o.num("per", 12) as usize,
                nl_heavy: o.num("nl", 15) as u32, seq: o.num("seq", 10) as u32,
            });
            let stop = Arc::new(AtomicBool::new(false));
            let hard = Arc::new(AtomicBool::new(false));
            let least = o.num("least", 0) / threads as u64;
            let journal = o.get("journal").map(|s| s.to_string());
            let mut slots = vec![]; let mut hs = vec![];
            let check_over = o.num("over", 0) == 1;
            for i in 0..threads {
                let slot = Arc::new(Slot::new(journal.as_ref().map(|j| format!("{}.{}", j, i))));
                slots.push(slot.clone());
                let (cfg, stop, hard, known) = (cfg.clone(), stop.clone(), hard.clone(), known.clone());
                let dump = o.get("dump").is_some();
                let rec = o.get("record").map(|p| format!("{}.{}", p, i));
                let nrec = o.num("nrecord", 40) as usize;
                let pull = o.num("pull", 0) == 1;
                let replay = o.get("replay").map(|s| s.to_string());
                let pump = o.num("pump", 0) as usize;
                let lt: Option<&'static lex::LexTable> = o.get("lex").map(|f| &*Box::leak(Box::new(lex::LexTable::load(f))));
                let treplay = o.get("treplay").map(|s| s.to_string());
                let texts = o.num("texts", 0) as usize;
                let tleast = o.num("tleast", 0) as usize / threads;
                let (vmin, vmax, wide) = (o.num("variants", 0) as usize, o.num("vgoals", 0) as usize, o.num("wide", 0) == 1);
                hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                    let mut t = Tester { tb, eng: Engine::new(tb), rend: render::Renderer::new(tb), stats: Stats::default(), viol: vec![], known, hits: vec![], slot, check_over, ends: HashMap::new(), loops: HashMap::new(),
                        record: rec.map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap())), record_left: nrec, dump, whole: texts > 0, seen: 0 };
                    let mut r = Rng::new(seed.wrapping_mul(1000003).wrapping_add(i as u64));
                    if let Some(p) = &replay {
                        let res = if pull { t.pulls(p, (i, threads)) } else { t.edges(&mut r, p, (i, threads), &stop) };
                        if let Err(e) = res { eprintln!("{}", e); std::process::exit(3) }
                    }
                    if pump > 0 && replay.is_none() { t.pumped(&mut r, &cfg, pump, &stop); }
                    if vmax > 0 { t.variants(&mut r, &cfg, (i, threads), (vmin, vmax), wide, &stop); }
                    if let Some(p) = &treplay { if let Err(e) = t.text_replay(lt.unwrap(), p, (i, threads), &stop) { eprintln!("{}", e); std::process::exit(3) } }
                    if texts > 0 { t.texts(lt.unwrap(), &mut r, &cfg, texts, tleast, &stop, &hard); }
                    let mut n = 0;
                    while vmax == 0 && texts == 0 && treplay.is_none() && replay.is_none() && (!stop.load(Ordering::Relaxed) || n < least) && !hard.load(Ordering::Relaxed) && n < rounds && t.viol.len() < 3 { t.round(&mut r, &cfg); n += 1; }
                    if replay.is_none() && treplay.is_none() && texts == 0 && vmax == 0 { t.stats.n.insert("rounds".into(), n); }
                    if let Some(mut f) = t.record.take() { let _ = f.flush(); }
                    (t.stats, t.viol, t.hits)
                }).unwrap());
            }
            watch(&stop, &hard, secs, &hs.iter().collect::<Vec<_>>(), &slots, &mut *out);
            let mut stats = Stats::default(); let mut viol = vec![]; let mut hits = vec![];
            for h in hs { let (s, v, k) = h.join().unwrap(); stats.merge(s); viol.extend(v); hits.extend(k); }
            report(&mut *out, &stats, &viol, &hits);
        }
        "lex" => {
            // texts at random, or all texts over an alphabet of characters
            let threads = o.num("threads", 8) as usize;
            let secs = o.num("secs", 5);
            let seed = o.num("seed", 1);
            let rounds = o.num("rounds", u64::MAX);
            let tb: &'static lex::LexTable = Box::leak(Box::new(lex::LexTable::load(o.get("lex").unwrap())));
            let chars: Arc<Vec<char>> = Arc::new(o.get("chars").unwrap_or("").chars().collect());
            let len = o.num("len", 0) as usize;
            let stop = Arc::new(AtomicBool::new(false));
            let hard = Arc::new(AtomicBool::new(false));
            let least = o.num("least", 0) / threads as u64;
            let mut slots = vec![]; let mut hs = vec![];
            for i in 0..threads {
                let slot = Arc::new(Slot::new(o.get("journal").map(|j| format!("{}.{}", j, i))));
                slots.push(slot.clone());
                let (stop, hard, chars) = (stop.clone(), hard.clone(), chars.clone());
                let props = o.list("props");
                let memoryless = o.num("memory", 0) == 1;
                let pump = o.num("pump", 0);
                let replay = o.get("replay").map(|s| s.to_string());
                let rec = o.get("record").map(|p| format!("{}.{}", p, i));
                let nrec = o.num("nrecord", 20) as usize;
                let f = lex::Focus { alpha: o.list("alpha").iter().map(|s| tb.class_ix(s)).collect(), frags: o.list("frags").iter().map(|s| unesc(s)).collect(), long: o.num("long", 2) as u32, plain: o.num("plain", 0) == 1 };
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let mut t = lex::LexTester { tb, stats: Stats::default(), cov: vec![0; tb.modes.len() * tb.classes.len() * 4], viol: vec![], props, memoryless, slot,
                        record: rec.map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap())), record_left: nrec };
                    let mut r = Rng::new(seed.wrapping_mul(1000003).wrapping_add(i as u64));
                    if let Some(p) = &replay {
                        if let Err(e) = lex::replay(&mut t, p, (i, threads)) { eprintln!("{}", e); std::process::exit(3) }
                    } else if len > 0 {
                        // every text up to this length with every constant hint; the threads share the last character
                        let k = chars.len();
                        'all: for n in 0..=len {
                            let total = (k as u64).pow(n as u32);
                            let mut x = i as u64;
                            while x < total {
                                let mut s = String::new();
                                let mut y = x;
                                for _ in 0..n { s.push(chars[(y % k as u64) as usize]); y /= k as u64; }
                                for h in [(false, false), (true, true), (true, false), (false, true)] {
                                    if h.0 && !s.contains('/') { continue }
                                    if h.1 && !s.contains('}') { continue }
                                    if !t.case(&s, &vec![h; n + 3]) && t.viol.len() >= 3 { break 'all }
                                }
                                x += threads as u64;
                                if x & 1023 == 0 && stop.load(Ordering::Relaxed) { t.stats.add("exhaustive:cut short"); break 'all }
                            }
                            t.stats.n.insert(format!("exhaustive:length {}", n), total / threads as u64);
                        }
                    } else {
                        for j in 0..pump * 8 {
                            // lengths past what fits in 8, 9, 12 and 16 bits
                            if t.viol.len() >= 3 { break }
                            if stop.load(Ordering::Relaxed) { t.stats.add("pumped:cut short"); break }
                            let top = match j % 8 { 0 => 70000 + r.below(5000), 1 => 5000, 2 | 3 => 1100, _ => 270 + r.below(300) };
                            let hints: Vec<lex::H> = match r.below(3) { 0 => vec![], 1 => vec![(true, false); top + 400], _ => vec![(true, true); top + 400] };
                            let s = lex::pumped_text(tb, &mut r, &f, top);
                            t.case(&s, &hints);
                            t.stats.add("pumped");
                        }
                        let mut n = 0;
                        while (!stop.load(Ordering::Relaxed) || n < least) && !hard.load(Ordering::Relaxed) && n < rounds && t.viol.len() < 3 {
                            let hints: Vec<lex::H> = match r.below(4) { 0 => vec![], _ => (0..40).map(|_| (r.chance(50), r.chance(50))).collect() };
                            let s = lex::random_text(tb, &mut r, &f, &hints);
                            t.case(&s, &hints);
                            if t.stats.samples.len() < 6 && n % 997 == 5 { t.stats.samples.push(s.chars().take(60).collect()); }
                            n += 1;
                        }
                    }
                    if let Some(mut f) = t.record.take() { let _ = f.flush(); }
                    (t.stats, t.viol, t.cov)
                }).unwrap());
            }
            watch(&stop, &hard, secs, &hs.iter().collect::<Vec<_>>(), &slots, &mut *out);
            let mut stats = Stats::default(); let mut viol = vec![]; let mut cov = vec![0u64; tb.modes.len() * tb.classes.len() * 4];
            for h in hs { let (s, v, c) = h.join().unwrap(); stats.merge(s); viol.extend(v); for (a, b) in cov.iter_mut().zip(c) { *a += b } }
            for (text, h, m) in &viol {
                let hint: Vec<String> = h.iter().map(|h| format!("{}{}", if h.0 { "e" } else { "-" }, if h.1 { "t" } else { "-" })).collect();
                let _ = writeln!(out, "{{\"violation\":{},\"text\":{},\"tokens\":{},\"expected\":{},\"got\":{},\"props\":{}}}", esc(&m.what), esc(text), esc(&hint.join(" ")), esc(&m.want), esc(&m.got), esc(&m.props.join(" ")));
            }
            let live: usize = lex::reachable_rows(tb);
            let hit = cov.iter().filter(|c| **c > 0).count();
            stats.n.insert("rows exercised".into(), hit as u64); stats.n.insert("rows".into(), live as u64);
            report(&mut *out, &stats, &[], &[]);
        }
        _ => panic!("unknown command"),
    }
    let _ = out.flush();
}
