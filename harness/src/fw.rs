//! Case runner: deterministic random cases, panic capture, watchdog, replay files.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn u8(&mut self) -> u8 {
        match self.below(6) {
            0 => 0,
            1 => 255,
            2 => 0x80,
            _ => self.next() as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(8) {
            0 => 0,
            1 => 65535,
            2 => 1,
            3 => 256,
            4 => 255,
            _ => self.next() as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => u32::MAX,
            2 => 1,
            3 => 65536,
            4 => 0x0100_0000,
            5 => self.next() as u16 as u32,
            _ => self.next() as u32,
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

/// A broken contract: `key` names the kind of failure (matched against known findings).
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return $crate::fw::fail($key, format!($($a)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(160);
    let mut s = String::new();
    for x in &b[..n] {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > n {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn cut(s: &str) -> String {
    if s.len() <= 600 { return s.to_string(); }
    let mut e = 600;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}..({} chars)", &s[..e], s.len())
}
pub fn dbg<T: std::fmt::Debug>(t: &T) -> String {
    cut(&format!("{t:?}"))
}

/// What a suite tells the runner about one case.
pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub thorough: bool,
    /// description of the case for the evidence samples
    pub note: String,
    /// fingerprint used to count distinct cases; 0 = derived from note
    pub trivial: bool,
    pub fp: u64,
}
impl Case {
    pub fn note(&mut self, s: impl Into<String>) {
        self.note = s.into();
    }
    pub fn fp(&mut self, b: &[u8]) {
        for x in b {
            self.fp = (self.fp ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
}

pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    /// number of exhaustively enumerated cases (indices 0..fixed), then random ones
    pub fixed: u64,
    pub weight: u64,
    pub run: fn(&mut Case) -> R,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub budget_ms: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub known: BTreeSet<String>,
    pub out: Option<String>,
    pub replay: Option<String>,
}
impl Opts {
    pub fn parse(a: &[String]) -> Opts {
        let mut o = Opts { prop: a.get(1).cloned().unwrap_or_default(), seed: 1, budget_ms: 5000, thorough: false, only: None, known: Default::default(), out: None, replay: None };
        let mut i = 2;
        while i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            match a[i].as_str() {
                "--seed" => o.seed = v.parse().unwrap_or(1),
                "--budget-ms" => o.budget_ms = v.parse().unwrap_or(5000),
                "--thorough" => { o.thorough = true; i += 1; continue; }
                "--out" => o.out = Some(v),
                "--replay" => o.replay = Some(v),
                "--known" => { o.known.insert(v); }
                "--only" => { let (s, n) = v.split_once(':').unwrap(); o.only = Some((s.to_string(), n.parse().unwrap())); }
                x => { eprintln!("unknown option {x}"); std::process::exit(2); }
            }
            i += 2;
        }
        o
    }
}

#[derive(Default)]
struct Shared {
    current: Mutex<(String, u64, Option<Instant>)>,
}

fn case_seed(seed: u64, suite: &str, idx: u64) -> u64 {
    let mut h = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    for b in suite.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn run_one(s: &Suite, seed: u64, idx: u64, thorough: bool) -> (Case, R) {
    let mut c = Case { rng: Rng::new(case_seed(seed, s.name, idx)), index: idx, thorough, note: String::new(), trivial: false, fp: 0xcbf29ce484222325 };
    let r = catch_unwind(AssertUnwindSafe(|| (s.run)(&mut c)));
    crate::clock::real();
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            fail("panic", format!("panicked: {m} at {loc}; case: {}", c.note))
        }
    };
    (c, r)
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4 / 1024
}

/// Runs the suites; returns the process exit code (0 held, 1 violation).
pub fn run(suites: Vec<Suite>, o: Opts) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|x| *x.borrow_mut() = l);
    }));
    if let Some((sn, idx)) = &o.only {
        let Some(s) = suites.iter().find(|s| s.name == sn) else { eprintln!("no suite {sn}"); return 2 };
        let (c, r) = run_one(s, o.seed, *idx, o.thorough);
        println!("case {sn} #{idx}: {}", c.note);
        return match r {
            Ok(()) => { println!("held"); 0 }
            Err(f) => { println!("FAILED [{}] {}", f.key, f.msg); 1 }
        };
    }
    let shared = Arc::new(Shared::default());
    let stop = Arc::new(AtomicU64::new(0));
    // watchdog
    {
        let sh = shared.clone();
        let stop = stop.clone();
        let prop = o.prop.clone();
        let replay = o.replay.clone();
        let seed = o.seed;
        let thorough = o.thorough;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if stop.load(Ordering::SeqCst) == 1 { return; }
            let (n, i, t) = sh.current.lock().unwrap().clone();
            let hung = t.map(|t| t.elapsed() > Duration::from_secs(25)).unwrap_or(false);
            let mem = rss_mb() > 4000;
            if hung || mem {
                let why = if hung { "did not terminate within 25 s" } else { "grew beyond 4000 MB" };
                let j = format!("{{\"property\":{},\"suite\":{},\"case\":{},\"seed\":{},\"thorough\":{},\"key\":\"nontermination\",\"failure\":{}}}\n", js(&prop), js(&n), i, seed, thorough, js(why));
                if let Some(p) = &replay { let _ = std::fs::write(p, j); }
                println!("B-FAIL suite={n} case={i} key=nontermination {why}");
                std::process::exit(1);
            }
        });
    }
    let t0 = Instant::now();
    let total_w: u64 = suites.iter().map(|s| s.weight).sum::<u64>().max(1);
    let mut evals = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut rules: Vec<String> = vec![];
    let mut per: Vec<String> = vec![];
    let mut known_hit: BTreeMap<String, (String, String, u64)> = BTreeMap::new();
    let mut fails: Vec<(String, u64, Fail)> = vec![];
    let mut deadline = t0;
    'outer: for s in &suites {
        rules.push(format!("{}: {}", s.name, s.rule));
        deadline += Duration::from_millis(o.budget_ms * s.weight / total_w);
        let mut idx = 0u64;
        let start_ev = evals;
        let mut nt = 0u64;
        loop {
            if idx >= s.fixed && (Instant::now() >= deadline || s.weight == 0) && idx >= s.fixed + if s.weight == 0 { 0 } else { 20 } { break; }
            *shared.current.lock().unwrap() = (s.name.to_string(), idx, Some(Instant::now()));
            let (c, r) = run_one(s, o.seed, idx, o.thorough);
            *shared.current.lock().unwrap() = (s.name.to_string(), idx, None);
            evals += 1;
            if !c.trivial {
                let mut h = c.fp;
                for b in s.name.bytes().chain(c.note.bytes()) { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
                if seen.len() < 5_000_000 && seen.insert(h) { nt += 1; }
            }
            if idx == 3 || idx == s.fixed + 11 {
                samples.push(format!("{} #{}: {}", s.name, idx, cut(&c.note)));
            }
            if let Err(f) = r {
                let k = format!("{}/{}", s.name, f.key);
                if o.known.contains(&k) {
                    known_hit.entry(k).or_insert((f.msg.clone(), s.name.to_string(), idx));
                } else {
                    fails.push((s.name.to_string(), idx, f));
                    break 'outer;
                }
            }
            idx += 1;
        }
        per.push(format!("{}={} cases/{} distinct non-trivial", s.name, evals - start_ev, nt));
    }
    stop.store(1, Ordering::SeqCst);
    for (k, (m, s, i)) in &known_hit {
        println!("B-KNOWN key={k} suite={s} case={i} {}", cut(m).replace('\n', " "));
    }
    if let Some(p) = &o.out {
        let j = format!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"per_suite\":{},\"samples\":[{}],\"known\":[{}],\"failures\":{}}}\n",
            evals, seen.len(), js(&rules.join(" | ")), js(&per.join("; ")),
            samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            known_hit.keys().map(|s| js(s)).collect::<Vec<_>>().join(","),
            fails.len());
        let _ = std::fs::write(p, j);
    }
    if let Some((sn, idx, f)) = fails.first() {
        let s = suites.iter().find(|s| s.name == sn).unwrap();
        let (c, _) = run_one(s, o.seed, *idx, o.thorough);
        let j = format!("{{\"property\":{},\"suite\":{},\"case\":{},\"seed\":{},\"thorough\":{},\"key\":{},\"input\":{},\"failure\":{},\"reproduce\":{}}}\n",
            js(&o.prop), js(sn), idx, o.seed, o.thorough, js(&f.key), js(&c.note), js(&f.msg),
            js(&format!("/verif/.build/target/release/fvh {} --seed {} --only {}:{}", o.prop, o.seed, sn, idx)));
        if let Some(p) = &o.replay { let _ = std::fs::write(p, j); }
        println!("B-FAIL suite={sn} case={idx} key={} {}", f.key, cut(&f.msg).replace('\n', " "));
        return 1;
    }
    println!("B-OK cases={evals} distinct={} in {} ms", seen.len(), t0.elapsed().as_millis());
    0
}
