//! Shared plumbing: random numbers, the trace file, the watchdog, panics as data.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng {
        let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ a.wrapping_mul(0xD1B54A32D192ED03) ^ b.wrapping_mul(0x8CB92BA72F3D8DD7);
        x ^= x >> 31; x = x.wrapping_mul(0x94D049BB133111EB); x ^= x >> 29; x |= 1;
        let mut r = Rng(x); for _ in 0..4 { r.next(); } r
    }
    pub fn next(&mut self) -> u64 { let mut s = self.0; s ^= s << 13; s ^= s >> 7; s ^= s << 17; self.0 = s; s.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// size with a logarithmic spread
    pub fn logsize(&mut self, max: usize) -> usize { let bits = self.below(64 - (max as u64).leading_zeros() as usize + 1); let m = (1usize << bits).min(max); self.below(m + 1) }
}

pub static TRACE: Mutex<Option<BufWriter<File>>> = Mutex::new(None);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static STOPPED: AtomicBool = AtomicBool::new(false);
pub fn open_trace(p: &str) { *TRACE.lock().unwrap() = Some(BufWriter::with_capacity(1 << 16, File::create(p).expect("trace file"))); }
pub fn flush_trace() { if let Some(w) = TRACE.lock().unwrap().as_mut() { w.flush().unwrap(); } }
pub fn raw_line(s: &str) {
    if STOPPED.load(Ordering::SeqCst) { return; }
    EVENTS.fetch_add(1, Ordering::Relaxed);
    if let Some(w) = TRACE.lock().unwrap_or_else(|e| e.into_inner()).as_mut() { w.write_all(s.as_bytes()).unwrap(); w.write_all(b"\n").unwrap(); }
}
pub struct Ev(String);
impl Ev {
    pub fn new(name: &str) -> Ev { Ev(format!("{{\"ev\":\"{}\"", name)) }
    pub fn i(mut self, k: &str, v: usize) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn n(mut self, k: &str, v: i64) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn b(mut self, k: &str, v: bool) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn s(mut self, k: &str, v: &str) -> Ev { self.0 += &format!(",\"{}\":\"{}\"", k, esc(v)); self }
    pub fn a<T: std::fmt::Display>(mut self, k: &str, v: &[T]) -> Ev {
        self.0 += &format!(",\"{}\":[", k);
        for (i, x) in v.iter().enumerate() { if i > 0 { self.0.push(','); } self.0 += &x.to_string(); }
        self.0.push(']'); self
    }
    pub fn j(mut self, k: &str, v: &str) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn done(mut self) { self.0.push('}'); raw_line(&self.0); }
}
pub fn ev(name: &str) -> Ev { Ev::new(name) }
pub fn esc(s: &str) -> String { s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { '_' } else { c }).take(900).collect() }

// ---- watchdog: a case that does not finish is an event of the trace, not a hang of the harness
static DEADLINE: Mutex<Option<(Instant, String)>> = Mutex::new(None);
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(200));
        let g = DEADLINE.lock().unwrap();
        if let Some((t, ref what)) = *g {
            if Instant::now() > t {
                ev("hang").s("what", what).done();
                STOPPED.store(true, Ordering::SeqCst);
                // the trace lock may be held by the stuck thread only for the length of one write
                flush_trace();
                eprintln!("HANG {}", what);
                std::process::exit(0);
            }
        }
    });
}
pub fn arm(what: &str, secs: u64) { *DEADLINE.lock().unwrap() = Some((Instant::now() + Duration::from_secs(secs), what.to_string())); }
pub fn disarm() { *DEADLINE.lock().unwrap() = None; }

// ---- panics
pub static LASTPANIC: Mutex<Option<String>> = Mutex::new(None);
pub fn hook_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).or(i.payload().downcast_ref::<divans::ErrMsg>().map(|e| format!("{:?}", e))).unwrap_or("?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LASTPANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{} at {}", msg, loc));
    }));
}
pub fn take_panic() -> Option<String> { LASTPANIC.lock().unwrap_or_else(|e| e.into_inner()).take() }
/// Runs one case; a panic anywhere (also in a thread the code under test started) becomes a trace event.
pub fn case<F: FnOnce()>(what: &str, secs: u64, f: F) {
    take_panic();
    arm(what, secs);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    disarm();
    let p = take_panic();
    if r.is_err() || p.is_some() { ev("panic").s("what", &p.unwrap_or("?".into())).s("case", what).done(); }
}

pub struct Args { pub cmd: String, pub seed: u64, pub tier: String, pub shard: u64, pub nshards: u64, pub out: String, pub case: Option<u64>, pub extra: Vec<String> }
impl Args {
    pub fn parse() -> Args {
        let a: Vec<String> = std::env::args().collect();
        let mut r = Args { cmd: a.get(1).cloned().unwrap_or_default(), seed: 1, tier: "quick".into(), shard: 0, nshards: 1, out: "/dev/null".into(), case: None, extra: vec![] };
        let mut i = 2;
        while i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            match a[i].as_str() {
                "--seed" => { r.seed = v.parse().unwrap(); i += 2 }
                "--tier" => { r.tier = v; i += 2 }
                "--shard" => { let mut p = v.split('/'); r.shard = p.next().unwrap().parse().unwrap(); r.nshards = p.next().unwrap().parse().unwrap(); i += 2 }
                "--out" => { r.out = v; i += 2 }
                "--case" => { r.case = Some(v.parse().unwrap()); i += 2 }
                _ => { r.extra.push(a[i].clone()); i += 1 }
            }
        }
        r
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// the case numbers of this shard out of `n`
    pub fn cases(&self, quick: u64, thorough: u64) -> Vec<u64> {
        if let Some(c) = self.case { return vec![c]; }
        let n = if self.thorough() { thorough } else { quick };
        (0..n).filter(|k| k % self.nshards == self.shard).collect()
    }
    pub fn rng(&self, k: u64) -> Rng { Rng::new(self.seed, self.cmd.bytes().fold(7u64, |h, b| h.wrapping_mul(31) + b as u64), k) }
}
/// order-sensitive digest of a byte string, small enough for the model checker's integers
pub fn digest(b: &[u8]) -> usize { let mut h = 0xcbf29ce484222325u64; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); } ((h ^ (h >> 32)) & 0x3fffffff) as usize }
