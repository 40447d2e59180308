//! The queue between the decoder's two threads (C05): driven operation by operation and in free races.
use crate::util::*;
use divans::interface::PredictionModeContextMap;
use divans::multithreading::{BufferedMultiWorker, MultiWorker};
use divans::threading::{CommandResult, MainToThread, ThreadData, ThreadToMain, NUM_DATA_BUFFERED, NUM_SERIAL_COMMANDS_BUFFERED};
use divans::slice_util::{AllocatedMemoryPrefix, AllocatedMemoryRange};
use divans::*;
use divans::interface::CopyCommand;
use alloc_stdlib::HeapAlloc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
type A8 = HeapAlloc<u8>;
type AC = HeapAlloc<StaticCommand>;
type Range = AllocatedMemoryRange<u8, A8>;
type Pm = PredictionModeContextMap<AllocatedMemoryPrefix<u8, A8>>;
type Main = MultiWorker<A8, AC>;
type Work = BufferedMultiWorker<A8, AC>;
fn ac() -> AC { AC::new(StaticCommand::nop()) }
fn prefix(bytes: &[u8]) -> AllocatedMemoryPrefix<u8, A8> { let mut m = A8::new(0).alloc_cell(bytes.len()); m.slice_mut().clone_from_slice(bytes); let n = bytes.len() as u32; AllocatedMemoryPrefix(m, n) }
fn id_bytes(id: usize, n: usize) -> Vec<u8> { (0..n).map(|i| if i < 4 { (id >> (8 * i)) as u8 } else { (id * 7 + i) as u8 }).collect() }
fn id_of(b: &[u8], n: usize) -> i64 { if b.len() != n { return -9; } let id = b[0] as usize | (b[1] as usize) << 8 | (b[2] as usize) << 16 | (b[3] as usize) << 24; if id_bytes(id, n) == b { id as i64 } else { -8 } }
fn data(id: usize) -> Range { let n = 4 + id % 60; AllocatedMemoryRange(prefix(&[&[0xEE; 3][..], &id_bytes(id, n)[..], &[0xDD; 2][..]].concat()).0, 3..3 + n) }
/// the id a buffer carries, whole (its range untouched) or emptied
fn data_id(d: &Range) -> i64 { let m = d.0.slice(); if m.len() < 9 { return -7; } let n = m.len() - 5; if m[..3] != [0xEE; 3] || m[3 + n..] != [0xDD; 2] { return -6; } id_of(&m[3..3 + n], n) }
fn cmap(id: usize) -> Pm { PredictionModeContextMap { literal_context_map: prefix(&id_bytes(id, 16)), predmode_speed_and_distance_context_map: prefix(&id_bytes(id, 9000)) } }
fn cm_id(p: &Pm) -> i64 { let a = id_of(p.literal_context_map.slice(), 16); let b = id_of(p.predmode_speed_and_distance_context_map.slice(), 9000); if a == b { a } else { -5 } }
fn cmd_id(c: &StaticCommand) -> i64 { match c { Command::Copy(c) => if c.num_bytes == (c.distance * 3) & 0xffff { c.distance as i64 } else { -4 }, Command::PredictionMode(_) => -1, _ => -3 } }

#[derive(Clone, Debug)]
pub enum Op { Push(usize), PushCm(usize), Pull, Eod, Err, PullData, PullCm, Cmd(usize), Pred(usize), Consumed(usize), Weof }
impl Op { fn json(&self) -> String { let (o, i) = match self { Op::Push(i) => ("push", *i), Op::PushCm(i) => ("pushcm", *i), Op::Pull => ("pull", 0), Op::Eod => ("eod", 0), Op::Err => ("err", 0), Op::PullData => ("pulldata", 0), Op::PullCm => ("pullcm", 0), Op::Cmd(i) => ("cmd", *i), Op::Pred(i) => ("pred", *i), Op::Consumed(i) => ("consumed", *i), Op::Weof => ("weof", 0) }; format!("{{\"op\":\"{}\",\"id\":{}}}", o, i) } }
#[derive(Clone, Debug, PartialEq)]
pub enum Res { Ok, Fail, Full, Again, Data(i64), Cm(i64), Eof, Err, Pulled { st: &'static str, cmds: Vec<i64>, datas: Vec<i64>, cms: Vec<i64> } }
impl Res { fn json(&self) -> String { let l = |v: &Vec<i64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","); match self {
    Res::Ok => "{\"st\":\"ok\"}".into(), Res::Fail => "{\"st\":\"fail\"}".into(), Res::Full => "{\"st\":\"full\"}".into(), Res::Again => "{\"st\":\"again\"}".into(), Res::Eof => "{\"st\":\"eof\"}".into(), Res::Err => "{\"st\":\"err\"}".into(),
    Res::Data(i) => format!("{{\"st\":\"data\",\"id\":{}}}", i), Res::Cm(i) => format!("{{\"st\":\"cm\",\"id\":{}}}", i),
    Res::Pulled { st, cmds, datas, cms } => format!("{{\"st\":\"{}\",\"cmds\":[{}],\"datas\":[{}],\"cms\":[{}]}}", st, l(cmds), l(datas), l(cms)) } } }

/// one side of the queue with what it holds
pub enum Side { M { w: Main, held: Vec<Range>, cms: Vec<Pm>, cbuf: AllocatedMemoryPrefix<StaticCommand, AC> }, W { w: Work, held: Vec<Range>, cms: Vec<Pm> } }
fn out2(x: DivansOutputResult) -> Res { match x { DivansOutputResult::Success => Res::Ok, DivansOutputResult::NeedsMoreOutput => Res::Again, DivansOutputResult::Failure(_) => Res::Fail } }
impl Side {
    pub fn run(&mut self, op: &Op) -> Res {
        match self {
            Side::M { w, held, cms, cbuf } => match op {
                Op::Push(id) => {
                    let mut d = match held.iter().position(|d| data_id(d) == *id as i64) { Some(k) => { let mut d = held.remove(k); let n = d.0.slice().len(); d.1 = 3..n - 2; d } None => data(*id) };
                    match w.push(&mut d) { Ok(()) => if d.0.slice().len() == 0 && d.1.len() == 0 { Res::Ok } else { Res::Again }, Err(()) => if data_id(&d) == *id as i64 { held.push(d); Res::Full } else { Res::Again } }
                }
                Op::PushCm(id) => { let k = cms.iter().position(|c| cm_id(c) == *id as i64).unwrap(); let c = cms.remove(k); match w.push_context_map(c) { Ok(()) => Res::Ok, Err(()) => Res::Again } }
                Op::Pull => {
                    let mut dat = [Range::default(), Range::default()];
                    let mut pm = [divans::threading::empty_prediction_mode_context_map(), divans::threading::empty_prediction_mode_context_map()];
                    cbuf.1 = 0;
                    let st = match w.pull(cbuf, &mut dat, &mut pm) { CommandResult::Ok => "ok", CommandResult::Eof => "eof", CommandResult::Err(_) => "err" };
                    let cmds = cbuf.0.slice()[..cbuf.1 as usize].iter().map(cmd_id).collect(); cbuf.1 = 0;
                    let mut datas = vec![]; for d in dat.iter_mut() { if d.0.slice().len() != 0 { datas.push(data_id(d)); held.push(core::mem::replace(d, Range::default())); } }
                    let mut ids = vec![]; for p in pm.iter_mut() { if p.has_context_speeds() { ids.push(cm_id(p)); cms.push(core::mem::replace(p, divans::threading::empty_prediction_mode_context_map())); } }
                    Res::Pulled { st, cmds, datas, cms: ids }
                }
                Op::Eod => { w.push_end_of_data(); Res::Ok }
                Op::Err => { MainToThread::<A8>::broadcast_err(w, ErrMsg::UnexpectedEof); Res::Ok }
                _ => unreachable!(),
            },
            Side::W { w, held, cms } => match op {
                Op::PullData => match w.pull_data() { ThreadData::Data(d) => { let i = if d.1.len() + 5 == d.0.slice().len() { data_id(&d) } else { -2 }; held.push(d); Res::Data(i) } ThreadData::Eof => Res::Eof, ThreadData::Err(_) => Res::Err, ThreadData::Yield => Res::Again },
                Op::PullCm => match w.pull_context_map(None) { Ok(c) => { let i = cm_id(&c); cms.push(c); Res::Cm(i) } Err(()) => Res::Err },
                Op::Cmd(id) => { let mut c = Command::Copy(CopyCommand { distance: *id as u32, num_bytes: (*id as u32 * 3) & 0xffff }); out2(w.push_cmd(&mut c, None, None, &mut DecoderSpecialization::new(), &mut [], &mut 0)) }
                Op::Pred(id) => { let k = cms.iter().position(|c| cm_id(c) == *id as i64).unwrap(); let mut c = Command::PredictionMode(cms.remove(k));
                    let r = out2(w.push_cmd(&mut c, None, None, &mut DecoderSpecialization::new(), &mut [], &mut 0));
                    if let Command::PredictionMode(p) = c { if p.has_context_speeds() { cms.push(p); } } r }
                Op::Consumed(id) => { let k = held.iter().position(|d| data_id(d) == *id as i64).unwrap(); let mut d = held.remove(k); d.1.start = d.1.end;
                    let r = out2(w.push_consumed_data(&mut d, None)); if d.0.slice().len() != 0 { held.push(d); } r }
                Op::Weof => out2(w.push_eof()),
                Op::Err => { ThreadToMain::<A8>::broadcast_err(w, ErrMsg::UnexpectedEof); Res::Ok }
                _ => unreachable!(),
            },
        }
    }
    fn held(&self) -> Vec<usize> { match self { Side::M { held, .. } | Side::W { held, .. } => held.iter().map(|d| data_id(d) as usize).collect() } }
    fn cms(&self) -> Vec<usize> { match self { Side::M { cms, .. } | Side::W { cms, .. } => cms.iter().map(|d| cm_id(d) as usize).collect() } }
}
fn pair() -> (Side, Side, Main) {
    let w = Work::new(&mut ac()); let m = w.worker.clone(); let third = w.worker.clone();
    (Side::M { w: m, held: vec![], cms: vec![], cbuf: AllocatedMemoryPrefix(ac().alloc_cell(NUM_SERIAL_COMMANDS_BUFFERED), 0) }, Side::W { w, held: vec![], cms: vec![] }, third)
}
// ---------------------------------------------------------------- one operation at a time, seeing who sleeps
struct Th { tx: mpsc::Sender<Op>, side: Arc<Mutex<Side>>, started: Arc<AtomicBool>, done: Arc<AtomicBool>, res: Arc<Mutex<Option<Res>>>, stat: String, busy: bool, failed: bool, name: &'static str, h: Option<std::thread::JoinHandle<()>> }
extern "C" { fn syscall(n: i64) -> i64; }
fn spawn(name: &'static str, side: Side) -> Th {
    let (tx, rx) = mpsc::channel::<Op>(); let side = Arc::new(Mutex::new(side));
    let started = Arc::new(AtomicBool::new(false)); let done = Arc::new(AtomicBool::new(false)); let res = Arc::new(Mutex::new(None));
    let (s2, st2, d2, r2) = (side.clone(), started.clone(), done.clone(), res.clone());
    let (ttx, trx) = mpsc::channel();
    let h = std::thread::spawn(move || {
        ttx.send(unsafe { syscall(186) }).unwrap();
        while let Ok(op) = rx.recv() {
            let mut g = s2.lock().unwrap_or_else(|e| e.into_inner()); st2.store(true, SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.run(&op)));
            drop(g); *r2.lock().unwrap() = r.ok(); d2.store(true, SeqCst);
        }
    });
    let tid = trx.recv().unwrap();
    Th { tx, side, started, done, res, stat: format!("/proc/self/task/{}/stat", tid), busy: false, failed: false, name, h: Some(h) }
}
impl Th {
    fn issue(&mut self, op: &Op) { self.started.store(false, SeqCst); self.done.store(false, SeqCst); self.busy = true;
        ev("inv").s("th", self.name).j("op", &op.json()).done(); self.tx.send(op.clone()).unwrap(); }
    /// waits until the operation has returned or its thread is asleep inside it
    fn settle(&mut self) {
        let mut asleep = 0;
        loop {
            if self.done.load(SeqCst) {
                self.busy = false; let r = self.res.lock().unwrap().take();
                self.failed = r == Some(Res::Fail); match r { Some(r) => ev("ret").s("th", self.name).j("r", &r.json()).done(), None => ev("died").s("th", self.name).done() }
                return;
            }
            if self.started.load(SeqCst) {
                let s = std::fs::read_to_string(&self.stat).unwrap_or_default();
                let st = s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
                if st == 'S' && !self.done.load(SeqCst) { asleep += 1; } else { asleep = 0; }
                if asleep >= 4 { ev("blk").s("th", self.name).done(); return; }
                for _ in 0..200 { std::hint::spin_loop(); }
            } else { std::thread::yield_now(); }
        }
    }
}
pub fn c05(a: &Args) {
    for k in a.cases(2000, 40000) {
        let mut r = a.rng(k);
        case(&format!("C05 steps {}", k), 60, || steps(&mut r, k));
    }
    for k in a.cases(4000, 100000) {
        let mut r = a.rng(1_000_000 + k);
        case(&format!("C05 race {}", k), 30, || race(&mut r));
    }
}
fn steps(r: &mut Rng, k: u64) {
    let (m, w, mut third) = pair();
    ev("start").i("cap", NUM_SERIAL_COMMANDS_BUFFERED).i("k", k as usize).done();
    let mut m = spawn("m", m); let mut w = spawn("w", w);
    let mut next = 1usize; let mut ended = false; let mut eod = false; let mut asked = false; let mut cmleft = 0i64;
    for id in [70001usize, 70002] { if r.one_in(8) { break; } third.push_context_map(cmap(id)).unwrap(); ev("cm").i("id", id).done(); cmleft += 1; }
    let full = k % 560 < 8; let heavy = full || r.one_in(8); let n = if full { r.range(500, 1000) } else if heavy { r.range(100, 900) } else { r.range(3, 60) };
    let (pm, pull) = if heavy { (1, 60) } else { (r.range(1, 8), r.range(1, 8)) };
    let _ = NUM_DATA_BUFFERED;
    for _ in 0..n {
        if m.busy && w.busy { break; }
        let main = if m.busy { false } else if w.busy { true } else { r.below(if full { 400 } else if heavy { 32 } else { 2 }) == 0 };
        let t = if main { &mut m } else { &mut w };
        let (held, cms) = { let g = t.side.lock().unwrap_or_else(|e| e.into_inner()); (g.held(), g.cms()) };
        let op = if main {
            if !cms.is_empty() && r.one_in(2) { Op::PushCm(*r.pick(&cms)) }
            else { match r.below(6 + pull) {
                0 => if !held.is_empty() { Op::Push(*r.pick(&held)) } else { next += 1; Op::Push(next) },
                1 | 2 => { next += 1; Op::Push(next) }
                3 if r.one_in(6) => { eod = true; Op::Eod }
                4 if r.one_in(10) => Op::Err,
                _ => Op::Pull } }
        } else {
            if ended { if m.busy { break; } else { continue; } }
            if !cms.is_empty() && r.one_in(if full { 30 } else { 3 }) { Op::Pred(*r.pick(&cms)) }
            else if !held.is_empty() && r.one_in(if full { 60 } else if heavy { 40 } else { 3 }) { Op::Consumed(*r.pick(&held)) }
            else { match r.below(8 + 2 * pm + if full { 150 } else if heavy { 200 } else { 0 }) {
                0 | 1 => Op::PullData,
                2 if cms.is_empty() => Op::PullCm,
                3 if r.one_in(4) => { ended = true; Op::Weof }
                4 if r.one_in(10) => Op::Err,
                _ => { next += 1; Op::Cmd(next) } } }
        };
        let _ = eod;
        let op = if full { match op { Op::Pull if w.busy && asked => { next += 1; Op::Push(next) } Op::PullCm if cmleft == 0 => { next += 1; Op::Cmd(next) } o => o } } else { op };
        let t = if main { &mut m } else { &mut w };
        if !main { asked = matches!(op, Op::PullData); if matches!(op, Op::PullCm) { cmleft -= 1; } } else if matches!(op, Op::PushCm(_)) { cmleft += 1; }
        t.issue(&op); t.settle();
        if t.failed { if main { break } else { ended = true } }    // whoever is refused gives up
        let o = if main { &mut w } else { &mut m };
        if o.busy { o.settle(); if o.failed && main { ended = true; } }
    }
    // whoever still waits is released by an error, one call each
    for _ in 0..2 {
        if !(m.busy || w.busy) { break; }
        ev("inv").s("th", "x").j("op", &Op::Err.json()).done();
        MainToThread::<A8>::broadcast_err(&mut third, ErrMsg::UnexpectedEof);
        ev("ret").s("th", "x").j("r", &Res::Ok.json()).done();
        // with one waiting it must return now; with two, one of them
        let both = m.busy && w.busy;
        if both {
            loop { if m.done.load(SeqCst) || w.done.load(SeqCst) { break; } std::thread::yield_now(); }
            std::thread::sleep(Duration::from_millis(1));
            if m.done.load(SeqCst) { m.settle(); } if w.done.load(SeqCst) { w.settle(); }
        } else { if m.busy { m.settle(); } else { w.settle(); } }
    }
    if m.busy || w.busy { ev("stuck").done(); flush_trace(); std::process::exit(0); }
    if !ended { m.issue(&Op::Pull); m.settle(); if m.busy { ev("inv").s("th", "x").j("op", &Op::Err.json()).done(); MainToThread::<A8>::broadcast_err(&mut third, ErrMsg::UnexpectedEof); ev("ret").s("th", "x").j("r", &Res::Ok.json()).done(); m.settle(); } }
    let (mh, wh) = (m.h.take().unwrap(), w.h.take().unwrap());
    drop(m.tx); drop(w.tx); let _ = mh.join(); let _ = wh.join();
}
// ---------------------------------------------------------------- free races of the two
struct Log { clock: Arc<AtomicU64>, out: Vec<(Op, Res, u64, u64)>, r: Rng, jitter: usize }
impl Log {
    fn run(&mut self, s: &mut Side, op: Op) -> Res {
        match self.jitter { 0 => {} j => match self.r.below(8) { 0 => for _ in 0..self.r.below(40 << j) { std::hint::spin_loop(); }, 1 => std::thread::yield_now(), 2 if j > 4 && self.r.one_in(4) => std::thread::sleep(Duration::from_micros(self.r.below(60) as u64)), _ => {} } }
        let b = self.clock.fetch_add(1, SeqCst); let x = s.run(&op); let e = self.clock.fetch_add(1, SeqCst);
        self.out.push((op, x.clone(), b, e)); x
    }
    fn json(&self) -> String { format!("[{}]", self.out.iter().map(|(o, x, b, e)| format!("{{\"op\":{},\"r\":{},\"s\":{},\"e\":{}}}", o.json(), x.json(), b, e)).collect::<Vec<_>>().join(",")) }
}
fn race(r: &mut Rng) {
    let (mut m, mut w, mut third) = pair();
    ev("start").i("cap", NUM_SERIAL_COMMANDS_BUFFERED).done();
    for id in [70001usize, 70002] { third.push_context_map(cmap(id)).unwrap(); ev("cm").i("id", id).done(); }
    let clock = Arc::new(AtomicU64::new(0));
    let buffers = r.range(0, 12); let jm = r.below(8); let jw = r.below(8); let eof_at = if r.one_in(4) { r.below(12) } else { 99 }; let err_at = if r.one_in(8) { r.below(12) } else { 99 };
    let most = *r.pick(&[0usize, 1, 3, 8, 30]); let preds = r.below(4); let late = r.one_in(3);
    let mut lw = Log { clock: clock.clone(), out: vec![], r: Rng::new(r.next(), 1, 1), jitter: jw };
    let mut lm = Log { clock, out: vec![], r: Rng::new(r.next(), 2, 2), jitter: jm };
    let hw = std::thread::spawn(move || {
        // the worker: a buffer, its commands, the buffer back - before or after them
        let mut next = 1000; let mut n = 0;
        loop {
            let id = match lw.run(&mut w, Op::PullData) { Res::Data(i) => i as usize, _ => { lw.run(&mut w, Op::Err); break; } };
            if !late { if lw.run(&mut w, Op::Consumed(id)) != Res::Ok { lw.run(&mut w, Op::Err); break; } }
            let mut bad = false;
            for _ in 0..lw.r.below(most + 1) {
                let x = if lw.r.below(8) < preds { match lw.run(&mut w, Op::PullCm) { Res::Cm(i) => lw.run(&mut w, Op::Pred(i as usize)), _ => Res::Fail } } else { next += 1; lw.run(&mut w, Op::Cmd(next)) };
                if x != Res::Ok { bad = true; break; }
            }
            if bad { lw.run(&mut w, Op::Err); break; }
            if n == err_at { lw.run(&mut w, Op::Err); break; }
            if n == eof_at { lw.run(&mut w, Op::Weof); break; }
            if late { if lw.run(&mut w, Op::Consumed(id)) != Res::Ok { lw.run(&mut w, Op::Err); break; } }
            n += 1;
        }
        (lw, w)
    });
    // the main thread, as the decoder does it
    let mut sent = 0; let mut outst = 0; let quit = if lm.r.one_in(10) { lm.r.below(10) } else { 999 }; let mut turns = 0;
    loop {
        turns += 1; if turns == quit { lm.run(&mut m, Op::Err); }
        if sent < buffers { if lm.run(&mut m, Op::Push(1 + sent)) == Res::Ok { sent += 1; outst += 1; } }
        if outst == 0 && sent == buffers { lm.run(&mut m, Op::Eod); }
        let x = lm.run(&mut m, Op::Pull);
        if let Res::Pulled { st, datas, cms, .. } = &x {
            for _ in datas { outst -= 1; if sent < buffers { if lm.run(&mut m, Op::Push(1 + sent)) == Res::Ok { sent += 1; outst += 1; } } }
            for c in cms { lm.run(&mut m, Op::PushCm(*c as usize)); }
            if *st != "ok" { break; }
        }
    }
    let (lw, w) = hw.join().unwrap();
    ev("race").j("m", &lm.json()).j("w", &lw.json()).done();
    drop(w);
}
