//! C19: everything the two coders of a stream read, for Format.tla.
use crate::codecs::*; use crate::data; use crate::replay::{self, C, P}; use crate::util::*;
use alloc_stdlib::HeapAlloc;
use divans::interface::{ArithmeticEncoderOrDecoder, BillingCapability, NewWithAllocator, ReadableBytes, WritableBytes};
use divans::*;
use divans::{Decompressor, DivansDecompressorFactory};
use std::cell::RefCell;
type Raw = <Fac as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>>::DefaultDecoder;
#[derive(Default)]
struct Log { made: usize, seen: [Vec<i32>; 2] }
thread_local! { static LOG: RefCell<Log> = RefCell::new(Log::default()); }
/// the decoder of the library, and what it is asked for; the first one made reads the commands, the second the literals
struct Rec { inner: Raw, id: usize }
impl NewWithAllocator<HeapAlloc<u8>> for Rec {
    fn new(m: &mut HeapAlloc<u8>) -> Self { Rec { inner: <Raw as NewWithAllocator<HeapAlloc<u8>>>::new(m), id: LOG.with(|l| { let mut l = l.borrow_mut(); l.made += 1; l.made - 1 }) } }
    fn free(&mut self, m: &mut HeapAlloc<u8>) { <Raw as NewWithAllocator<HeapAlloc<u8>>>::free(&mut self.inner, m) }
}
impl BillingCapability for Rec {}
impl ArithmeticEncoderOrDecoder for Rec {
    fn mov(&mut self) -> Self { Rec { inner: self.inner.mov(), id: self.id } }
    fn drain_or_fill_internal_buffer_unchecked(&mut self, i: &mut ReadableBytes, o: &mut WritableBytes) -> DivansResult { self.inner.drain_or_fill_internal_buffer_unchecked(i, o) }
    fn has_data_to_drain_or_fill(&self) -> bool { self.inner.has_data_to_drain_or_fill() }
    fn get_or_put_bit_without_billing(&mut self, b: &mut bool, p: u8) { self.inner.get_or_put_bit_without_billing(b, p); self.say(&[16 + *b as i32, p as i32, 0]) }
    fn get_or_put_nibble_without_billing<T: CDF16>(&mut self, n: &mut u8, p: &T) -> divans::ProbRange {
        let r = self.inner.get_or_put_nibble_without_billing(n, p); self.say(&[*n as i32, r.start as i32, r.freq as i32]); r
    }
    fn close(&mut self) -> DivansResult { self.inner.close() }
}
impl Rec { fn say(&self, v: &[i32]) { LOG.with(|l| { let mut l = l.borrow_mut(); let id = self.id.min(1); l.seen[id].extend(v) }) } }
type RDec = DivansDecompressor<Rec, HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
fn read(note: &str, st: &[u8], oc: usize, ic: usize) {
    LOG.with(|l| *l.borrow_mut() = Log::default());
    let mut d: RDec = match newdec(false, false) { DivansDecompressor::Header(h) => DivansDecompressor::Header(h), _ => return };
    let mut buf = vec![0u8; oc]; let (mut pos, mut stall) = (0, 0); let mut out: Vec<u8> = vec![];
    let v = loop {
        let end = (pos + ic).min(st.len()); let mut io = 0; let mut oo = 0;
        let x = r3(d.decode(&st[pos..end], &mut io, &mut buf, &mut oo)); pos += io; out.extend(&buf[..oo]);
        match x { R::Ok => break "OK", R::Err => break "ERR", _ => {} }
        if io == 0 && oo == 0 { stall += 1; if stall > 4 { break "STALL" } } else { stall = 0 }
        if out.len() > 1 << 20 { break "MORE" }
    };
    d.free();
    LOG.with(|l| { let l = l.borrow(); ev("reading").s("note", note).s("v", v).i("w", st[5] as usize).i("coders", l.made).a("cmd", &l.seen[0]).a("lit", &l.seen[1]).a("out", &out).done(); });
}
pub fn c19f(a: &Args) {
    for k in a.cases(400, 6000) {
        let mut r = a.rng(k); let kind = (k / 8) % 10; let w = if r.one_in(5) { 10 } else { r.range(10, 24) };
        let mut o = data::opts(&mut r); o.window_size = Some(w as i32);
        let (ic, oc) = (*r.pick(&[1usize << 16, 1 << 16, 7, 1]), *r.pick(&[1usize << 16, 1 << 16, 9]));
        let mut note = format!("C19F {} kind{} {}", k, kind, data::show(&o));
        case(&note.clone(), 120, || {
            let st = if kind < 3 {
                let n = r.logsize(1500); let mut b = vec![]; data::gen_n(&mut r, n, &mut b);
                note += &format!(" n{}", n); compress(kind == 0, o, &b).ok()
            } else {
                // maps are long to read: most programs have none
                let long = kind == 8 && r.one_in(2);
                if long { o.dynamic_context_mixing = Some(2); o.use_context_map = r.one_in(2); }
                let mut p = if long { // the weights of the two models after much agreement
                    let n = r.range(3000, 6000); let mut b = vec![]; data::gen_n(&mut r, n, &mut b);
                    if r.one_in(2) { let q = r.range(1, 40); let mut i = q; while i < b.len() { b[i] = if r.one_in(60) { b[i] } else { b[i - q] }; i += 1; } }
                    replay::Prog { cs: vec![P::C(C::Pred(replay::predmode(&mut r, false))), P::C(C::Lit(b))], total: n, starts: vec![] }
                } else if kind == 3 { replay::maps(&mut r) } else { let steps = r.range(1, 60); let far = w == 10 && r.one_in(2); replay::prog(&mut r, w, if far { 2600 } else { 1200 }, steps, false) };
                let keep = if kind == 3 { 2 } else if kind < 6 || long { 1 } else { 0 }; let mut maps = 0;
                p.cs.retain(|c| match c { P::C(C::Pred(_)) => { maps += 1; maps <= keep } _ => true });
                let cs: Vec<C> = p.cs.iter().map(|c| c.c()).collect();
                let internal = r.one_in(2); note += if internal { " int" } else { " hyb" };
                replay::encode(&mut r, internal, o, &cs, 1 << 16)
            };
            match st { Some(st) => read(&note, &st, oc, ic), None => ev("refused").done() }
        });
    }
}
