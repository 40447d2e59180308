//! C06: what the codecs take from the caller's allocators and give back, over whole lives.
use crate::codecs::*; use crate::data; use crate::util::*;
use alloc_no_stdlib::{Allocator, SliceWrapper, SliceWrapperMut};
use divans::*;
use divans::{Compressor, Decompressor, DivansDecompressorFactory, DivansDecompressorFactoryStruct};
use std::os::raw::c_void;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---- the process heap: what is left of it when everything was released
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
thread_local! { static OUTSIDE: std::cell::Cell<(bool, usize)> = const { std::cell::Cell::new((false, 0)) }; }
fn note(n: usize) { OUTSIDE.with(|c| { let (on, k) = c.get(); if on { c.set((on, k + n)) } }) }
/// bytes this thread takes from the process heap while f runs, except in the caller's own allocator
pub fn heap_taken<X>(f: impl FnOnce() -> X) -> (X, usize) { OUTSIDE.with(|c| c.set((true, 0))); let x = f(); let n = OUTSIDE.with(|c| c.replace((false, 0)).1); (x, n) }
fn own<X>(f: impl FnOnce() -> X) -> X { let was = OUTSIDE.with(|c| { let (on, k) = c.get(); c.set((false, k)); on }); let x = f(); OUTSIDE.with(|c| { let (_, k) = c.get(); c.set((was, k)) }); x }
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); LIVE.fetch_add(l.size(), Ordering::Relaxed); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); LIVE.fetch_add(l.size(), Ordering::Relaxed); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size(), Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { note(n); LIVE.fetch_add(n, Ordering::Relaxed); LIVE.fetch_sub(l.size(), Ordering::Relaxed); std::alloc::System.realloc(p, l, n) }
}
pub fn threads() -> usize { std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) }
/// waits until the process is back to `t` threads and `h` live bytes (or 10 s); what remains above them
pub fn settle(t: usize, h: usize) -> (usize, usize) {
    let t0 = std::time::Instant::now();
    loop {
        let (a, b) = (threads().saturating_sub(t), LIVE.load(Ordering::SeqCst).saturating_sub(h));
        if (a == 0 && b == 0) || t0.elapsed().as_millis() > 3000 { return (a, b) }
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
}

// ---- the caller's allocator, native form
pub struct Book { next: usize, pub live: usize, pub dropped: usize, pub quiet: bool }
pub static BOOK: Mutex<Book> = Mutex::new(Book { next: 0, live: 0, dropped: 0, quiet: false });
pub static ON: AtomicBool = AtomicBool::new(false);
fn book() -> std::sync::MutexGuard<'static, Book> { BOOK.lock().unwrap_or_else(|e| e.into_inner()) }
fn opened(n: usize) -> usize { let mut b = book(); b.next += 1; b.live += 1; let id = b.next; if !b.quiet { ev("alloc").i("id", id).i("n", n).done(); } id }
fn closed(id: usize, n: usize) { let mut b = book(); b.live = b.live.wrapping_sub(1); if !b.quiet { ev("free").i("id", id).i("n", n).done(); } }
#[derive(Debug)]
pub struct LMem<T> { id: usize, v: Vec<T> }
impl<T> Default for LMem<T> { fn default() -> Self { LMem { id: 0, v: vec![] } } }
impl<T> SliceWrapper<T> for LMem<T> { fn slice(&self) -> &[T] { &self.v } }
impl<T> SliceWrapperMut<T> for LMem<T> { fn slice_mut(&mut self) -> &mut [T] { &mut self.v } }
impl<T> core::ops::Index<usize> for LMem<T> { type Output = T; fn index(&self, i: usize) -> &T { &self.v[i] } }
impl<T> core::ops::IndexMut<usize> for LMem<T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.v[i] } }
impl<T> Drop for LMem<T> { fn drop(&mut self) { if self.id != 0 { book().dropped += 1; } } }
#[derive(Clone)]
pub struct LAlloc<T: Clone> { val: T }
impl<T: Clone> LAlloc<T> { pub fn new(val: T) -> Self { LAlloc { val } } }
impl<T: Clone + Default> Default for LAlloc<T> { fn default() -> Self { LAlloc { val: T::default() } } }
impl<T: Clone> Allocator<T> for LAlloc<T> {
    type AllocatedMemory = LMem<T>;
    // a native allocator of size zero has nothing to give: such a block is no one's
    fn alloc_cell(&mut self, n: usize) -> LMem<T> { if n == 0 { return LMem::default() } LMem { id: opened(n), v: vec![self.val.clone(); n] } }
    fn free_cell(&mut self, mut m: LMem<T>) { if m.id != 0 { closed(m.id, m.v.len()); m.id = 0; } }
}
type LFac = DivansDecompressorFactoryStruct<LAlloc<u8>, LAlloc<DefaultCDF16>, LAlloc<StaticCommand>>;
type LDec = DivansDecompressor<<LFac as DivansDecompressorFactory<LAlloc<u8>, LAlloc<DefaultCDF16>, LAlloc<StaticCommand>>>::DefaultDecoder, LAlloc<u8>, LAlloc<DefaultCDF16>, LAlloc<StaticCommand>>;
type LCFac = DivansCompressorFactoryStruct<LAlloc<u8>, LAlloc<DefaultCDF16>>;
type LIComp = <LCFac as DivansCompressorFactory<LAlloc<u8>, LAlloc<u32>, LAlloc<DefaultCDF16>>>::ConstructedCompressor;
type LBA = brotli::enc::CombiningAllocator<LAlloc<u8>, LAlloc<u16>, LAlloc<i32>, LAlloc<u32>, LAlloc<u64>, LAlloc<brotli::enc::command::Command>, LAlloc<brotli::enc::util::floatX>, LAlloc<brotli::enc::v8>, LAlloc<brotli::enc::s16>, LAlloc<brotli::enc::PDF>, LAlloc<brotli::enc::StaticCommand>, LAlloc<brotli::enc::histogram::HistogramLiteral>, LAlloc<brotli::enc::histogram::HistogramCommand>, LAlloc<brotli::enc::histogram::HistogramDistance>, LAlloc<brotli::enc::cluster::HistogramPair>, LAlloc<brotli::enc::histogram::ContextType>, LAlloc<brotli::enc::entropy_encode::HuffmanTree>, LAlloc<brotli::enc::ZopfliNode>>;
type LHFac = BrotliDivansHybridCompressorFactory<LAlloc<u8>, LAlloc<DefaultCDF16>, LBA>;
type LHComp = <LHFac as DivansCompressorFactory<LAlloc<u8>, LAlloc<u32>, LAlloc<DefaultCDF16>>>::ConstructedCompressor;
fn lba() -> LBA {
    brotli::enc::CombiningAllocator::new(LAlloc::new(0u8), LAlloc::new(0u16), LAlloc::new(0i32), LAlloc::new(0u32), LAlloc::new(0u64), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default(), LAlloc::default())
}

// ---- the caller's allocator, C form: every block fenced, and kept (poisoned) after it was given back
const FENCE: usize = 64;
struct CBlock { id: usize, n: usize, freed: usize, p: usize }
pub struct CBook { blocks: Vec<CBlock>, pub unknown: usize, pub wrong: usize }
static CBOOK: Mutex<CBook> = Mutex::new(CBook { blocks: vec![], unknown: 0, wrong: 0 });
fn cbook() -> std::sync::MutexGuard<'static, CBook> { CBOOK.lock().unwrap_or_else(|e| e.into_inner()) }
pub static OPAQUE: u64 = 0x5ea1;
pub extern "C" fn c_alloc(op: *mut c_void, n: usize) -> *mut c_void { own(|| c_alloc1(op, n)) }
pub extern "C" fn c_free(op: *mut c_void, q: *mut c_void) { own(|| c_free1(op, q)) }
fn c_alloc1(op: *mut c_void, n: usize) -> *mut c_void {
    let mut b = cbook();
    if op as usize != &OPAQUE as *const u64 as usize { b.wrong += 1; }
    let lay = std::alloc::Layout::from_size_align(n + 2 * FENCE, 64).unwrap();
    let p = unsafe { let p = std::alloc::alloc(lay); std::ptr::write_bytes(p, 0xfe, n + 2 * FENCE); std::ptr::write_bytes(p.add(FENCE), 0xcd, n); p };
    let id = opened(n);
    b.blocks.push(CBlock { id, n, freed: 0, p: p as usize });
    unsafe { p.add(FENCE) as *mut c_void }
}
fn c_free1(op: *mut c_void, q: *mut c_void) {
    let mut b = cbook();
    if op as usize != &OPAQUE as *const u64 as usize { b.wrong += 1; }
    let at = (q as usize).wrapping_sub(FENCE);
    match b.blocks.iter_mut().rev().find(|k| k.p == at) {
        None => b.unknown += 1,
        Some(k) => { k.freed += 1; let (id, n) = (k.id, k.n); if k.freed == 1 { unsafe { std::ptr::write_bytes(q as *mut u8, 0xdd, n); } } closed(id, n) }
    }
}
/// (blocks written to after they were given back, blocks whose fence was written over, frees of what is no block, callbacks with another caller's pointer); forgets everything
pub fn c_settle() -> (usize, usize, usize, usize) {
    let mut b = cbook(); let (mut touched, mut over) = (0, 0);
    for k in b.blocks.drain(..).collect::<Vec<_>>() {
        let all = unsafe { std::slice::from_raw_parts(k.p as *const u8, k.n + 2 * FENCE) };
        if all[..FENCE].iter().chain(all[FENCE + k.n..].iter()).any(|x| *x != 0xfe) { over += 1; }
        if k.freed > 0 && all[FENCE..FENCE + k.n].iter().any(|x| *x != 0xdd) { touched += 1; }
        if k.freed > 0 { unsafe { std::alloc::dealloc(k.p as *mut u8, std::alloc::Layout::from_size_align(k.n + 2 * FENCE, 64).unwrap()) } }
    }
    let r = (touched, over, b.unknown, b.wrong); b.unknown = 0; b.wrong = 0; b.blocks.shrink_to_fit(); r
}
pub fn callocator() -> CAllocator { CAllocator { alloc_func: Some(c_alloc), free_func: Some(c_free), opaque: &OPAQUE as *const u64 as *mut c_void } }

// ---- the C interface, declared as a C program would
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CAllocator { pub alloc_func: Option<extern "C" fn(*mut c_void, usize) -> *mut c_void>, pub free_func: Option<extern "C" fn(*mut c_void, *mut c_void)>, pub opaque: *mut c_void }
extern "C" {
    pub fn divans_new_compressor() -> *mut c_void;
    pub fn divans_new_compressor_with_custom_alloc(a: CAllocator) -> *mut c_void;
    pub fn divans_set_option(s: *mut c_void, sel: u8, v: u32) -> u8;
    pub fn divans_encode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    pub fn divans_encode_flush(s: *mut c_void, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    pub fn divans_free_compressor(s: *mut c_void);
    pub fn divans_compressor_malloc_u8(s: *mut c_void, n: usize) -> *mut u8;
    pub fn divans_compressor_free_u8(s: *mut c_void, p: *mut u8, n: usize);
    pub fn divans_compressor_malloc_usize(s: *mut c_void, n: usize) -> *mut usize;
    pub fn divans_compressor_free_usize(s: *mut c_void, p: *mut usize, n: usize);
    pub fn divans_new_decompressor() -> *mut c_void;
    pub fn divans_new_serial_decompressor() -> *mut c_void;
    pub fn divans_new_decompressor_with_custom_alloc(a: CAllocator, skip_crc: u8, multithread: u8) -> *mut c_void;
    pub fn divans_decode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    pub fn divans_free_decompressor(s: *mut c_void);
    pub fn divans_decompressor_malloc_u8(s: *mut c_void, n: usize) -> *mut u8;
    pub fn divans_decompressor_free_u8(s: *mut c_void, p: *mut u8, n: usize);
    pub fn divans_decompressor_malloc_usize(s: *mut c_void, n: usize) -> *mut usize;
    pub fn divans_decompressor_free_usize(s: *mut c_void, p: *mut usize, n: usize);
}
/// a codec of any kind, one call at a time
pub enum Any { Dec(LDec), Int(LIComp), Hyb(LHComp), CDec(*mut c_void), CComp(*mut c_void) }
pub fn rc(x: u8) -> R { match x { 0 => R::Ok, 1 => R::Nmi, 2 => R::Nmo, _ => R::Err } }
impl Any {
    pub fn feed(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        match self {
            Any::Dec(d) => r3(d.decode(i, io, o, oo)), Any::Int(c) => r3(c.encode(i, io, o, oo)), Any::Hyb(c) => r3(c.encode(i, io, o, oo)),
            Any::CDec(p) => rc(unsafe { divans_decode(*p, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) }),
            Any::CComp(p) => rc(unsafe { divans_encode(*p, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) }),
        }
    }
    pub fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        match self { Any::Int(c) => r2(c.flush(o, oo)), Any::Hyb(c) => r2(c.flush(o, oo)), Any::CComp(p) => rc(unsafe { divans_encode_flush(*p, o.as_mut_ptr(), o.len(), oo) }), _ => unreachable!() }
    }
    pub fn release(self, by_ref: bool) {
        match self {
            Any::Dec(mut d) => if by_ref { d.free_ref() } else { d.free(); }, Any::Int(mut c) => if by_ref { c.free_ref() } else { c.free(); }, Any::Hyb(mut c) => if by_ref { c.free_ref() } else { c.free(); },
            Any::CDec(p) => unsafe { divans_free_decompressor(p) }, Any::CComp(p) => unsafe { divans_free_compressor(p) },
        }
    }
}

/// an adapter over a source or sink that behaves badly enough; what matters here is only what is left afterwards
struct Src { d: std::io::Cursor<Vec<u8>>, step: usize, fail_at: usize, n: usize }
impl std::io::Read for Src { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.n += 1; if self.n == self.fail_at { return Err(std::io::Error::from_raw_os_error(5)) } let m = b.len().min(self.step); std::io::Read::read(&mut self.d, &mut b[..m]) } }
struct Snk { fail_at: usize, n: usize }
impl std::io::Write for Snk { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.n += 1; if self.n == self.fail_at { return Err(std::io::Error::from_raw_os_error(5)) } Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }

fn gone(t: usize, h: usize) {
    let (touched, over, unknown, wrong) = c_settle();
    let (th, heap) = settle(t, h);
    let (live, dropped) = { let mut b = book(); let r = (b.live, b.dropped); b.dropped = 0; b.live = 0; r };
    ev("gone").i("threads", th).i("heap", heap).i("live", live).i("dropped", dropped).i("touched", touched).i("over", over).i("unknown", unknown).i("wrong", wrong).done();
}
/// an input for a decompressor: a stream, a piece of one, a damaged one, something else
fn dec_input(r: &mut Rng) -> Vec<u8> {
    let max = if r.one_in(12) { 400000 } else { 20000 };
    let (mut s, _) = if r.one_in(4) { crate::session::dense(r) } else { crate::session::stream(r, max) };
    if r.one_in(6) { // command by command, context maps and all
        let p = if r.one_in(2) { crate::replay::maps(r) } else { crate::replay::prog(r, 16, 3000, 60, false) }; let cs: Vec<_> = p.cs.iter().map(|c| c.c()).collect();
        let mut o = DivansCompressorOptions::default(); o.window_size = Some(22); o.use_context_map = true;
        if let Some(x) = crate::replay::encode(r, true, o, &cs, 4096) { s = x; } }
    match r.below(8) {
        0 => { let n = r.below(s.len() + 1); s.truncate(n); }
        1 => { let i = 16 + r.below(s.len() - 16); s[i] ^= 1 << r.below(8); }
        2 => { s = crate::session::nonsense(r, 3000); }
        3 => { let i = r.below(16); s[i] = r.byte(); }
        4 => { for _ in 0..r.below(30) { s.push(r.byte()); } }
        _ => {}
    }
    s
}
/// a stream whose worker fills the queue with small commands and modes until it has to wait for room
fn crowded(r: &mut Rng) -> Option<Vec<u8>> {
    use crate::replay::C;
    let mut m = crate::replay::predmode(r, true); m.literal_context_map.0.truncate(64); { let n = divans::interface::DISTANCE_CONTEXT_MAP_OFFSET; let v = &mut m.predmode_speed_and_distance_context_map.0; v.truncate(n + 4); for i in 0..divans::interface::NUM_MIXING_VALUES { v[divans::interface::MIXING_OFFSET + i] = 4; } }
    let mut cs = vec![C::Pred(m.clone()), C::Lit(vec![7; 3000])]; // more than a window: the reader of the queue gets no further
    let every = if r.one_in(4) { *r.pick(&[1usize, 2, 7, 40]) } else { r.range(250, 420) };
    for i in 0..r.range(330, 700) { cs.push(if i % every == every - 1 { C::Pred(m.clone()) } else if i % 7 == 3 { C::Lit(vec![i as u8; 1 + i % 3]) } else if r.one_in(3) { C::Copy(1, 1) } else { C::BsL(r.below(3) as u8, 0) }); }
    let mut o = DivansCompressorOptions::default(); o.window_size = Some(10); o.use_context_map = true;
    crate::replay::encode(r, true, o, &cs, 1 << 16)
}
pub fn c06(a: &Args) {
    // what the process keeps for good once it has worked at all
    print!(""); std::thread::spawn(|| {}).join().unwrap(); decompress(&compress(false, DivansCompressorOptions::default(), b"warm").unwrap(), false, true); let (_, _) = settle(0, usize::MAX);
    for k in a.cases(1600, 24000) {
        let mut r = a.rng(k);
        let kind = *r.pick(&["dec", "dec", "decmt", "decmt", "decmt", "int", "hyb", "cdec", "cdecmt", "cdecmt", "cint", "chyb", "cplain", "reader", "writer"]);
        let note = format!("C06 {} {}", k, kind);
        case(&note, 120, || one(&mut r, kind, &note));
        // a case that panicked leaves no books behind
        let mut b = book(); b.live = 0; b.dropped = 0; drop(b); c_settle();
    }
}
fn one(r: &mut Rng, kind: &'static str, note: &str) {
    let isdec = kind.contains("dec") || (matches!(kind, "reader" | "writer" | "cplain") && r.one_in(2));
    let parked = kind.ends_with("mt") && r.one_in(4);
    let input = if parked { crowded(r).unwrap_or_else(|| dec_input(r)) } else if isdec { dec_input(r) } else { let m = if r.one_in(8) { 300000 } else { 20000 }; data::gen(r, m) };
    let mut o = data::opts(r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
    if r.one_in(2) { o.quality = Some(r.below(10) as u16); o.q9_5 = false; }
    let mut buf = vec![0u8; 1 << 16];
    let calls = if parked { 1 + r.below(12) } else { match r.below(5) { 0 => 0, 1 => r.below(4), 2 => r.below(40), _ => 100000 } };
    let cut = crate::session::Cut::pick(r, input.len(), input.len() * 3, 60);
    take_panic();
    let (t, h) = (threads(), LIVE.load(Ordering::SeqCst));
    ev("new").s("kind", kind).s("note", note).done();
    if matches!(kind, "reader" | "writer") { adapter(r, kind, isdec, input.clone(), o, &mut buf, calls); ev("release").done(); gone(t, h); return; }
    let mt = kind.ends_with("mt"); let skip = r.one_in(4);
    let mut c = match kind {
        "dec" | "decmt" => Any::Dec(LFac::new(LAlloc::new(0), LAlloc::new(DefaultCDF16::default()), LAlloc::new(StaticCommand::nop()), skip, mt)),
        "int" => Any::Int(LCFac::new(LAlloc::new(0), LAlloc::new(0), LAlloc::new(DefaultCDF16::default()), o, ())),
        "hyb" => Any::Hyb(LHFac::new(LAlloc::new(0), LAlloc::new(0), LAlloc::new(DefaultCDF16::default()), o, lba())),
        "cdec" | "cdecmt" => Any::CDec(unsafe { divans_new_decompressor_with_custom_alloc(callocator(), skip as u8, mt as u8) }),
        "cplain" if isdec => Any::CDec(unsafe { if r.one_in(2) { divans_new_decompressor() } else { divans_new_serial_decompressor() } }),
        _ => Any::CComp(unsafe { if kind == "cplain" { divans_new_compressor() } else { divans_new_compressor_with_custom_alloc(callocator()) } }),
    };
    if let Any::CComp(p) = c {
        let q = if kind == "cint" || (kind == "cplain" && r.one_in(2)) { 0 } else { r.range(1, 2) };
        unsafe { divans_set_option(p, 5, q as u32); divans_set_option(p, 1, r.below(10) as u32); divans_set_option(p, 2, r.range(10, 24) as u32); if r.one_in(2) { divans_set_option(p, 7, r.below(2) as u32); divans_set_option(p, 4, r.below(4) as u32); divans_set_option(p, 17, r.below(2) as u32); divans_set_option(p, 20, r.below(2) as u32); } }
    }
    if matches!(kind, "int" | "hyb") && r.one_in(3) { // commands instead of bytes
        let p = crate::replay::prog(r, o.window_size.unwrap_or(22).max(10).min(24) as usize, 2000, 40, false);
        let cmds: Vec<Command<Vec8>> = p.cs.iter().map(|c| c.c().cmd()).collect();
        let (mut at, mut n, mut idle) = (0, 0, 0);
        while at < cmds.len() && n < calls && idle < 12 {
            let (b4, mut oo) = (at, 0); let oa = *r.pick(&[1usize, 3, 64, 4096]);
            let ret = r2(match &mut c { Any::Int(c) => c.encode_commands(&cmds, &mut at, &mut buf[..oa], &mut oo), Any::Hyb(c) => c.encode_commands(&cmds, &mut at, &mut buf[..oa], &mut oo), _ => unreachable!() });
            ev("call").s("op", "commands").s("r", ret.s()).done(); n += 1; if at == b4 && oo == 0 { idle += 1 } else { idle = 0 }
            if ret == R::Err { break }
        }
        if calls > 100 { let mut idle = 0; loop { let mut oo = 0; let ret = c.flush(&mut buf[..100], &mut oo); ev("call").s("op", "flush").s("r", ret.s()).done(); if matches!(ret, R::Ok | R::Err) { break } if oo == 0 { idle += 1 } else { idle = 0 } if idle > 12 { break } } }
        drop(cmds); drop(p);
        ev("release").done(); c.release(r.one_in(2)); gone(t, h); return;
    }
    let (mut pos, mut n, mut idle, mut out) = (0, 0, 0, 0usize);
    let mut over = false; // a verdict was given
    while n < calls && !over {
        let (mut ia, mut oa) = (cut.size(cut.ic, r, true).min(input.len() - pos), cut.size(cut.oc, r, true).min(buf.len()));
        if parked { ia = input.len() - pos; oa = r.below(3); }
        if !isdec && pos == input.len() { break }
        let (mut io, mut oo) = (pos, 0);
        let ret = c.feed(&input[..pos + ia], &mut io, &mut buf[..oa], &mut oo);
        ev("call").s("op", "feed").s("r", ret.s()).done();
        n += 1; if io == pos && oo == 0 { idle += 1 } else { idle = 0 }
        pos = io; out += oo;
        if idle > 12 || out > CAP { break }
        over = matches!(ret, R::Ok | R::Err);
    }
    if over && r.one_in(4) { let (mut io, mut oo) = (0, 0); let ret = c.feed(&[], &mut io, &mut buf[..8], &mut oo); ev("call").s("op", "feed").s("r", ret.s()).done(); }
    if !isdec && pos == input.len() {
        let (mut idle, mut again) = (0, r.below(2));
        while n < calls + 2 { n += 1; let oa = cut.size(cut.oc, r, true).min(buf.len()); let mut oo = 0; let ret = c.flush(&mut buf[..oa], &mut oo); ev("call").s("op", "flush").s("r", ret.s()).done(); if oo == 0 { idle += 1 } else { idle = 0 }
            match ret { R::Ok => { if again == 0 { break } again -= 1; } R::Err => break, _ => {} } if idle > 12 { break } }
    }
    match c { // the C interface lends out memory too
        Any::CComp(p) if r.one_in(2) => unsafe { let n = 1 + r.below(100); let x = divans_compressor_malloc_u8(p, n); std::ptr::write_bytes(x, 1, n); let y = divans_compressor_malloc_usize(p, n); std::ptr::write_bytes(y, 1, n); divans_compressor_free_u8(p, x, n); divans_compressor_free_usize(p, y, n); },
        Any::CDec(p) if r.one_in(2) => unsafe { let n = 1 + r.below(100); let x = divans_decompressor_malloc_u8(p, n); std::ptr::write_bytes(x, 1, n); let y = divans_decompressor_malloc_usize(p, n); std::ptr::write_bytes(y, 1, n); divans_decompressor_free_u8(p, x, n); divans_decompressor_free_usize(p, y, n); },
        _ => {} }
    ev("release").done();
    if parked && !r.one_in(3) { std::thread::sleep(std::time::Duration::from_millis(r.range(1, 12) as u64)); }
    c.release(r.one_in(2));
    gone(t, h);
}
fn adapter(r: &mut Rng, kind: &str, isdec: bool, input: Vec<u8>, o: DivansCompressorOptions, buf: &mut [u8], calls: usize) {
    let bs = *r.pick(&[0usize, 1, 16, 100, 4096, 65536]); let fail_at = if r.one_in(3) { 1 + r.below(10) } else { 0 }; let mt = r.one_in(2);
    let step = 1 + r.logsize(5000).max(input.len() / 200);
    if kind == "reader" {
        let src = Src { d: std::io::Cursor::new(input), step, fail_at, n: 0 };
        let mut x: Box<dyn std::io::Read> = if isdec { Box::new(DivansDecompressorReader::new(src, bs.max(16), false, mt)) } else if r.one_in(2) { Box::new(DivansBrotliHybridCompressorReader::new(src, o, bs)) } else { Box::new(DivansExperimentalCompressorReader::new(src, o, bs)) };
        let mut total = 0;
        for _ in 0..calls { let n = 1 + r.below(buf.len()); let ret = x.read(&mut buf[..n]); ev("call").s("op", "read").s("r", if ret.is_ok() { "OK" } else { "ERR" }).done(); match ret { Ok(0) | Err(_) => break, Ok(n) => { total += n; if total > CAP { break } } } }
    } else {
        let snk = Snk { fail_at, n: 0 };
        let mut x: Box<dyn std::io::Write> = if isdec { Box::new(DivansDecompressorWriter::new(snk, bs.max(16), false, mt)) } else if r.one_in(2) { Box::new(DivansBrotliHybridCompressorWriter::new(snk, o, bs)) } else { Box::new(DivansExperimentalCompressorWriter::new(snk, o, bs)) };
        let mut pos = 0;
        for _ in 0..calls { if pos == input.len() { let ret = x.flush(); ev("call").s("op", "flush").s("r", if ret.is_ok() { "OK" } else { "ERR" }).done(); break } let n = step.min(input.len() - pos); let ret = x.write(&input[pos..pos + n]); ev("call").s("op", "write").s("r", if ret.is_ok() { "OK" } else { "ERR" }).done(); match ret { Ok(n) => pos += n, Err(_) => break } }
    }
}
