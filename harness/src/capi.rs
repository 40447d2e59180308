//! C14: the C interface next to the native one.
use crate::codecs::*; use crate::data; use crate::ledger::*; use crate::session::*; use crate::util::*;
use divans::{BrotliCompressionSetting, DivansCompressorOptions, LiteralPredictionModeNibble, Speed, StrideSelection};
use std::os::raw::c_void;

#[derive(Clone, Copy)]
pub struct CComp { pub p: *mut c_void, pub heap: usize }
impl CComp {
    pub fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        let (x, n) = heap_taken(|| unsafe { divans_encode(self.p, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) }); self.heap += n; rc(x)
    }
    pub fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R {
        let (x, n) = heap_taken(|| unsafe { divans_encode_flush(self.p, o.as_mut_ptr(), o.len(), oo) }); self.heap += n; rc(x)
    }
    pub fn free(self) { unsafe { divans_free_compressor(self.p) } }
}
pub struct CDec { pub p: *mut c_void, pub heap: usize }
impl Feed for CDec {
    fn feed(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R {
        let (x, n) = heap_taken(|| unsafe { divans_decode(self.p, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) }); self.heap += n; rc(x)
    }
}
/// what the options set through the selectors amount to, natively; None: not acceptable
fn apply(o: &mut DivansCompressorOptions, sel: u8, v: u32) -> bool {
    let pal = &Speed::ENCODER_DEFAULT_PALETTE;
    let mut speed = |k: usize| { if v as usize >= pal.len() { return false } let s = pal[v as usize]; match o.literal_adaptation { None => o.literal_adaptation = Some([s; 4]), Some(ref mut a) => a[k] = s } true };
    match sel {
        1 => o.quality = Some(v as u16), 2 => o.window_size = Some(v as i32), 3 => o.lgblock = Some(v),
        4 => { if v > 7 { return false } o.dynamic_context_mixing = Some(v as u8) }
        5 => o.use_brotli = match v { 0 => BrotliCompressionSetting::UseInternalCommandSelection, 1 => BrotliCompressionSetting::UseBrotliCommandSelection, 2 => BrotliCompressionSetting::UseBrotliBitstream, _ => return false },
        6 => { if v != 1 { return false } o.use_brotli = BrotliCompressionSetting::UseBrotliBitstream }
        7 => { if v > 1 { return false } o.use_context_map = v == 1 }
        8 => return speed(3), 12 => return speed(1), 13 => return speed(2), 14 => return speed(0),
        9 => o.force_stride_value = match v { 0 => StrideSelection::PriorDisabled, 1 => StrideSelection::Stride1, 2 => StrideSelection::Stride2, 3 => StrideSelection::Stride3, 4 => StrideSelection::Stride4, 5 => StrideSelection::Stride5, 6 => StrideSelection::Stride6, 7 => StrideSelection::Stride7, 8 => StrideSelection::Stride8, _ => return false },
        10 => o.stride_detection_quality = Some(v as u8), 11 => o.prior_depth = Some(v as u8), 15 => o.brotli_literal_byte_score = Some(v), 16 => o.speed_detection_quality = Some(v as u8),
        17 => o.prior_bitmask_detection = v as u8, 18 => o.q9_5 = v != 0,
        19 => { if v > 3 { return false } o.force_literal_context_mode = Some(LiteralPredictionModeNibble(v as u8)) }
        20 => o.divans_ir_optimizer = v as u8,
        _ => return false,
    }
    true
}
fn opt<T: Into<i64>>(x: Option<T>) -> i64 { x.map(|v| v.into()).unwrap_or(-1) }
fn native(o: &DivansCompressorOptions) {
    let ad = match o.literal_adaptation { None => "[]".to_string(), Some(a) => format!("[{}]", a.iter().map(|s| format!("[{},{}]", s.inc(), s.lim())).collect::<Vec<_>>().join(",")) };
    let br = match o.use_brotli { BrotliCompressionSetting::UseInternalCommandSelection => 0, BrotliCompressionSetting::UseBrotliCommandSelection => 1, _ => 2 };
    ev("native").j("o", &format!("{{\"quality\":{},\"window\":{},\"lgblock\":{},\"mixing\":{},\"brotli\":{},\"ctxmap\":{},\"adapt\":{},\"stride\":{},\"sdq\":{},\"depth\":{},\"score\":{},\"spq\":{},\"mask\":{},\"half\":{},\"mode\":{},\"ir\":{}}}",
        opt(o.quality), opt(o.window_size), opt(o.lgblock), opt(o.dynamic_context_mixing), br, o.use_context_map as u8, ad, o.force_stride_value as u8, opt(o.stride_detection_quality), opt(o.prior_depth), opt(o.brotli_literal_byte_score), opt(o.speed_detection_quality), o.prior_bitmask_detection, o.q9_5 as u8, opt(o.force_literal_context_mode.map(|m| m.0)), o.divans_ir_optimizer)).done();
}
/// a selector and a value: usually acceptable, now and then one beyond
fn setting(r: &mut Rng) -> (u8, u32) {
    let sel = match r.below(12) { 0 => *r.pick(&[0u8, 21, 22, 64, 128, 255]), _ => 1 + r.below(20) as u8 };
    let top = match sel { 4 => 7, 5 => 2, 6 => 1, 7 => 1, 8 | 12 | 13 | 14 => 14, 9 => 8, 19 => 3, _ => 0 };
    let v = if top > 0 { match r.below(6) { 0 => *r.pick(&[top + 1, top + 2, 15, 16, 255, 256, 257, 65536, u32::MAX / 2, u32::MAX]), 1 => top, _ => r.below(top as usize + 1) as u32 } }
        else { match sel { 1 => r.below(13) as u32, 2 => r.range(8, 25) as u32, 3 => r.range(15, 23) as u32, 10 => r.below(3) as u32, 11 => if r.one_in(4) { r.byte() as u32 } else { r.below(16) as u32 }, 15 => *r.pick(&[1u32, 64, 340, 540, 1000]), 16 => r.below(2) as u32, 17 => r.below(2) as u32, 18 => *r.pick(&[0u32, 0, 1, 1, 2, 256, 65536]), 20 => r.below(2) as u32, _ => r.next() as u32 } };
    (sel, v)
}
fn set(p: *mut c_void, sel: u8, v: u32) -> u8 {
    let ret = unsafe { divans_set_option(p, sel, v) };
    ev("set").i("sel", sel as usize).n("val", if v > 1 << 30 { 1 << 30 } else { v as i64 }).i("ret", ret as usize).done();
    ret
}
fn nulls(r: &mut Rng, p: *mut c_void, d: *mut c_void) {
    let nil = std::ptr::null_mut::<c_void>(); let none = std::ptr::null_mut::<usize>();
    let inp = [1u8; 8]; let mut out = [0u8; 64]; let (mut io, mut oo) = (3usize, 5usize);
    let (what, ret) = unsafe { match r.below(9) {
        0 => ("set", divans_set_option(nil, 1, 1)),
        1 => ("encode", divans_encode(nil, inp.as_ptr(), 8, &mut io, out.as_mut_ptr(), 64, &mut oo)),
        2 => ("encode", divans_encode(p, inp.as_ptr(), 8, none, out.as_mut_ptr(), 64, &mut oo)),
        3 => ("encode", divans_encode(p, inp.as_ptr(), 8, &mut io, out.as_mut_ptr(), 64, none)),
        4 => ("flush", divans_encode_flush(nil, out.as_mut_ptr(), 64, &mut oo)),
        5 => ("flush", divans_encode_flush(p, out.as_mut_ptr(), 64, none)),
        6 => ("decode", divans_decode(nil, inp.as_ptr(), 8, &mut io, out.as_mut_ptr(), 64, &mut oo)),
        7 => ("decode", divans_decode(d, inp.as_ptr(), 8, none, out.as_mut_ptr(), 64, &mut oo)),
        _ => ("decode", divans_decode(d, inp.as_ptr(), 8, &mut io, out.as_mut_ptr(), 64, none)),
    } };
    ev("null").s("fn", what).i("ret", ret as usize).b("moved", io != 3 || oo != 5 || out.iter().any(|x| *x != 0)).done();
}
/// everything about memory of the handle just released
fn mem(custom: bool, mt: bool, heap: usize, t: usize, h: usize) {
    let left = settle(t, if custom { usize::MAX } else { h });
    let live = { let b = BOOK.lock().unwrap_or_else(|e| e.into_inner()); b.live };
    let (touched, over, unknown, wrong) = c_settle();
    ev("mem").b("custom", custom).b("mt", mt).i("heap", heap).i("live", if custom { live } else { 0 }).i("threads", left.0).i("left", if custom { 0 } else { left.1 }).i("touched", touched).i("over", over).i("unknown", unknown).i("wrong", wrong).done();
    let mut b = BOOK.lock().unwrap_or_else(|e| e.into_inner()); b.live = 0; b.dropped = 0;
}
pub fn c14(a: &Args) {
    { let mut b = BOOK.lock().unwrap_or_else(|e| e.into_inner()); b.quiet = true; }
    if a.shard == 0 && a.case.is_none() { findings(a); }
    for k in a.cases(700, 20000) {
        let mut r = a.rng(k);
        let big = r.one_in(12);
        let d = if r.one_in(12) { vec![] } else { data::gen(&mut r, if big { 150000 } else { 5000 }) };
        let custom = r.one_in(2);
        let note = format!("C14 {} n{} custom{}", k, d.len(), custom);
        case(&note, 120, || {
            take_panic();
            // settings first, so that nothing of the harness is on the books
            let mut o = DivansCompressorOptions::default(); let mut sets = vec![];
            for _ in 0..r.below(9) { let x = setting(&mut r); sets.push(x); }
            for x in &sets { apply(&mut o, x.0, x.1); }
            let internal = match o.use_brotli { BrotliCompressionSetting::UseInternalCommandSelection => true, _ => false };
            let rf = Outcome { out: compress(internal, o, &d).unwrap_or_default(), verdict: "OK", used: d.len() };
            let (t, h) = (threads(), LIVE.load(std::sync::atomic::Ordering::SeqCst));
            let (p, heap) = heap_taken(|| unsafe { if custom { divans_new_compressor_with_custom_alloc(callocator()) } else { divans_new_compressor() } });
            ev("capi").b("custom", custom).done();
            for x in &sets { set(p, x.0, x.1); }
            if r.one_in(4) { let (s, v) = setting(&mut r); if !apply(&mut o.clone(), s, v) { set(p, s, v); } }
            let none = unsafe { divans_new_serial_decompressor() };
            if r.one_in(4) { nulls(&mut r, p, none); }
            unsafe { divans_free_decompressor(none) };
            native(&o);
            let cut = if internal && r.one_in(2) || r.one_in(3) { Cut::whole() } else { Cut::pick(&mut r, d.len(), rf.out.len(), 60) };
            let same = !internal || cut.ic >= 1 << 20 && !cut.rnd && !cut.zeros && cut.oc >= 1 << 20;
            let mut c = Comp::C(CComp { p, heap });
            let mut started = false;
            let out = encode_with(&mut r, &mut c, &d, cut, if same { Some(&rf) } else { None }, &note, &mut |r, c| { if started && r.one_in(5) { let (s, v) = setting(r); if let Comp::C(x) = c { set(x.p, s, v); } } started = true; });
            let heap = if let Comp::C(x) = &c { x.heap } else { 0 };
            if r.one_in(2) { unsafe { // memory lent out
                let n = r.below(100); let (x, k1) = heap_taken(|| divans_compressor_malloc_u8(p, n)); std::ptr::write_bytes(x, 1, n); let (y, k2) = heap_taken(|| divans_compressor_malloc_usize(p, n)); std::ptr::write_bytes(y, 1, n);
                ev("lent").b("custom", custom).i("heap", k1 + k2).b("null", x.is_null() || y.is_null()).done();
                divans_compressor_free_u8(p, x, n); divans_compressor_free_usize(p, y, n); } }
            if out.is_some() && r.one_in(3) { let (s, v) = setting(&mut r); set(p, s, v); }
            let n = out.as_ref().map(|o| o.len()).unwrap_or(0);
            let out = match out { Some(o) => o, None => { c.free(); return } };
            means(&out, &d); ev("end").done();
            let keep = out.capacity();
            c.free();
            mem(custom, false, heap, t, h + keep);
            let _ = n;
            // and back, through the C decoders; sometimes of bytes that are no stream
            for _ in 0..2 {
                let (inp, expect, mode) = match r.below(6) {
                    0 => (nonsense(&mut r, 1500), None, "any"),
                    1 => { let n = r.below(out.len()); (out[..n].to_vec(), Some(&d), "prefix") }
                    _ => (out.clone(), Some(&d), "valid") };
                let (skip, mt, custom) = (r.one_in(4), r.one_in(3), r.one_in(2));
                let rf = decompress(&inp, skip, false); if rf.verdict == "CAP" { continue }
                let cut = Cut::pick(&mut r, inp.len(), rf.out.len(), 40);
                let (t, h) = (threads(), LIVE.load(std::sync::atomic::Ordering::SeqCst));
                let (p, heap) = heap_taken(|| unsafe { if custom { divans_new_decompressor_with_custom_alloc(callocator(), skip as u8, mt as u8) } else if mt && !skip { divans_new_decompressor() } else if !skip { divans_new_serial_decompressor() } else { divans_new_decompressor_with_custom_alloc(CAllocator { alloc_func: None, free_func: None, opaque: std::ptr::null_mut() }, skip as u8, mt as u8) } });
                let mut x = CDec { p, heap };
                let f = Facts { kind: "dec", n: inp.len(), len: inp.len() + if mode == "prefix" { 1 } else { 0 }, m: expect.map(|d| d.len()).unwrap_or(0), mode, rf: Some(&rf), how: if mode == "any" { "accept" } else { "same" } };
                let v = decode(&mut r, &mut x, &inp, &f, expect.map(|d| &d[..]), cut, 2, &note);
                if r.one_in(2) { unsafe {
                    let n = r.below(100); let (b, k1) = heap_taken(|| divans_decompressor_malloc_u8(p, n)); std::ptr::write_bytes(b, 1, n); let (y, k2) = heap_taken(|| divans_decompressor_malloc_usize(p, n)); std::ptr::write_bytes(y, 1, n);
                    ev("lent").b("custom", custom).i("heap", k1 + k2).b("null", b.is_null() || y.is_null()).done();
                    divans_decompressor_free_u8(p, b, n); divans_decompressor_free_usize(p, y, n); } }
                let heap = x.heap;
                unsafe { divans_free_decompressor(p) };
                ev(if v == "CAP" { "drop" } else { "end" }).done();
                mem(custom, mt, heap, t, h);
            }
        });
    }
}
/// what is known to go wrong with accepted options, each in a process of its own
fn findings(a: &Args) {
    for what in ["stride3", "score"] {
        let me = std::env::current_exe().unwrap();
        let p = std::process::Command::new(me).args(&["C14X", "--out", "/dev/null", "--seed", &a.seed.to_string(), what]).output().unwrap();
        if !p.status.success() { ev("finding").s("what", &format!("{}: {}", what, String::from_utf8_lossy(&p.stderr).replace('\n', " "))).done(); }
    }
}
pub fn c14x(a: &Args) {
    let _ = std::panic::take_hook();
    for k in 0..400 {
        let mut r = a.rng(k);
        let (sel, v) = if a.extra[0] == "stride3" { (10, 3) } else { (15, 5000) };
        let d = data::gen(&mut r, 20000);
        let mut buf = vec![0u8; 1 << 17];
        unsafe {
            let p = divans_new_compressor();
            if divans_set_option(p, sel, v) != 0 { return }
            divans_set_option(p, 1, 6 + (k % 6) as u32); divans_set_option(p, 3, 16);
            let (mut io, mut oo) = (0, 0);
            divans_encode(p, d.as_ptr(), d.len(), &mut io, buf.as_mut_ptr(), buf.len(), &mut oo);
            divans_encode_flush(p, buf.as_mut_ptr(), buf.len(), &mut oo);
            divans_free_compressor(p);
            let x = decompress(&buf[..oo], false, false);
            if io != d.len() || x.verdict != "OK" || x.out != d { eprintln!("decompresses to other data"); std::process::exit(1) }
        }
    }
}
