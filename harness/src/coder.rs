//! The entropy coder and its models (C18; what the format makes of them, C19E), through the traits a codec uses.
use crate::util::*;
use divans::*;
use divans::interface::{BillingDesignation, ReadableBytes, WritableBytes};
use divans::{DivansDecompressorFactory, DivansDecompressorFactoryStruct};
use alloc_stdlib::HeapAlloc;
type M = DefaultCDF16;
type EncF = DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<M>>;
type Enc = <EncF as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<M>>>::DefaultEncoder;
type DecF = DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<M>, HeapAlloc<StaticCommand>>;
type Dec = <DecF as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<M>, HeapAlloc<StaticCommand>>>::DefaultDecoder;
fn speed(r: &mut Rng) -> Speed {
    let inc = match r.below(6) { 0 => 0, 1 => 7680, 2 => 1, _ => { let b = r.below(13); ((1usize << b) + r.below(1 << b)).min(7680) } };
    let lim = match r.below(6) { 0 => 16384, 1 => r.below(100), 2 => 16383, _ => { let b = r.below(15); ((1usize << b) + r.below(1 << b)).min(16384) } };
    Speed::new(inc as i16, lim as i16)
}
/// everything there is to see of a model
fn show(m: &M, e: Ev) {
    let cdf: Vec<i16> = (0..16).map(|s| m.cdf(s)).collect();
    let (mut st, mut fr) = (vec![], vec![]); for s in 0..16 { let x = m.sym_to_start_and_freq(s).range; st.push(x.start); fr.push(x.freq); }
    // what each of the 2^15 offsets stands for, as runs
    let mut runs: Vec<i64> = vec![]; let mut last = None;
    for o in 0..32768i64 { let x = m.cdf_offset_to_sym_start_and_freq(o as i16); let k = (x.sym, x.range.start, x.range.freq); if last != Some(k) { runs.extend(&[o, k.0 as i64, k.1 as i64, k.2 as i64]); last = Some(k); } }
    e.a("cdf", &cdf).i("max", m.max() as usize).a("st", &st).a("fr", &fr).a("runs", &runs).done();
}
struct Pool { m: Vec<M>, style: Vec<usize>, sp: Vec<Speed> }
impl Pool {
    fn new(r: &mut Rng, n: usize) -> Pool { Pool { m: vec![M::default(); n], style: (0..n).map(|_| r.below(6)).collect(), sp: (0..n).map(|_| speed(r)).collect() } }
    fn sym(&self, r: &mut Rng, i: usize) -> u8 { match self.style[i] { 0 => 0, 1 => 15, 2 => r.below(16) as u8, 3 => if r.one_in(40) { r.below(16) as u8 } else { 7 }, 4 => r.below(2) as u8 * 15, _ => (r.below(4) * r.below(6)) as u8 } }
}
fn models(a: &Args, k: u64, exact: bool) {
    let mut r = a.rng(k);
    ev("models").i("case", k as usize).done();
    let n = r.range(2, 4); let mut p = Pool::new(&mut r, n);
    for i in 0..n { show(&p.m[i], ev("fresh").i("m", i)); }
    for _ in 0..r.range(2, 8) {
        let i = r.below(n);
        if r.one_in(3) {
            let j = r.below(n); let mix = match r.below(6) { 0 => 0, 1 => 32767, 2 => 16384, 3 => 32768, _ => r.below(32769) } as i32;
            let x = p.m[i].average(&p.m[j], mix); show(&x, ev("mixed").i("a", i).i("b", j).i("w", mix as usize));
        } else {
            let c = if exact { r.logsize(60) } else { r.logsize(6000) }; let mut ops: Vec<i32> = vec![];
            let steady = r.one_in(2);
            for _ in 0..c { if !steady && r.one_in(6) { p.sp[i] = speed(&mut r); } let s = p.sym(&mut r, i); let sp = p.sp[i]; p.m[i].blend(s, sp); if exact { ops.extend(&[s as i32, sp.inc() as i32, sp.lim() as i32]); } }
            show(&p.m[i], ev("seen").i("m", i).a("ops", &ops));
            if r.one_in(3) { p.style[i] = r.below(6); p.sp[i] = speed(&mut r); }
        }
    }
}
/// a long history that visits most totals a table can have, and the mixes with another one
fn row(m: &M) -> Vec<i64> {
    let (mut st, mut fr, mut back) = (vec![], vec![], vec![]);
    for s in 0..16 { let x = m.sym_to_start_and_freq(s).range; st.push(x.start as i64); fr.push(x.freq as i64);
        for o in &[x.start, x.start.wrapping_add(x.freq).wrapping_sub(1)] { back.push(if *o < 0 { -1 } else { m.cdf_offset_to_sym_start_and_freq(*o).sym as i64 }); } }
    st.extend(fr); st.extend(back); st
}
fn sweep(a: &Args, k: u64, exact: bool) {
    let mut r = a.rng(700_000 + k);
    let (mut m, mut o) = (M::default(), M::default()); let (mut ops, mut oops): (Vec<i32>, Vec<i32>) = (vec![], vec![]); let mut rows: Vec<Vec<i64>> = vec![];
    for _ in 0..r.range(1, 300) { let s = r.below(16) as u8; let sp = Speed::new(r.below(200) as i16 + 1, 16384); o.blend(s, sp); oops.extend(&[s as i32, sp.inc() as i32, sp.lim() as i32]); }
    let w = match k % 3 { 0 => 16384, 1 => r.below(32769), _ => r.below(100) } as i32;
    let (hot, step) = (r.below(16) as u8, if k < 8 { 1 } else { r.range(1, 9) as i16 });
    for i in 0..(if k < 8 { 18000 } else { 9000 }) {
        let s = match k % 4 { 0 => r.below(16) as u8, 1 => hot, 2 => if i < 8000 { hot } else { 15 - hot }, _ => if r.one_in(9) { r.below(16) as u8 } else { hot } };
        let sp = if i < 16500 { Speed::new(step, 16384) } else { Speed::new(r.below(7681) as i16, 16384 - r.below(200) as i16) };
        m.blend(s, sp); ops.extend(&[s as i32, sp.inc() as i32, sp.lim() as i32]);
        if m.max() as u64 % 8 == k % 8 { rows.push(row(&m)); rows.push(row(&m.average(&o, w))); }
    }
    if !exact { ops.clear(); oops.clear(); }
    let t: Vec<String> = rows.iter().map(|x| { let y: Vec<String> = x.iter().map(|v| v.to_string()).collect(); format!("[{}]", y.join(",")) }).collect();
    ev("sweep").i("case", k as usize).i("r", (k % 8) as usize).i("w", w as usize).a("ops", &ops).a("oops", &oops).j("rows", &format!("[{}]", t.join(","))).done();
}
/// symbols through the coder and back
fn coded(a: &Args, k: u64, exact: bool) {
    let mut r = a.rng(500_000 + k);
    // mostly short; also around the size after which a block is closed
    let n = if k % 40 == 8 { 65536 + *r.pick(&[0usize, 1, 2, 15, 300]) - *r.pick(&[0usize, 1]) } else if k % 80 == 17 && !exact { 131072 + r.below(3) - 1 } else { r.logsize(if exact { 1500 } else { 9000 }) };
    let n_models = r.range(1, 5); let big = n > 20000;
    ev("coder").i("case", k as usize).i("n", n).done();
    let mut m8 = HeapAlloc::<u8>::new(0);
    let mut e = <Enc as NewWithAllocator<HeapAlloc<u8>>>::new(&mut m8);
    let mut p = Pool::new(&mut r, n_models); if big { for s in p.style.iter_mut() { *s = *r.pick(&[0usize, 1, 3]); } for s in p.sp.iter_mut() { *s = Speed::new(1024, 16384); } }
    let keep = (p.m.clone(), p.style.clone(), p.sp.clone()); let bits = if r.one_in(3) { 3 } else { 0 };
    let mut bytes: Vec<u8> = vec![]; let mut plan: Vec<(usize, u8, u8, bool)> = vec![];   // model (or 99 for a bit), symbol, prob, blend
    let mut said: Vec<i64> = vec![]; let mut nice = true;
    let drain = |e: &mut Enc, r: &mut Rng, bytes: &mut Vec<u8>| {
        let mut stall = 0;
        loop {
            let room = match r.below(4) { 0 => 1, 1 => r.below(20), _ => 70000 }; let lead = r.below(3); let mut buf = vec![0xEEu8; room + lead]; let mut oo = lead; let mut io = 0; let mut none = [0u8; 0];
            let x = e.drain_or_fill_internal_buffer(&mut ReadableBytes { data: &mut none, read_offset: &mut io }, &mut WritableBytes { data: &mut buf, write_offset: &mut oo });
            bytes.extend(&buf[lead..oo]); match x { DivansResult::Success => break, DivansResult::NeedsMoreOutput => {} _ => { ev("refused").done(); break } }
            if oo == lead { stall += 1; if stall > 2000 { ev("stall").done(); break } } else { stall = 0 }
        }
    };
    for i in 0..n {
        let bit = bits > 0 && r.one_in(bits);
        let item = if bit { let pr = match r.below(4) { 0 => 0, 1 => 255, 2 => 128, _ => r.byte() }; (99, r.below(2) as u8, pr, false) } else { let j = r.below(n_models); (j, p.sym(&mut r, j), 0, !r.one_in(4)) };
        if bit {
            let mut b = item.1 == 1; e.get_or_put_bit(&mut b, item.2, BillingDesignation::Unknown);
            said.extend(&[-1 - item.2 as i64, item.1 as i64, 0, 0]); nice &= b == (item.1 == 1);
        } else {
            let mut s = item.1; let x = e.get_or_put_nibble(&mut s, &p.m[item.0], BillingDesignation::Unknown); nice &= s == item.1;
            said.extend(&[item.0 as i64, item.1 as i64, x.start as i64, x.freq as i64]);
            if item.3 { p.m[item.0].blend(item.1, p.sp[item.0]); }
        }
        plan.push(item);
        if r.one_in(8) || i % 16384 > 16370 || i < 20 || e.has_data_to_drain_or_fill() { drain(&mut e, &mut r, &mut bytes); }
    }
    match e.close() { DivansResult::Success => {}, _ => ev("refused").done() }
    drain(&mut e, &mut r, &mut bytes);
    <Enc as NewWithAllocator<HeapAlloc<u8>>>::free(&mut e, &mut m8);
    let syms = |v: &[(usize, u8, u8, bool)]| v.iter().map(|x| if x.0 == 99 { 16 + x.1 } else { x.1 }).collect::<Vec<u8>>();
    ev("put").b("kept", nice).i("n", n).i("bytes", bytes.len()).a("s", &syms(&plan)[..if exact { 0 } else { n }]).done();
    if exact {
        let col = |c: usize| said.chunks(4).map(|x| x[c]).collect::<Vec<i64>>();
        ev("stream").a("k", &col(0)).a("s", &col(1)).a("st", &col(2)).a("fr", &col(3)).a("bytes", &bytes).done(); return;
    }
    for how in 0..2 {
        let (ms, _, sp) = keep.clone(); let mut ms = ms; let mut d = <Dec as NewWithAllocator<HeapAlloc<u8>>>::new(&mut m8);
        let mut pos = 0; let mut got: Vec<u8> = vec![]; let mut short = false;
        for it in &plan {
            // the bytes come in pieces of any size, also none
            let mut stall = 0;
            loop {
                let len = if how == 0 { bytes.len() - pos } else { match r.below(4) { 0 => 1, 1 => r.below(6), 2 => r.below(40), _ => 300 } }.min(bytes.len() - pos); let lead = r.below(3);
                let mut piece = vec![0x55u8; lead]; if len > 400 { piece.extend(&bytes[pos..(pos + 400).min(bytes.len())]) } else { piece.extend(&bytes[pos..pos + len]); }
                let mut io = lead; let mut oo = 0; let mut none = [0u8; 0];
                let x = d.drain_or_fill_internal_buffer(&mut ReadableBytes { data: &piece, read_offset: &mut io }, &mut WritableBytes { data: &mut none, write_offset: &mut oo });
                pos += io - lead; match x { DivansResult::Success => break, DivansResult::NeedsMoreInput => {} _ => { ev("refused").done(); break } }
                if pos == bytes.len() && io == lead { short = true; break }
                if io == lead { stall += 1; if stall > 2000 { short = true; break } }
            }
            if short { break }
            if it.0 == 99 { let mut b = r.one_in(2); d.get_or_put_bit(&mut b, it.2, BillingDesignation::Unknown); got.push(16 + b as u8); }
            else { let mut s = r.below(16) as u8; d.get_or_put_nibble(&mut s, &ms[it.0], BillingDesignation::Unknown); got.push(s); if it.3 { ms[it.0].blend(s, sp[it.0]); } }
            if *got.last().unwrap() != syms(&[*it])[0] { break }
        }
        <Dec as NewWithAllocator<HeapAlloc<u8>>>::free(&mut d, &mut m8);
        ev("got").b("short", short).i("used", pos).a("s", &got).done();
    }
}
pub fn c18(a: &Args) {
    for k in a.cases(24, 400) { case(&format!("C18 sweep {}", k), 120, || sweep(a, k, false)); }
    for k in a.cases(3000, 40000) { case(&format!("C18 models {}", k), 60, || models(a, k, false)); }
    for k in a.cases(2000, 24000) { case(&format!("C18 coder {}", k), 120, || coded(a, k, false)); }
}
pub fn c19e(a: &Args) {
    for k in a.cases(24, 400) { case(&format!("C19E sweep {}", k), 120, || sweep(a, k, true)); }
    for k in a.cases(1200, 16000) { case(&format!("C19E models {}", k), 60, || models(a, k, true)); }
    for k in a.cases(600, 8000) { case(&format!("C19E coder {}", k), 120, || coded(a, k, true)); }
    for k in a.cases(64, 128) {
        let mut r = a.rng(900_000 + k); let mut v: Vec<i64> = vec![];
        for _ in 0..300 { let (i, l) = (r.logsize(16384) as i16, r.logsize(16384) as i16); let f = Speed::new(i, l).to_f8_tuple(); let (bi, bl) = (r.byte(), r.byte()); let b = Speed::from_f8_tuple((bi, bl)); v.extend(&[i as i64, l as i64, f.0 as i64, f.1 as i64, bi as i64, bl as i64, b.inc() as i64, b.lim() as i64]); }
        ev("speeds").a("v", &v).done();
    }
}
