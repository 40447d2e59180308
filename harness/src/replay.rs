//! Replaying commands (C10) and commands through the whole codec (C17).
use crate::util::*; use crate::data; use crate::codecs::*; use crate::wire;
use divans::*;
use divans::Compressor;
use divans::interface::{CopyCommand, DictCommand, LiteralCommand, BlockSwitch, LiteralBlockSwitch, PredictionModeContextMap};

#[derive(Clone, Debug)]
pub enum C { Lit(Vec<u8>), Copy(u32, u32), Dict { size: u8, id: u32, t: u8, fin: u8 }, BsL(u8, u8), BsC(u8), BsD(u8), Pred(PredictionModeContextMap<Vec8>) }
impl C {
    pub fn cmd(&self) -> Command<Vec8> {
        match self {
            C::Lit(b) => Command::Literal(LiteralCommand { data: Vec8(b.clone()), prob: FeatureFlagSliceType::default(), high_entropy: false }),
            C::Copy(d, n) => Command::Copy(CopyCommand { distance: *d, num_bytes: *n }),
            C::Dict { size, id, t, fin } => Command::Dict(DictCommand { word_size: *size, transform: *t, final_size: *fin, empty: 0, word_id: *id }),
            C::BsL(t, s) => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(*t, *s)),
            C::BsC(t) => Command::BlockSwitchCommand(BlockSwitch::new(*t)),
            C::BsD(t) => Command::BlockSwitchDistance(BlockSwitch::new(*t)),
            C::Pred(p) => Command::PredictionMode(p.clone()),
        }
    }
    pub fn json(&self) -> String {
        match self {
            C::Lit(b) => format!("{{\"k\":\"lit\",\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            C::Copy(d, n) => format!("{{\"k\":\"copy\",\"d\":{},\"n\":{}}}", d.min(&0x7fffffff), n),
            C::Dict { size, id, t, fin } => format!("{{\"k\":\"dict\",\"size\":{},\"id\":{},\"t\":{},\"final\":{}}}", size, id.min(&0x7fffffff), t, fin),
            _ => "{\"k\":\"nop\"}".into(),
        }
    }
}
pub fn bits(size: usize) -> u32 { [0, 0, 0, 0, 10, 10, 11, 11, 10, 10, 10, 10, 10, 9, 9, 8, 7, 7, 8, 7, 7, 6, 6, 5, 5][size] }
/// a dictionary word that exists (ok) or one of the many that do not
pub fn word(r: &mut Rng, ok: bool) -> C {
    let size = r.range(4, 24); let n = 1u32 << bits(size);
    let id = match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n as usize) as u32 };
    let t = match r.below(6) { 0 => 120, 1 => 0, _ => r.below(121) as u8 };
    let mut c = C::Dict { size: size as u8, id, t, fin: 0 };
    if ok { if r.one_in(2) { if let C::Dict { size, id, t, ref mut fin } = c { *fin = wlen(size, id, t) as u8; } } }
    else if let C::Dict { ref mut size, ref mut id, ref mut t, ref mut fin } = c {
        match r.below(5) {
            0 => *size = *r.pick(&[0u8, 1, 2, 3, 25, 26, 31, 255]),
            1 => *id = *r.pick(&[n, n + 1, n * 2, 0x10000, 0x7fffffff]),
            2 => *t = *r.pick(&[121u8, 122, 127, 128, 255]),
            3 => { *fin = (wlen(*size, *id, *t) as u8).wrapping_add(*r.pick(&[1u8, 255, 2])); if *fin == 0 { *fin = 99 } }
            _ => { *size = 24; *id = 32; *t = 121 }
        }
    }
    c
}
pub fn wlen(size: u8, id: u32, t: u8) -> usize {
    let mut buf = [0u8; 64]; let o = brotli::dictionary::kBrotliDictionaryOffsetsByLength[size as usize] as usize + id as usize * size as usize;
    brotli::TransformDictionaryWord(&mut buf, &data::brotli_dict()[o..o + size as usize], size as i32, t as i32) as usize
}
/// how much output space each call gets
pub fn room(r: &mut Rng, pat: usize, k: usize) -> usize {
    match pat { 0 => 1, 1 => 1000, 2 => (k % 2) * 2, 3 => 3, 4 => [0, 1, 5][k % 3], 5 => r.below(4), 6 => r.logsize(300), 8 => if r.one_in(8) { r.below(5) } else { r.logsize(4000) }, _ => if r.one_in(3) { 0 } else { r.below(80) } }
}
fn flush(r: &mut Rng, s: &mut DivansRecodeState<Vec8>, pat: usize) {
    for k in 0.. {
        let n = room(r, pat, k); let mut out = vec![0u8; n]; let mut oo = 0;
        let res = r2(s.flush(&mut out, &mut oo));
        ev("flush").i("room", n).a("bytes", &out[..oo]).s("ret", res.s()).done();
        if res != R::Nmo { break; }
        if k > 20000 { ev("stall").done(); break; }
    }
}
fn tells(s: &DivansRecodeState<Vec8>, ring: usize) { if ring >= 8 { ev("tells").a("last8", &s.last_8_literals()).i("count", s.num_bytes_encoded()).done(); } }
fn one(r: &mut Rng, s: &mut DivansRecodeState<Vec8>, c: &C, pat: usize) {
    raw_line(&format!("{{\"ev\":\"cmd\",{}", &c.json()[1..]));
    let cmd = c.cmd();
    for k in 0.. {
        let n = room(r, pat, k); let lead = if r.one_in(6) { r.below(9) } else { 0 };
        let mut out = vec![0xA5u8; n + lead]; let mut oo = lead;
        let res = r2(s.encode_cmd(&cmd, &mut out, &mut oo));
        if oo < lead || out[..lead].iter().any(|x| *x != 0xA5) { ev("overwrote").done(); }
        ev("call").i("room", n).a("bytes", &out[lead..oo.max(lead)]).s("ret", res.s()).done();
        if res != R::Nmo { break; }
        if k > 20000 { ev("stall").done(); break; }
    }
}
fn batch(r: &mut Rng, s: &mut DivansRecodeState<Vec8>, cs: &[C], pat: usize) {
    ev("batch").j("cmds", &format!("[{}]", cs.iter().map(|c| c.json()).collect::<Vec<_>>().join(","))).done();
    let cmds: Vec<Command<Vec8>> = cs.iter().map(|c| c.cmd()).collect(); let mut taken = 0;
    for k in 0.. {
        let n = room(r, pat, k); let mut out = vec![0u8; n]; let mut oo = 0;
        let res = r2(s.encode_commands(&cmds, &mut taken, &mut out, &mut oo));
        ev("bcall").i("room", n).a("bytes", &out[..oo]).i("taken", taken).s("ret", res.s()).done();
        if res != R::Nmo { break; }
        if k > 20000 { ev("stall").done(); break; }
    }
}
fn ring(n: usize) -> DivansRecodeState<Vec8> { DivansRecodeState::new(Vec8(vec![0u8; n])) }
pub fn c10(a: &Args) {
    // ---- small scope: every program of two (thorough: three) commands on the smallest rings, every pattern of rooms
    let small: Vec<Vec<C>> = [4usize, 8].iter().map(|&n| {
        let mut v = vec![];
        for l in [1usize, 2, 3, 5, 9] { if l <= n + 1 { v.push(C::Lit((0..l).map(|i| (i * 3 + l) as u8).collect())); } }
        for d in 0..=(n as u32 + 1) { for len in 0..=(n as u32 + 2) { if n == 4 || d < 3 || d >= 6 || len % 3 == 1 { v.push(C::Copy(d, len)); } } }
        v
    }).collect();
    let mut k = 0u64; let th = a.thorough();
    for (si, n) in [4usize, 8].iter().enumerate() {
        for x in 0..small[si].len() { for y in 0..small[si].len() {
            k += 1; if k % a.nshards != a.shard { continue; }
            let pats: Vec<usize> = if th { (0..5).collect() } else { vec![(k / 8) as usize % 5] };
            for pat in pats {
                let mut r = a.rng(k * 8 + pat as u64);
                let third = if (k + pat as u64) % 3 == 0 || th { Some(small[si][r.below(small[si].len())].clone()) } else { None };
                case(&format!("C10 small {} {} {} {}", n, x, y, pat), 20, || {
                    ev("start").i("ring", *n).done();
                    let mut s = ring(*n);
                    one(&mut r, &mut s, &C::Lit(vec![200, 201, 202, 203, 204, 205, 206, 207, 208, 209][..(k % 10) as usize].to_vec()), 1);
                    one(&mut r, &mut s, &small[si][x], pat); one(&mut r, &mut s, &small[si][y], pat);
                    if let Some(t) = third { one(&mut r, &mut s, &t, pat); }
                    tells(&s, *n); flush(&mut r, &mut s, pat);
                });
            }
        } }
    }
    // ---- every size of word with every transform
    for size in 4..=24usize { for t in 0..121u8 {
        k += 1; if k % a.nshards != a.shard { continue; }
        let mut r = a.rng(1_000_000 + k); let n = 1usize << bits(size);
        for j in 0..(if th { 20 } else { 1 }) {
            let id = match j { 0 => match r.below(5) { 0 => 0, 1 => n - 1, _ => r.below(n) }, _ => r.below(n) } as u32;
            case(&format!("C10 word {} {} {}", size, id, t), 20, || {
                let n = *r.pick(&[64usize, 64, 64, 128]); let pat = 5 + r.below(3);
                ev("start").i("ring", n).done();
                let mut s = ring(n); let pre: Vec<u8> = (0..r.below(n)).map(|_| r.byte()).collect();
                one(&mut r, &mut s, &C::Lit(pre), 1);
                let fin = if r.one_in(2) { 0 } else { wlen(size as u8, id, t) as u8 };
                one(&mut r, &mut s, &C::Dict { size: size as u8, id, t, fin }, pat); tells(&s, n);
                flush(&mut r, &mut s, pat);
            });
        }
    } }
    // ---- longer programs
    for k in a.cases(4000, 80000) {
        let mut r = a.rng(2_000_000 + k);
        let n = match k % 40 { 0 if k % 200 == 0 => 8192, 1 => 2048, 3..=7 => 1024, 13..=20 => 128, 21..=30 => 64, _ => *r.pick(&[8usize, 16, 32, 256]) };
        let pat = if n >= 2048 { 8 } else if n >= 256 { 6 + r.below(3) } else { r.below(8) }; let batches = r.one_in(3); let bad = r.one_in(4);
        case(&format!("C10 program {} ring {} pattern {} batches {} bad {}", k, n, pat, batches, bad), 60, || {
            ev("start").i("ring", n).done();
            let mut s = ring(n); let mut q: Vec<C> = vec![];
            let budget = if n > 2000 { 3 * n } else { 2 * n + 400 }; let mut made = 0; let steps = r.range(1, 30);
            for _ in 0..steps {
                if made > budget { break; }
                let c = match r.below(10) {
                    0 | 1 | 2 => { let l = if r.one_in(8) { 0 } else { r.logsize(n + n / 4 + 3) }; let mut b = vec![]; data::gen_n(&mut r, l, &mut b); C::Lit(b) }
                    3 | 4 if n >= 64 => { let w = word(&mut r, true); w }
                    9 if bad => if n >= 64 && r.one_in(2) { word(&mut r, false) } else { C::Copy(*r.pick(&[0u32, n as u32, n as u32 + 1, 2 * n as u32, 0x7fffffff]), r.below(20) as u32) },
                    8 if r.one_in(3) => match r.below(3) { 0 => C::BsL(3, 2), 1 => C::BsC(1), _ => C::BsD(7) },
                    _ => { let d = match r.below(6) { 0 => r.range(1, (n - 1).min(4)), 1 => n - 1 - r.below((n - 1).min(3)), 2 => *r.pick(&[63usize, 64, 65, 66]), 3 => r.range(1, n - 1), _ => r.logsize(n - 1).max(1) }.min(n - 1);
                           let l = match r.below(6) { 0 => d, 1 => d + 1, 2 => r.below(5), 3 => d.saturating_sub(1), _ => r.logsize(2 * n) }; C::Copy(d as u32, l as u32) }
                };
                made += match &c { C::Lit(b) => b.len(), C::Copy(_, l) => *l as usize, _ => 20 };
                if batches { q.push(c); if r.one_in(4) { batch(&mut r, &mut s, &q, pat); q.clear(); tells(&s, n); } }
                else { one(&mut r, &mut s, &c, pat); if r.one_in(4) { tells(&s, n); } if r.one_in(8) { flush(&mut r, &mut s, pat); } }
            }
            if !q.is_empty() { batch(&mut r, &mut s, &q, pat); }
            flush(&mut r, &mut s, pat); tells(&s, n);
        });
    }
    // ---- streams whose header promises a smaller window than their commands were made for
    for k in a.cases(240, 4000) {
        let mut r = a.rng(3_000_000 + k);
        case(&format!("C10 window {}", k), 60, || {
            let w = if r.one_in(6) { 11 } else { 10usize }; let win = 1usize << w;
            let mut cs = vec![]; let mut len = 0usize;
            let mut b = vec![]; let l = r.range(win / 2, win + 200); data::gen_n(&mut r, l, &mut b); len += b.len(); cs.push(C::Lit(b));
            let beyond = r.one_in(2);
            for _ in 0..r.range(1, 6) {
                let c = match r.below(5) {
                    0 => { let mut b = vec![]; let l = r.range(1, 300); data::gen_n(&mut r, l, &mut b); C::Lit(b) }
                    1 => word(&mut r, true),
                    2 if beyond => C::Copy((win + r.below(3) + if r.one_in(3) { r.below(500) } else { 0 }) as u32, r.range(1, 40) as u32),
                    _ => C::Copy(match r.below(3) { 0 => win - 1 - r.below(2), _ => r.range(1, win - 1) } as u32, r.range(1, 60) as u32),
                };
                len += match &c { C::Lit(b) => b.len(), C::Copy(_, n) => *n as usize, _ => 20 }; cs.push(c);
            }
            let _ = len;
            let mut o = data::opts(&mut r); o.window_size = Some(r.range(w + 1, 16) as i32);
            if let Some(st) = encode(&mut r, r_one(k), o, &cs, 1 << 16) {
                let mut v = st[..st.len() - 11].to_vec(); v[5] = w as u8; let v = wire::seal(v);
                let cut = *r.pick(&[1 << 16, 1 << 16, 7]); let mut d = newdec(false, r.one_in(3)); let x = drive(&mut d, &v, 1 << 16, cut); d.free();
                ev("windowed").i("w", w).j("cmds", &format!("[{}]", cs.iter().map(|c| c.json()).collect::<Vec<_>>().join(","))).s("v", x.verdict).a("out", &x.out).done();
            } else { ev("refused").done(); }
        });
    }
}
fn r_one(k: u64) -> bool { k % 2 == 0 }

/// the commands through a compressor
pub fn encode(r: &mut Rng, internal: bool, o: DivansCompressorOptions, cs: &[C], oc: usize) -> Option<Vec<u8>> {
    let cmds: Vec<Command<Vec8>> = cs.iter().map(|c| c.cmd()).collect();
    let mut c = Comp::new(internal, o); let mut out = vec![]; let mut p = 0; let mut buf = vec![0u8; oc]; let mut stall = 0;
    let mut lo = 0;
    while lo < cmds.len() {
        // in several batches, or all at once
        let hi = if r.one_in(2) { cmds.len() } else { r.range(lo + 1, cmds.len()) };
        p = 0;
        while p < hi - lo {
            let mut oo = 0; let before = p;
            let res = c.commands(&cmds[lo..hi], &mut p, &mut buf, &mut oo); out.extend(&buf[..oo]);
            if res == R::Err { c.free(); return None; }
            if oo == 0 && p == before { stall += 1; if stall > 10 { ev("stall").done(); return None; } } else { stall = 0 }
        }
        lo = hi;
    }
    let _ = p;
    loop { let mut oo = 0; let res = c.flush(&mut buf, &mut oo); out.extend(&buf[..oo]); match res { R::Ok => break, R::Err => { c.free(); return None } _ => {} }
        if oo == 0 { stall += 1; if stall > 10 { ev("stall").done(); return None; } } else { stall = 0 } }
    c.free();
    Some(out)
}
// ---------------------------------------------------------------- C17: programs of commands through the whole codec
/// the j-th byte of a long literal given by a formula (the same in Program.tla)
pub fn pat(a: usize, b: usize, j: usize) -> u8 { ((a * (j % 256) + b + 7 * (j / 256)) % 256) as u8 }
#[derive(Clone, Debug)]
pub enum P { C(C), Pat { n: usize, a: usize, b: usize } }
impl P {
    pub fn c(&self) -> C { match self { P::C(c) => c.clone(), P::Pat { n, a, b } => C::Lit((0..*n).map(|j| pat(*a, *b, j)).collect()) } }
    fn json(&self) -> String { match self { P::C(c) => c.json(), P::Pat { n, a, b } => format!("{{\"k\":\"pat\",\"n\":{},\"a\":{},\"b\":{}}}", n, a, b) } }
}
// no speeds at which the models of the original version overflow
thread_local! { pub static TAME: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn predmode(r: &mut Rng, full: bool) -> PredictionModeContextMap<Vec8> {
    use divans::interface as di;
    let lits = if full { 16384 } else { match r.below(5) { 0 => 0, 1 => 64, 2 => 64 * r.range(1, 255), 3 => 16384, _ => r.below(16385) } };
    let style = r.below(5); let mut seen = 0u32;
    let mut ent = |r: &mut Rng, i: usize| -> u8 { match style { 0 => (i % 64) as u8, 1 => r.byte(), 2 => { if r.one_in(8) && seen < 255 { seen += 1; } r.below(seen as usize + 1) as u8 } 3 => r.below(14) as u8, _ => (i / 64) as u8 } };
    let lit: Vec<u8> = (0..lits).map(|i| ent(r, i)).collect();
    let mut rest = vec![];
    if full || !r.one_in(12) {
        let nd = match r.below(4) { 0 => 0, 1 => 4, 2 => 1024, _ => r.below(1025) };
        rest = vec![0u8; di::DISTANCE_CONTEXT_MAP_OFFSET + nd];
        rest[di::PREDMODE_OFFSET] = r.below(4) as u8;
        rest[di::MIXING_MATH_OFFSET] = r.byte();
        rest[di::ADV_CONTEXT_MAP_OFFSET] = r.below(2) as u8;
        let ms = r.below(4);
        for i in 0..di::NUM_MIXING_VALUES { rest[di::MIXING_OFFSET + i] = match ms { 0 => 0, 1 => 4, 2 => r.below(16) as u8, _ => ((i >> 6) & 0xf) as u8 }; }
        for i in 0..12 { rest[di::SPEED_OFFSET + i] = match r.below(4) { 0 => 0, 1 => 0x7f, _ => r.below(128) as u8 }; if TAME.with(|t| t.get()) { rest[di::SPEED_OFFSET + i] = rest[di::SPEED_OFFSET + i].min(111); } }
        for i in 0..nd { rest[di::DISTANCE_CONTEXT_MAP_OFFSET + i] = if style == 1 { r.byte() } else { r.below(4) as u8 }; }
    }
    PredictionModeContextMap { literal_context_map: Vec8(lit), predmode_speed_and_distance_context_map: Vec8(rest) }
}
/// sizes at and around every power of two up to `max`
fn edge(r: &mut Rng, max: usize) -> usize { match r.below(4) { 0 => r.below(24), 1 => r.logsize(max), _ => { let b = 1usize << r.below(64 - (max as u64).leading_zeros() as usize); (b + r.below(5)).saturating_sub(2) } }.min(max) }
pub struct Prog { pub cs: Vec<P>, pub total: usize, pub starts: Vec<usize> }
pub fn prog(r: &mut Rng, w: usize, budget: usize, steps: usize, full_maps: bool) -> Prog {
    let win = 1usize << w; let mut p = Prog { cs: vec![], total: 0, starts: vec![] };
    let mut lru = vec![4usize, 11, 15, 16];
    let heavy = r.below(4); let modes = r.one_in(4);
    for _ in 0..steps {
        let left = budget.saturating_sub(p.total);
        let c = match if modes { *r.pick(&[0usize, 1, 2, 10, 13, 14]) } else { r.below(14) } {
            14 => P::C(C::Pred(predmode(r, full_maps))),
            0 | 1 | 2 => { let n = edge(r, if heavy == 0 { left } else { left.min(3000) }).max(1); // the format has no empty literal
                 if n > 300 { P::Pat { n, a: r.below(256), b: r.below(256) } } else { let mut b = vec![]; data::gen_n(r, n, &mut b); P::C(C::Lit(b)) } }
            3..=7 => {
                let d = match r.below(5) {
                    0 => lru[r.below(lru.len())],
                    1 => { let x = lru[r.below(2.min(lru.len()))] as i64 + r.below(9) as i64 - 4; x.max(1) as usize }
                    2 => win - 1 - r.below(3),
                    _ => edge(r, win - 1).max(1),
                }.min(win - 1).max(1);
                let n = edge(r, left);
                if n > 0 || r.one_in(2) { lru.insert(0, d); lru.truncate(4 + r.below(3)); }
                P::C(C::Copy(d as u32, n as u32))
            }
            8 | 9 => P::C(word(r, true)),
            10 => P::C(C::BsL(btype(r), r.below(9) as u8)),
            11 => P::C(C::BsC(btype(r))),
            12 => P::C(C::BsD(btype(r))),
            _ => if r.one_in(3) || p.cs.is_empty() { P::C(C::Pred(predmode(r, full_maps))) } else { P::C(C::BsL(btype(r), r.below(9) as u8)) },
        };
        p.starts.push(p.total);
        p.total += match &c { P::Pat { n, .. } => *n, P::C(C::Lit(b)) => b.len(), P::C(C::Copy(_, n)) => *n as usize, P::C(C::Dict { size, id, t, .. }) => wlen(*size, *id, *t), _ => 0 };
        p.cs.push(c);
    }
    p
}
fn btype(r: &mut Rng) -> u8 { match r.below(5) { 0 => 255, 1 => r.below(16) as u8, 2 => r.byte(), 3 => *r.pick(&[0u8, 1, 12, 13, 14, 254]), _ => r.below(3) as u8 } }
pub fn c17(a: &Args) {
    for k in a.cases(3000, 60000) {
        let mut r = a.rng(k);
        let kind = (k / 8) % 16;    // 0: lengths and distances to 2^24; 1..3: to 2^18; the rest small with every byte compared
        let w = match kind { 0 => 24, 1..=3 => r.range(16, 24), _ => r.range(10, 24) };
        let budget = match kind { 0 => (1usize << 24) + 5, 1..=3 => 1 << 18, _ => 1500 };
        let big = kind < 4;
        let steps = match kind { 0 => r.range(1, 12), 1..=3 => r.range(1, 30), _ => r.range(1, 60) };
        let p = if kind == 15 { maps(&mut r) } else { prog(&mut r, w, budget, steps, false) };
        let mut o = data::opts(&mut r); o.window_size = Some(w as i32); if kind == 15 && !r.one_in(4) { o.use_context_map = true; }
        let internal = r.one_in(2);
        let note = format!("C17 {} kind{} w{} total{} {} {}", k, kind, w, p.total, internal, data::show(&o));
        case(&note, 120, || {
            ev("start").s("note", &note).done();
            let cs: Vec<C> = p.cs.iter().map(|c| c.c()).collect();
            let oc = if big { 1 << 16 } else { *r.pick(&[1usize << 16, 1 << 16, 100, 3, 1]) };
            let st = match encode(&mut r, internal, o, &cs, oc) { Some(s) => s, None => { ev("refused").done(); return; } };
            // where to look
            let mut at: Vec<usize> = vec![];
            if big {
                for s in &p.starts { for d in 0..4 { at.push((s + d).saturating_sub(2)); } }
                for _ in 0..150 { at.push(r.below(p.total.max(1))); }
                at.push(p.total.saturating_sub(1));
                at.retain(|x| *x < p.total); at.sort(); at.dedup();
            }
            let prog = format!("[{}]", p.cs.iter().map(|c| c.json()).collect::<Vec<_>>().join(","));
            ev("program").j("cmds", &prog).i("w", w).done();
            for mt in [false, true] {
                let mut d = newdec(false, mt);
                let (bs, ic) = if big { (1 << 16, 1 << 16) } else { (*r.pick(&[1usize << 16, 1 << 16, 17, 1]), *r.pick(&[1usize << 16, 1 << 16, 5, 1])) };
                let mut buf = vec![0u8; bs]; let mut pos = 0; let mut n = 0usize; let mut out: Vec<u8> = vec![]; let mut got: Vec<u8> = vec![]; let mut ai = 0; let mut stall = 0;
                let v = loop {
                    let end = (pos + ic).min(st.len()); let mut io = 0; let mut oo = 0;
                    let x = r3(d.decode(&st[pos..end], &mut io, &mut buf, &mut oo)); pos += io;
                    if big { while ai < at.len() && at[ai] < n + oo { got.push(buf[at[ai] - n]); ai += 1; } } else { out.extend(&buf[..oo]); }
                    n += oo;
                    match x { R::Ok => break "OK", R::Err => break "ERR", _ => {} }
                    if io == 0 && oo == 0 { stall += 1; if stall > 4 { break "STALL"; } } else { stall = 0 }
                    if n > p.total + (1 << 20) { break "MORE"; }
                };
                d.free();
                let e = ev("decoded").b("mt", mt).s("v", v).b("ate", pos == st.len()).i("total", n);
                if big { at.truncate(got.len()); e.b("full", false).a("at", &at).a("got", &got).done(); } else { e.b("full", true).a("out", &out).done(); }
            }
        });
    }
}
/// shrinks failing programs (a development aid)
pub fn dbg17(a: &Args) {
    let lim: usize = a.extra.get(0).and_then(|x| x.parse().ok()).unwrap_or(3); let mut shown = 0;
    for k in a.cases(400, 4000) {
        let mut r = a.rng(k); let w = r.range(10, 16); let steps = r.range(1, 40);
        let p = prog(&mut r, w, 1500, steps, false); let mut o = data::opts(&mut r); o.window_size = Some(w as i32); let internal = r.one_in(2);
        let fails = |cs: &Vec<C>| -> Option<String> {
            let mut r = Rng::new(1, 1, 1);
            let st = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| encode(&mut r, internal, o, cs, 1 << 16))) { Ok(Some(s)) => s, Ok(None) => return Some("refused".into()), Err(_) => return Some("panic".into()) };
            let a = decompress(&st, false, false); let b = decompress(&st, false, true);
            if a.verdict != "OK" || b.verdict != "OK" || a.out != b.out { Some(format!("{} {} same {} len {} {}", a.verdict, b.verdict, a.out == b.out, a.out.len(), b.out.len())) } else { None }
        };
        let mut cs: Vec<C> = p.cs.iter().map(|c| c.c()).collect();
        if fails(&cs).is_none() { continue; }
        loop { let mut n = 0; let mut i = 0; while i < cs.len() { let mut t = cs.clone(); t.remove(i); if !t.is_empty() && fails(&t).is_some() { cs = t; n += 1; } else { i += 1; } } if n == 0 { break; } }
        println!("{} {} internal {} w {} {}", k, fails(&cs).unwrap(), internal, w, data::show(&o));
        for c in &cs { match c { C::Pred(p) => println!("   pred lit {} rest {} {:?}", p.literal_context_map.0.len(), p.predmode_speed_and_distance_context_map.0.len(), &p.predmode_speed_and_distance_context_map.0.get(..3)), c => println!("   {:?}", c) } }
        shown += 1; if shown >= lim { break; }
    }
}

/// context maps followed by shorter ones, block types beyond them in use
pub fn maps(r: &mut Rng) -> Prog {
    let mut p = Prog { cs: vec![], total: 0, starts: vec![] };
    for _ in 0..r.range(2, 6) {
        let mut m = predmode(r, true);
        let n = *r.pick(&[0usize, 64, 128, 256, 1024, 16384]); m.literal_context_map.0.truncate(n);
        if r.one_in(3) { let n = divans::interface::DISTANCE_CONTEXT_MAP_OFFSET; m.predmode_speed_and_distance_context_map.0.truncate(n + r.below(3) * 4); }
        p.starts.push(p.total); p.cs.push(P::C(C::Pred(m)));
        for _ in 0..r.below(4) {
            let c = match r.below(5) { 0 | 1 => C::BsL(r.below(20) as u8, r.below(9) as u8), 2 => C::BsD(r.below(9) as u8), 3 => C::Copy(r.range(1, 300) as u32, r.range(1, 60) as u32), _ => { let mut b = vec![]; data::gen_n(r, 40, &mut b); C::Lit(b) } };
            p.starts.push(p.total); p.total += match &c { C::Lit(b) => b.len(), C::Copy(_, n) => *n as usize, _ => 0 }; p.cs.push(P::C(c));
        }
    }
    p
}
