//! Inputs and option settings.
use crate::util::Rng;
use divans::*;
pub static TEXT: &[u8] = include_bytes!("../../data/text.bin");
pub static UNI: &[u8] = include_bytes!("../../data/uni.bin");
pub static UNI2: &[u8] = include_bytes!("../../data/uni2.bin");

fn seg(r: &mut Rng, n: usize, v: &mut Vec<u8>) {
    let k = r.below(15);
    let start = v.len();
    match k {
        0 => { let b = r.byte(); v.extend(std::iter::repeat(b).take(n)); }
        1 => for _ in 0..n { v.push(r.byte()); },
        2 | 3 => { let s = TEXT; let o = r.below(s.len()); for i in 0..n { v.push(s[(o + i) % s.len()]); } }
        4 => { let s = if r.one_in(2) { UNI } else { UNI2 }; let o = r.below(s.len()); for i in 0..n { v.push(s[(o + i) % s.len()]); } }
        5 | 6 => { // records of a fixed stride, columns vary slowly
            let w = r.range(1, 9); let mut row: Vec<u8> = (0..w).map(|_| r.byte()).collect();
            let vary: Vec<usize> = (0..w).map(|_| r.range(0, 6)).collect();
            for i in 0..n { let c = i % w; if vary[c] > 0 && r.below(vary[c] + 1) == 0 { row[c] = row[c].wrapping_add(r.below(5) as u8).wrapping_sub(2); } v.push(row[c]); }
        }
        7 => { // a long period: matches at one distance
            let p = r.logsize(n.max(2)).max(1); let blk: Vec<u8> = (0..p).map(|_| r.byte()).collect();
            for i in 0..n { v.push(blk[i % p]); }
        }
        8 => { // words of the static dictionary in several spellings
            let d = &brotli_dict()[..];
            while v.len() - start < n {
                let len = r.range(4, 12); let o = r.below(d.len() - 24);
                let mut w: Vec<u8> = d[o..o + len].to_vec();
                if r.one_in(3) { if w[0].is_ascii_lowercase() { w[0] ^= 32; } }
                if r.one_in(6) { for b in w.iter_mut() { if b.is_ascii_lowercase() { *b ^= 32; } } }
                v.extend(&w); v.push(*r.pick(&[b' ', b',', b'.', b'\n', b'"', b'=', b'/']));
            }
            v.truncate(start + n);
        }
        9 => for i in 0..n { v.push((i * 7 / 5) as u8); },
        10 => { let a = r.byte(); let b = r.byte(); for _ in 0..n { v.push(if r.one_in(3) { a } else { b }); } }
        11 => { // copy of something earlier, slightly edited
            if start == 0 { for _ in 0..n { v.push(r.byte() & 0x3f); } } else {
                let o = r.below(start); for i in 0..n { let b = v[o + i]; v.push(if r.one_in(40) { r.byte() } else { b }); } } }
        12 => { // utf-8 of a few scripts
            while v.len() - start < n { let base = *r.pick(&[0x60u32, 0x400, 0x900, 0x4e00, 0x1f600]); let c = char::from_u32(base + r.below(26) as u32).unwrap_or('x'); let mut b = [0u8; 4]; v.extend(c.encode_utf8(&mut b).as_bytes()); }
            v.truncate(start + n);
        }
        13 => { let mut x = r.byte(); for _ in 0..n { x = x.wrapping_add((r.below(3) as u8).wrapping_sub(1)); v.push(x); } } // small deltas (signed contexts)
        _ => { // html-ish
            let t: &[&[u8]] = &[b"<div class=\"", b"</div>\n", b" id=\"", b"http://www.", b".com/", b"&nbsp;", b"the ", b" of ", b"ing ", b"0123456789"];
            while v.len() - start < n { let s = *r.pick(t); v.extend(s); if r.one_in(4) { v.push(r.byte()); } }
            v.truncate(start + n);
        }
    }
}
pub fn brotli_dict() -> &'static [u8] { &brotli::dictionary::kBrotliDictionary[..] }

pub fn gen(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) { 0 => *r.pick(&[0usize, 1, 2, 3, 4, 5, 15, 16, 17, 255, 256, 257, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16384, 65535, 65536, 65537]), 1 => r.below(max + 1), _ => r.logsize(max) }.min(max);
    let mut v = vec![];
    gen_n(r, n, &mut v); v
}
pub fn gen_n(r: &mut Rng, n: usize, v: &mut Vec<u8>) {
    let target = v.len() + n;
    let single = r.one_in(3);
    while v.len() < target { let left = target - v.len(); let m = if single { left } else { r.logsize(left).max(1).min(left) }; seg(r, m, v); }
}

pub const SPEEDS: [(i16, i16); 18] = [(0, 32), (1, 128), (1, 16384), (2, 1024), (4, 1024), (8, 8192), (16, 48), (32, 4096), (64, 16384), (128, 256), (512, 16384), (1664, 16384), (7680, 16384), (8192, 32), (12288, 12288), (16383, 16384), (16383, 13000), (16384, 16384)];
pub fn opts(r: &mut Rng) -> DivansCompressorOptions {
    let mut o = DivansCompressorOptions::default();
    if r.one_in(6) { return o; }
    o.quality = match r.below(6) { 0 => None, _ => Some(r.below(12) as u16) };
    o.q9_5 = r.one_in(6);
    if o.q9_5 && r.one_in(2) { o.quality = Some(10); }
    o.window_size = match r.below(8) { 0 => None, 1 => Some(24), 2 => Some(10), _ => Some(r.range(10, 22) as i32) };
    o.lgblock = match r.below(4) { 0 => None, _ => Some(r.range(16, 22) as u32) };
    if r.one_in(3) { let mut s = [Speed::new(0, 32); 4]; for x in s.iter_mut() { let p = *r.pick(&SPEEDS); *x = Speed::new(p.0, p.1); } o.literal_adaptation = Some(s); }
    o.force_literal_context_mode = match r.below(8) { 0 => Some(LiteralPredictionModeNibble(0)), 1 => Some(LiteralPredictionModeNibble(1)), 2 => Some(LiteralPredictionModeNibble(2)), 3 => Some(LiteralPredictionModeNibble(3)), _ => None };
    o.dynamic_context_mixing = match r.below(4) { 0 => None, 1 if r.one_in(4) => Some(r.range(3, 7) as u8), _ => Some(r.below(3) as u8) };
    o.stride_detection_quality = match r.below(4) { 0 => None, _ => Some(r.below(4) as u8) };
    o.speed_detection_quality = match r.below(5) { 0 => None, 1 => Some(1), _ => Some(0) };
    o.use_context_map = !r.one_in(3);
    o.force_stride_value = *r.pick(&[StrideSelection::PriorDisabled, StrideSelection::Stride1, StrideSelection::Stride2, StrideSelection::Stride3, StrideSelection::Stride4, StrideSelection::Stride5, StrideSelection::Stride6, StrideSelection::Stride7, StrideSelection::Stride8, StrideSelection::UseBrotliRec, StrideSelection::UseBrotliRec, StrideSelection::UseBrotliRec]);
    o.prior_depth = match r.below(3) { 0 => None, 1 if r.one_in(3) => Some(r.byte()), _ => Some(r.below(16) as u8) };
    o.prior_bitmask_detection = r.below(2) as u8;
    o.brotli_literal_byte_score = match r.below(4) { 0 => Some(*r.pick(&[1u32, 64, 340, 540, 1000])), _ => None };
    o.divans_ir_optimizer = if r.one_in(4) { 1 } else { 0 };
    o
}
pub fn show(o: &DivansCompressorOptions) -> String {
    format!("q{:?}{} w{:?} b{:?} la{:?} cm{:?} mix{:?} sdq{:?} spq{:?} ucm{} st{:?} pd{:?} pbd{} bs{:?} ir{}", o.quality, if o.q9_5 { ".5" } else { "" }, o.window_size, o.lgblock, o.literal_adaptation.map(|s| s.iter().map(|x| (x.inc(), x.lim())).collect::<Vec<_>>()), o.force_literal_context_mode.map(|x| x.0), o.dynamic_context_mixing, o.stride_detection_quality, o.speed_detection_quality, o.use_context_map, o.force_stride_value as u8, o.prior_depth, o.prior_bitmask_detection, o.brotli_literal_byte_score, o.divans_ir_optimizer)
}
