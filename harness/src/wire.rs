//! The multiplexer and the container format.
use crate::util::*; use crate::data; use crate::codecs::*; use crate::session::*;
use divans::mux::{Mux, StreamMuxer, StreamDemuxer};
use divans::DivansCompressorOptions;
use alloc_stdlib::HeapAlloc;

fn push(r: &mut Rng, m: &mut Mux<HeapAlloc<u8>>, m8: &mut HeapAlloc<u8>, s: u8, b: &[u8]) {
    match r.below(3) {
        0 => m.push_data(s, b, m8),
        1 => { assert_eq!(m.write(s, b, m8), b.len()); }
        _ => { // straight into the buffers, as the entropy coders do
            let mut p = 0;
            while p < b.len() {
                let mut w = m.write_buffer(m8); let w = &mut w[s as usize];
                let at = *w.write_offset; let n = (w.data.len() - at).min(b.len() - p).min(1 + r.below(40)); assert!(w.data.len() - at >= 16);
                w.data[at..at + n].clone_from_slice(&b[p..p + n]); *w.write_offset += n; p += n;
            }
        }
    }
}
fn take(r: &mut Rng, d: &mut Mux<HeapAlloc<u8>>, s: u8, max: usize) {
    let have = d.data_ready(s); let n = have.min(max);
    if n == 0 && have == 0 && !r.one_in(20) { return; }
    ev("ready").i("s", s as usize).i("n", have).done();
    if n == 0 { return; }
    let b: Vec<u8> = match r.below(3) {
        0 => { let v = d.peek(s)[..n].to_vec(); d.consume(s, n); v }
        1 => { let mut rb = d.read_buffer(); let x = &mut rb[s as usize]; let at = *x.read_offset; let v = x.data[at..at + n].to_vec(); *x.read_offset += n; v }
        _ => { let e = d.edit(s); let v = e.0[e.1.start..e.1.start + n].to_vec(); e.1.start += n; v }
    };
    ev("take").i("s", s as usize).a("bytes", &b).done();
}
/// A buffer that is nearly full, read up to about its middle, and then given about as much as still fits:
/// around the sizes at which what is left moves to the front or into a larger buffer.
fn tight(r: &mut Rng, note: &str) {
    ev("start").s("note", note).done();
    let mut ma = HeapAlloc::<u8>::new(0); let mut mb = HeapAlloc::<u8>::new(0);
    let mut m: Mux<HeapAlloc<u8>> = Mux::default(); let mut d: Mux<HeapAlloc<u8>> = Mux::default();
    let s = r.below(2) as u8; let writer = r.one_in(2); let c = if r.one_in(4) { r.range(16370, 16390) } else { r.range(16379, 16383) };
    let p = (2 * c + r.below(9)).saturating_sub(4); let mut left = p; let mut first = r.range(15000, 16300);
    let ser = |m: &mut Mux<HeapAlloc<u8>>, room: usize, fin: bool| -> Vec<u8> { let mut o = vec![0u8; room]; let n = if fin { m.flush(&mut o) } else { m.linearize(&mut o) }; ev("ser").i("room", room).a("bytes", &o[..n]).b("fin", fin).b("eof", fin && m.wrote_eof()).done(); o.truncate(n); o };
    let de = |d: &mut Mux<HeapAlloc<u8>>, mb: &mut HeapAlloc<u8>, p: &[u8]| { let used = d.write_linear(p, mb); ev("de").a("bytes", p).i("used", used).b("eof", d.encountered_eof()).done(); };
    let app = |r: &mut Rng, m: &mut Mux<HeapAlloc<u8>>, ma: &mut HeapAlloc<u8>, s: u8, n: usize| { let b: Vec<u8> = (0..n).map(|_| r.byte()).collect(); m.push_data(s, &b, ma); ev("push").i("s", s as usize).a("bytes", &b).done(); };
    let mut wire = vec![];
    while left > 0 { let n = first.min(left); app(r, &mut m, &mut ma, s, n); left -= n; first = r.range(1000, 20000); }
    let cap = if p + 3 <= 32768 { 32768 } else { 131072 };
    let rem = p - c; let next = match r.below(3) { 0 => cap - rem - r.below(8), 1 => (cap + 4).saturating_sub(p + 3 + r.below(8)).max(1), _ => r.range(1, cap - rem) };
    if writer {
        let mut gone = 0; let mut slice = 0; // payload bytes written so far
        while gone < c { let n = (if slice == 0 { 1 + (c - gone).min(16384) } else { (c - gone).min(slice) }).max(1); let o = ser(&mut m, n, false); if o.is_empty() { break; }
            let pay = if slice == 0 { let h = if o[0] < 16 { 3 } else { slice = 1024 << ((o[0] >> 4) * 2); 1 }; o.len().saturating_sub(h) } else { o.len() }; slice = slice.saturating_sub(pay); gone += pay; wire.extend(o); }
        app(r, &mut m, &mut ma, s, next);
        wire.extend(ser(&mut m, 1 << 18, true));
        de(&mut d, &mut mb, &wire);
    } else {
        let o = ser(&mut m, 1 << 18, false); wire.extend(o);
        de(&mut d, &mut mb, &wire); wire.clear();
        let have = d.data_ready(s).min(c); take(r, &mut d, s, have);
        app(r, &mut m, &mut ma, s, next);
        wire.extend(ser(&mut m, 1 << 18, true));
        let mut i = 0; while i < wire.len() { let n = r.logsize(wire.len() - i).max(1).max(wire.len() / 3).min(wire.len() - i); de(&mut d, &mut mb, &wire[i..i + n]); i += n; }
    }
    for s in 0..2 { let n = d.data_ready(s); take(r, &mut d, s, n); }
    ev("fin").done();
}
pub fn c09(a: &Args) {
    for k in a.cases(240, 5000) { let mut r = a.rng(k + 7000000); let note = format!("C09 tight {}", k); case(&note, 60, || tight(&mut r, &note)); }
    for k in a.cases(2000, 40000) {
        let mut r = a.rng(k);
        // sizes: tiny, around the slice sizes, and beyond the point where one sub-stream may run ahead
        let scale = match k % 25 { 0 => 4, 1 | 2 => 3, 3..=6 => 2, _ => r.below(2) };
        let note = format!("C09 {} scale{}", k, scale);
        case(&note, 120, || {
            ev("start").s("note", &note).done();
            let mut ma = HeapAlloc::<u8>::new(0); let mut mb = HeapAlloc::<u8>::new(0);
            let mut m: Mux<HeapAlloc<u8>> = Mux::default(); let mut d: Mux<HeapAlloc<u8>> = Mux::default();
            let mut wire: Vec<u8> = vec![];
            let budget = [200usize, 3000, 30000, 150000, 330000][scale]; let mut pushed = 0;
            let bias = r.below(5); // how the two sub-streams share the data
            let unit = [12usize, 400, 6000, 40000, 90000][scale];
            let tiny = scale == 0 && r.one_in(2);
            let mut steps = 0; let mut closing = false; let mut eof = false; let mut deof = false;
            while !(eof && deof && wire.is_empty()) && steps < 100000 {
                steps += 1;
                match r.below(if tiny { 12 } else { 6 }) {
                    0 if !closing && pushed < budget => {
                        let s = match bias { 0 => 0, 1 => 1, 2 => if r.one_in(30) { 0 } else { 1 }, 3 => if r.one_in(30) { 1 } else { 0 }, _ => r.below(2) as u8 };
                        let n = match r.below(6) { 0 => *r.pick(&[0usize, 1, 15, 16, 17, 509, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537]), 1 => r.below(20), _ => r.logsize(unit) }.min(budget);
                        let b: Vec<u8> = (0..n).map(|_| r.byte()).collect(); pushed += n;
                        push(&mut r, &mut m, &mut ma, s, &b);
                        ev("push").i("s", s as usize).a("bytes", &b).done();
                    }
                    0 => { if pushed >= budget || r.one_in(10) { closing = true; } }
                    1 | 2 | 6..=8 => {
                        let room = if tiny { r.below(4) } else { match r.below(4) { 0 => r.below(6), 1 => r.logsize(unit), 2 => unit * 2, _ => r.logsize(200000) } };
                        let fin = closing && !r.one_in(5) || eof;
                        if !fin && closing && eof { continue; }
                        let mut out = vec![0x5au8; room + 3];
                        let fin = fin || (closing && steps > 500);
                        let n = if fin { m.flush(&mut out[..room]) } else if closing { continue } else { m.linearize(&mut out[..room]) };
                        eof = m.wrote_eof();
                        if n > room || out[room..] != [0x5a; 3] { ev("overrun").i("n", n).done(); return; }
                        ev("ser").i("room", room).a("bytes", &out[..n]).b("fin", fin).b("eof", fin && eof).done();
                        wire.extend(&out[..n]);
                        if closing && n < room { closing = true; }
                    }
                    3 | 9 | 10 => {
                        if wire.is_empty() && !r.one_in(20) { continue; }
                        let n = if tiny { r.below(4) } else { r.logsize(wire.len().max(1)) }.min(wire.len());
                        let n = if r.one_in(4) { wire.len() } else { n };
                        let mut p = wire[..n].to_vec(); let junk = deof || (eof && n == wire.len() && r.one_in(3));
                        if junk && n == wire.len() { let _ = &mut p; }
                        let used = d.write_linear(&p, &mut mb); deof = d.encountered_eof();
                        if used > n { ev("overrun").i("n", used).done(); return; }
                        ev("de").a("bytes", &p).i("used", used).b("eof", deof).done();
                        wire.drain(..used);
                        if used < n && deof { ev("overrun").i("n", n - used).done(); return; }
                    }
                    _ => { let s = r.below(2) as u8; let x = r.logsize(200000); take(&mut r, &mut d, s, x); }
                }
                if steps > 2000 && pushed >= budget { closing = true; }
            }
            // what follows the end marker is not touched
            let extra: Vec<u8> = (0..r.below(5)).map(|_| r.byte()).collect();
            let used = d.write_linear(&extra, &mut mb); ev("de").a("bytes", &[0u8; 0]).i("used", used).b("eof", d.encountered_eof()).done();
            let mut o = [0u8; 9]; let n = m.flush(&mut o); ev("ser").i("room", 9).a("bytes", &o[..n]).b("fin", true).b("eof", m.wrote_eof()).done();
            for s in 0..2 { let n = d.data_ready(s); take(&mut r, &mut d, s, n); }
            if !d.consumed_all_streams_until_eof() { ev("overrun").i("n", 0).done(); }
            m.free_mux(&mut ma); d.free_demux(&mut mb);
            ev("fin").done();
        });
    }
}
/// the two sub-streams of a well-formed stream (the specification checks that this reading is right)
pub fn substreams(s: &[u8]) -> [Vec<u8>; 2] {
    let mut o = [vec![], vec![]]; let mut p = 16;
    while p < s.len() && s[p] != 0xff {
        let id = (s[p] & 1) as usize;
        let (h, n) = if s[p] < 16 { (3, s[p + 1] as usize + 256 * s[p + 2] as usize + 1) } else { (1, 1024usize << ((s[p] >> 4) << 1)) };
        o[id].extend(&s[p + h..p + h + n]); p += h + n;
    }
    o
}
pub fn crc32c(b: &[u8]) -> u32 { let mut c = !0u32; for x in b { c ^= *x as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 }; } } !c }
pub fn seal(mut v: Vec<u8>) -> Vec<u8> { v.extend(&[0xff, 0xfe, 0xff]); let c = crc32c(&v); v.extend(&c.to_le_bytes()); v.extend(b"ans~"); v }
pub fn c12(a: &Args) {
    for k in a.cases(3000, 30000) {
        let mut r = a.rng(k);
        let internal = r.one_in(2); let mut o: DivansCompressorOptions = data::opts(&mut r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
        if r.one_in(4) { o.window_size = Some(*r.pick(&[-1, 0, 1, 9, 10, 11, 16, 23, 24, 25, 30, 100])); }
        let max = match k % 40 { 0 => 400000, 1..=3 => 20000, _ => 2500 };
        let d = data::gen(&mut r, max);
        let note = format!("C12 {} int{} n{} {}", k, internal, d.len(), data::show(&o));
        case(&note, 120, || {
            let w = o.window_size.unwrap_or(22).max(10).min(24) as usize;
            let cut = r.one_in(2);
            let (ic, oc) = if cut { (1 + r.logsize(d.len() + 1), 1 + r.logsize(5000)) } else { (1 << 20, 1 << 20) };
            let s = match compress_chunked(internal, o, &d, ic, oc) { Ok(s) => s, Err(e) => { ev("failed").s("what", &e).s("note", &note).done(); return; } };
            if s.len() > 60000 && !a.thorough() && !r.one_in(4) { return; }
            ev("stream").i("w", w).i("n", d.len()).a("bytes", &s).s("note", &note).done();
            if s.len() > 20000 && !r.one_in(3) { return; }
            // the same sub-streams in other slices
            let q = substreams(&s); let mut t = s[..16].to_vec(); slices(&mut r, &q[0], &q[1], &mut t); let t = seal(t);
            let mt = r.one_in(8); let skip = r.one_in(6);
            let mut x = newdec(skip, mt); let v = drive(&mut x, &t, *r.pick(&[1usize, 7, 4096, 1 << 20]), *r.pick(&[1usize, 100, 4096, 1 << 20])); x.free();
            ev("resliced").a("from", &s).a("bytes", &t).s("v", v.verdict).i("used", v.used).b("same", v.out == d).s("note", &note).done();
        });
    }
}
