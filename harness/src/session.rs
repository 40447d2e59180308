//! Streaming sessions against the real codecs, one trace event per call.
use crate::{util::*, data, codecs::*};
use divans::*;

/// how a session cuts up its input and its output space
#[derive(Clone, Copy, Debug)]
pub struct Cut { pub ic: usize, pub oc: usize, pub rnd: bool, pub zeros: bool }
impl Cut {
    pub fn whole() -> Cut { Cut { ic: 1 << 24, oc: 1 << 20, rnd: false, zeros: false } }
    /// a policy that needs at most about `calls` calls for n bytes in and m bytes out
    pub fn pick(r: &mut Rng, n: usize, m: usize, calls: usize) -> Cut {
        let min_i = n / calls + 1; let min_o = m / calls + 1;
        let small = [1usize, 2, 3, 4, 5, 7, 8, 13, 15, 16, 17, 18, 19, 31, 64, 255, 256, 1000, 4096, 65536];
        let mut f = |min: usize| -> usize { match r.below(4) { 0 => min, 1 => (*r.pick(&small)).max(min), 2 => min + r.logsize(4096), _ => 1 << 20 } };
        let ic = f(min_i); let oc = f(min_o);
        Cut { ic, oc, rnd: r.one_in(2), zeros: r.one_in(4) }
    }
    pub fn size(&self, k: usize, r: &mut Rng, zero: bool) -> usize {
        if zero && self.zeros && r.one_in(5) { return 0; }
        if self.rnd && k > 1 { if r.one_in(3) { k } else { r.range((k / 2).max(1), k) } } else { k }
    }
}
pub struct Facts<'a> { pub kind: &'a str, pub n: usize, pub len: usize, pub m: usize, pub mode: &'a str, pub rf: Option<&'a Outcome>, pub how: &'a str }
pub fn start(f: &Facts, note: &str) {
    let rf = match f.rf { None => "{\"how\":\"none\",\"v\":\"none\",\"used\":0,\"out\":0,\"dig\":0}".to_string(), Some(o) => format!("{{\"how\":\"{}\",\"v\":\"{}\",\"used\":{},\"out\":{},\"dig\":{}}}", f.how, o.verdict, o.used, o.out.len(), digest(&o.out)) };
    ev("start").j("facts", &format!("{{\"kind\":\"{}\",\"n\":{},\"len\":{},\"m\":{},\"mode\":\"{}\",\"ref\":{}}}", f.kind, f.n, f.len, f.m, f.mode, rf)).s("note", note).done();
}
/// incremental digest so that each call costs only its own bytes
#[derive(Clone)]
pub struct Dig(u64);
impl Dig { pub fn new() -> Dig { Dig(0xcbf29ce484222325) } pub fn add(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } } pub fn get(&self) -> usize { ((self.0 ^ (self.0 >> 32)) & 0x3fffffff) as usize } }

const PAD: usize = 5;
/// Decodes `inp`, an event per call, until a verdict or until the input is used up without one.
/// `again`: calls made after the verdict.
pub fn decode<D: Feed>(r: &mut Rng, d: &mut D, inp: &[u8], f: &Facts, expect: Option<&[u8]>, cut: Cut, again: usize, note: &str) -> &'static str {
    start(f, note);
    let mut buf = vec![0xa5u8; PAD]; let mut pos = 0; let mut got = 0; let mut dig = Dig::new(); let mut same = true; let mut idle = 0; let mut nmi0 = 0;
    let mut verdict = "";
    loop {
        let ia = cut.size(cut.ic, r, true).min(inp.len() - pos); let oa = cut.size(cut.oc, r, true);
        if buf.len() < PAD + oa { buf.resize(PAD + oa, 0xa5); }
        // the input is offered inside a larger buffer, the room behind bytes that must stay
        let mut io = pos; let mut oo = PAD;
        let ret = d.feed(&inp[..pos + ia], &mut io, &mut buf[..PAD + oa], &mut oo);
        let used = io.wrapping_sub(pos); let wrote = oo.wrapping_sub(PAD);
        if used > ia || wrote > oa { ev("dec").i("ia", ia).i("oa", oa).n("used", used as i32 as i64).n("wrote", wrote as i32 as i64).s("ret", ret.s()).b("same", false).i("dig", 0).done(); return "BAD"; }
        if buf[..PAD].iter().any(|x| *x != 0xa5) { same = false; }
        if let Some(e) = expect { if got + wrote > e.len() || e[got..got + wrote] != buf[PAD..oo] { same = false; } }
        else if let Some(o) = f.rf { let n = wrote.min(o.out.len().saturating_sub(got)); if n > 0 && o.out[got..got + n] != buf[PAD..PAD + n] { same = false; } }
        dig.add(&buf[PAD..oo]); pos += used; got += wrote;
        ev("dec").i("ia", ia).i("oa", oa).i("used", used).i("wrote", wrote).s("ret", ret.s()).b("same", same).i("dig", dig.get()).done();
        if verdict != "" { nmi0 += 1; if nmi0 >= again { return verdict; } continue; }
        match ret { R::Ok => verdict = "OK", R::Err => verdict = "ERR", _ => {} }
        if verdict != "" { if again == 0 { return verdict; } continue; }
        if ret == R::Nmi && pos == inp.len() && oa > 0 && wrote == 0 { ev("dry").i("dig", dig.get()).done(); return "NMI"; }
        if expect.is_none() && got > CAP { return "CAP"; } // a bomb
        if used == 0 && wrote == 0 && ia > 0 && oa > 0 { idle += 1; if idle > 20 { return "STALL"; } } // the trace already shows the stall
    }
}
pub fn free_dec(d: Dec, v: &str) { d.free(); ev(if v == "CAP" { "drop" } else { "end" }).done(); }

/// Compresses `data`, an event per call; returns the stream.
pub fn encode(r: &mut Rng, internal: bool, o: DivansCompressorOptions, data: &[u8], cut: Cut, rf: Option<&Outcome>, note: &str) -> Option<Vec<u8>> {
    let mut c = Comp::new(internal, o);
    let out = encode_with(r, &mut c, data, cut, rf, note, &mut |_, _| {})?;
    c.free();
    means(&out, data);
    ev("end").done();
    Some(out)
}
/// the same with a compressor at hand; `poke` is called before every call
pub fn encode_with(r: &mut Rng, c: &mut Comp, data: &[u8], cut: Cut, rf: Option<&Outcome>, note: &str, poke: &mut dyn FnMut(&mut Rng, &mut Comp)) -> Option<Vec<u8>> {
    start(&Facts { kind: "enc", n: data.len(), len: 0, m: 0, mode: "valid", rf, how: "same" }, note);
    let mut out = vec![]; let mut buf = vec![]; let mut pos = 0; let mut idle = 0;
    while pos < data.len() || (cut.zeros && idle == 0) {
        let ia = cut.size(cut.ic, r, true).min(data.len() - pos); let oa = cut.size(cut.oc, r, true);
        if buf.len() < PAD + oa { buf.resize(PAD + oa, 0xa5); }
        let mut io = pos; let mut oo = PAD;
        poke(r, c);
        let ret = c.encode(&data[..pos + ia], &mut io, &mut buf[..PAD + oa], &mut oo);
        let used = io.wrapping_sub(pos); let wrote = oo.wrapping_sub(PAD);
        ev("enc").i("ia", ia).i("oa", oa).n("used", used as i32 as i64).n("wrote", wrote as i32 as i64).s("ret", ret.s()).done();
        if used > ia || wrote > oa || ret == R::Err || ret == R::Ok { return None; }
        out.extend(&buf[PAD..oo]); pos += used;
        if used == 0 && wrote == 0 { idle += 1; if idle > 40 { return None; } }
        if pos == data.len() { break; }
    }
    poke(r, c);
    if !flush(r, c, cut, &mut out, 2) { return None; }
    Some(out)
}
pub fn flush(r: &mut Rng, c: &mut Comp, cut: Cut, out: &mut Vec<u8>, again: usize) -> bool {
    let mut dig = Dig::new(); dig.add(out); let mut buf = vec![]; let mut idle = 0; let mut done = 0;
    loop {
        let oa = cut.size(cut.oc, r, true); if buf.len() < PAD + oa { buf.resize(PAD + oa, 0xa5); }
        let mut oo = PAD; let ret = c.flush(&mut buf[..PAD + oa], &mut oo); let wrote = oo.wrapping_sub(PAD);
        if wrote <= oa { dig.add(&buf[PAD..oo]); }
        ev("flush").i("oa", oa).n("wrote", wrote as i32 as i64).s("ret", ret.s()).i("dig", dig.get()).done();
        if wrote > oa { return false; }
        out.extend(&buf[PAD..oo]);
        match ret { R::Ok => { if done >= again { return true; } done += 1; } R::Err => return false, _ => { if wrote == 0 && oa > 0 { idle += 1; if idle > 20 { return false; } } } }
    }
}
/// what the stream says once decompressed, next to what was put in
pub fn means(stream: &[u8], data: &[u8]) {
    let x = decompress(stream, false, false);
    ev("means").i("total", stream.len()).s("v", x.verdict).i("used", x.used).i("out", x.out.len()).i("dig", digest(&x.out)).i("wantout", data.len()).i("wantdig", digest(data)).done();
}
pub fn whole(stream: &[u8]) -> Outcome { Outcome { out: stream.to_vec(), verdict: "OK", used: 0 } }

/// C01: many option sets, many inputs; big sizes with roomy buffers
pub fn c01(a: &Args) {
    if a.shard == 0 && a.case.is_none() { // what is known to go wrong: more than the brotli crate can take
        let mut lost = 0;
        for k in 0..400 { let mut r = Rng::new(1, 77, k); let d = data::gen(&mut r, 20000); let mut o = DivansCompressorOptions::default(); o.quality = Some(r.range(5, 9) as u16); o.brotli_literal_byte_score = Some(5000);
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compress(false, o, &d).map(|c| decompress(&c, false, false)))); take_panic();
            if match x { Ok(Ok(x)) => x.verdict != "OK" || x.out != d, _ => true } { lost += 1; } }
        if lost > 0 { ev("finding").s("what", "brotli_literal_byte_score 5000: decompresses to other data").i("times", lost).done(); }
    }
    for k in a.cases(2600, 40000) {
        let mut r = a.rng(k);
        let internal = r.one_in(4);
        let max = match r.below(40) { 0 => 1 << 21, 1 => 1 << 19, 2..=5 => 1 << 17, _ => 30000 };
        let d = data::gen(&mut r, max); let o = data::opts(&mut r);
        let note = format!("C01 {} int{} n{} {}", k, internal, d.len(), data::show(&o));
        case(&note, 120, || {
            let cut = if r.one_in(3) { Cut::pick(&mut r, d.len(), d.len() / 2, 40) } else { Cut::whole() };
            encode(&mut r, internal, o, &d, cut, None, &note);
        });
    }
}

/// a compressed stream with the data it stands for
pub fn stream(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    loop {
        let d = data::gen(r, max); let internal = r.one_in(3);
        let mut o = data::opts(r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
        if let Ok(s) = compress(internal, o, &d) { return (s, d); }
        ev("case").s("note", "compress failed").done();
    }
}
/// wraps bytes of the two sub-streams into slices
pub fn slices(r: &mut Rng, cmd: &[u8], lit: &[u8], out: &mut Vec<u8>) {
    let q = [cmd, lit]; let mut p = [0usize; 2];
    loop {
        let left = [q[0].len() - p[0], q[1].len() - p[1]];
        if left[0] + left[1] == 0 { return; }
        let id = if left[0] == 0 { 1 } else if left[1] == 0 { 0 } else { r.below(2) };
        let pow = [4096usize, 16384, 65536, 262144];
        let k = if r.one_in(3) && left[id] >= 4096 { let c: Vec<usize> = (0..4).filter(|k| pow[*k] <= left[id]).collect(); Some(*r.pick(&c)) } else { None };
        let n = match k { Some(k) => { out.push(((k + 1) << 4) as u8 | id as u8); pow[k] } None => { let n = (1 + r.logsize(left[id].min(65536) - 1)).min(left[id]); out.extend(&[id as u8, (n - 1) as u8, ((n - 1) >> 8) as u8]); n } };
        out.extend(&q[id][p[id]..p[id] + n]); p[id] += n;
    }
}
pub fn header(w: u8) -> Vec<u8> { let mut h = vec![0xffu8, 0xe5, 0x8c, 0x9f]; h.push(0); h.push(w); h.extend(&[0; 10]); h }
pub fn steer(r: &mut Rng, n: usize) -> Vec<u8> {
    let k = r.below(5);
    (0..n).map(|i| match k { 0 => r.byte(), 1 => if r.one_in(4) { r.byte() } else { 0 }, 2 => if r.one_in(4) { r.byte() } else { 255 }, 3 => if i % 2 == 0 { r.byte() } else { r.byte() & 15 }, _ => if i < 8 { r.byte() } else { *r.pick(&[0, 255, 128, 1, 16]) } }).collect()
}
/// bytes that are not a stream: noise, streams with damage, well-formed slices of noise
pub fn nonsense(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(8) {
        0 => { let n = r.logsize(max); (0..n).map(|_| r.byte()).collect() }
        1 => { let (s, _) = stream(r, max); let mut v = s[..16].to_vec(); let n = r.logsize(max); v.extend((0..n).map(|_| r.byte())); v }
        2 | 3 => { let (mut s, _) = stream(r, max); damage(r, &mut s); s }
        4 => { let (mut s, _) = stream(r, max); let (t, _) = stream(r, max); let a = r.range(16, s.len()); let b = r.range(16, t.len()); s.truncate(a); s.extend(&t[b..]); s }
        _ => { // the command layer fed with noise
            let (s, _) = stream(r, 300); let mut v = s[..16].to_vec();
            if r.one_in(3) { v[5] = r.range(10, 24) as u8; }
            let a = r.logsize(max); let c = steer(r, a); let b = r.logsize(max); let l = steer(r, b);
            slices(r, &c, &l, &mut v);
            if !r.one_in(4) { v.extend(&[0xff, 0xfe, 0xff]); v.extend((0..4).map(|_| r.byte())); v.extend(b"ans~"); }
            v
        }
    }
}
pub fn damage(r: &mut Rng, s: &mut Vec<u8>) {
    let orig = s.clone();
    loop {
        match r.below(6) {
            0 => { let i = r.below(s.len()); s[i] ^= 1 << r.below(8); }
            1 => { let i = r.below(s.len()); s[i] = r.byte(); }
            2 => { for _ in 0..r.range(2, 9) { let i = r.below(s.len()); s[i] = r.byte(); } }
            3 => { let i = r.below(s.len()); let n = r.range(1, 20).min(s.len() - i); s.drain(i..i + n); }
            4 => { let i = r.below(s.len() + 1); for _ in 0..r.range(1, 9) { s.insert(i, r.byte()); } }
            _ => { let i = r.below(s.len()); let n = r.range(1, 30).min(s.len() - i); let c = s[i..i + n].to_vec(); let j = r.below(s.len()); for (k, b) in c.iter().enumerate() { if j + k < s.len() { s[j + k] = *b; } } }
        }
        if s.len() < orig.len() { if orig.starts_with(s) { continue; } }
        if !s.starts_with(&orig) { return; }
    }
}

/// C02: the same bytes cut up differently
pub fn c02(a: &Args) {
    for k in a.cases(900, 20000) {
        let mut r = a.rng(k);
        let big = r.one_in(6);
        let (inp, expect, mode) = match r.below(5) {
            0 => { (nonsense(&mut r, 2000), None, "any") }
            1 => { let (s, d) = stream(&mut r, 3000); let n = r.below(s.len()); (s[..n].to_vec(), Some(d), "prefix") }
            2 => { let (mut s, d) = stream(&mut r, 3000); let x = s.clone(); damage(&mut r, &mut s); let _ = d; if s == x { (s, None, "any") } else { (s, None, "altered") } }
            _ => { let (s, d) = stream(&mut r, if big { 150000 } else { 4000 }); (s, Some(d), "valid") }
        };
        let skip = r.one_in(4); let mode = if skip && mode == "altered" { "any" } else { mode };
        let note = format!("C02 {} n{} {} skip{}", k, inp.len(), mode, skip);
        case(&note, 120, || {
            let rf = decompress(&inp, skip, false); if rf.verdict == "CAP" { return; }
            let len = inp.len() + if mode == "prefix" || mode == "altered" { 1 } else { 0 };
            for j in 0..4 {
                let cut = if j == 0 && inp.len() < 700 && rf.out.len() < 700 { *r.pick(&[Cut { ic: 1, oc: 1, rnd: false, zeros: false }, Cut { ic: 1, oc: 1 << 20, rnd: false, zeros: false }, Cut { ic: 1 << 20, oc: 1, rnd: false, zeros: true }]) } else { Cut::pick(&mut r, inp.len(), rf.out.len(), 60) };
                let f = Facts { kind: "dec", n: inp.len(), len, m: expect.as_ref().map(|d| d.len()).unwrap_or(0), mode, rf: Some(&rf), how: if mode == "any" || mode == "altered" { "accept" } else { "same" } };
                let mut d = newdec(skip, false);
                let v = decode(&mut r, &mut d, &inp, &f, expect.as_ref().map(|d| &d[..]), cut, 1, &format!("{} {:?}", note, cut));
                free_dec(d, v);
            }
        });
    }
}
/// C03: the same data compressed again: other cuts, other codecs at work before and in between
pub fn c03(a: &Args) {
    for k in a.cases(700, 15000) {
        let mut r = a.rng(k);
        let internal = r.one_in(3); let mut o = data::opts(&mut r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
        let big = r.one_in(8);
        let d = data::gen(&mut r, if big { 300000 } else { 8000 });
        let note = format!("C03 {} int{} n{} {}", k, internal, d.len(), data::show(&o));
        case(&note, 120, || {
            if !internal {
                let rf = Outcome { out: compress(false, o, &d).unwrap_or_default(), verdict: "OK", used: d.len() };
                for _ in 0..2 {
                    if r.one_in(2) { let (s, _) = stream(&mut r, 2000); decompress(&s, false, r.one_in(8)); }
                    let cut = if d.len() < 500 && r.one_in(2) { Cut { ic: 1, oc: 1, rnd: false, zeros: true } } else { Cut::pick(&mut r, d.len(), rf.out.len(), 80) };
                    encode(&mut r, false, o, &d, cut, Some(&rf), &note);
                }
            } else {
                // the same cuts twice give the same bytes; every cut gives a stream of the same data
                let cut = if d.len() < 500 && r.one_in(2) { Cut { ic: 1, oc: 1, rnd: false, zeros: true } } else { Cut::pick(&mut r, d.len(), d.len(), 80) };
                let r0 = r.clone();
                if let Some(s) = encode(&mut r, true, o, &d, cut, None, &note) {
                    if r.one_in(2) { let (s, _) = stream(&mut r, 2000); decompress(&s, false, false); }
                    let rf = Outcome { out: s, verdict: "OK", used: d.len() };
                    encode(&mut r0.clone(), true, o, &d, cut, Some(&rf), &note);
                }
            }
        });
    }
}
/// C04: the multi-threaded decoder against the single-threaded one
pub fn c04(a: &Args) { c04_over(a, a.cases(1600, 30000), false) }
/// the same with streams made for the hand-off (many commands, prediction modes, few bytes) while other threads take the processors away
pub fn c05s(a: &Args) {
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    for n in 0..2u64 { let s = stop.clone(); std::thread::spawn(move || { let mut r = Rng::new(9, 9, n); while s.load(std::sync::atomic::Ordering::Relaxed) == 0 { for _ in 0..r.below(200000) { std::hint::spin_loop(); } if r.one_in(3) { std::thread::sleep(std::time::Duration::from_micros(r.below(300) as u64)); } } }); }
    c04_over(a, a.cases(480, 20000), true);
    stop.store(1, std::sync::atomic::Ordering::Relaxed);
}
pub fn dense(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    loop {
        let w = r.range(10, 16); let steps = *r.pick(&[3usize, 30, 200, 1200]);
        let p = if r.one_in(4) { crate::replay::maps(r) } else { crate::replay::prog(r, w, 4000, steps, false) };
        let cs: Vec<crate::replay::C> = p.cs.iter().map(|c| c.c()).collect();
        let mut o = data::opts(r); o.window_size = Some(w as i32); let i = r.one_in(2);
        if let Some(s) = crate::replay::encode(r, i, o, &cs, 1 << 16) { let d = decompress(&s, false, false); if d.verdict == "OK" { return (s, d.out); } }
    }
}
fn c04_over(a: &Args, cases: Vec<u64>, stress: bool) {
    for k in cases {
        let mut r = a.rng(k);
        let big = r.one_in(6);
        let (inp, expect, mode) = match r.below(6) + if stress { 10 } else { 0 } {
            10 => { let (s, d) = dense(&mut r); let n = r.below(s.len()); (s[..n].to_vec(), Some(d), "prefix") }
            11 => { let (mut s, _) = dense(&mut r); damage(&mut r, &mut s); (s, None, "altered") }
            12 | 13 | 14 => { let (s, d) = dense(&mut r); (s, Some(d), "valid") }
            0 => { (nonsense(&mut r, 3000), None, "any") }
            1 => { let (s, d) = stream(&mut r, 6000); let n = r.below(s.len()); (s[..n].to_vec(), Some(d), "prefix") }
            2 => { let (mut s, _) = stream(&mut r, 6000); damage(&mut r, &mut s); (s, None, "altered") }
            3 => { let (mut s, d) = stream(&mut r, 6000); for _ in 0..r.range(1, 40) { let b = r.byte(); s.push(b); } (s, Some(d), "valid") }
            _ => { let (s, d) = stream(&mut r, if big { 400000 } else { 6000 }); (s, Some(d), "valid") }
        };
        let skip = r.one_in(4); let mode = if skip && mode == "altered" { "any" } else { mode };
        let note = format!("{} {} n{} {} skip{}", a.cmd, k, inp.len(), mode, skip);
        case(&note, 120, || {
            let rf = decompress(&inp, skip, false); if rf.verdict == "CAP" { return; }
            let len = if mode == "valid" { rf.used } else { inp.len() + if mode == "prefix" || mode == "altered" { 1 } else { 0 } };
            let cut = if r.one_in(3) { Cut::whole() } else { Cut::pick(&mut r, inp.len(), rf.out.len(), 60) };
            let f = Facts { kind: "dec", n: inp.len(), len, m: expect.as_ref().map(|d| d.len()).unwrap_or(0), mode, rf: Some(&rf), how: "accept" };
            let mut d = newdec(skip, true);
            let v = decode(&mut r, &mut d, &inp, &f, expect.as_ref().map(|d| &d[..]), cut, 1, &format!("{} {:?}", note, cut));
            free_dec(d, v);
        });
    }
}
/// C07: every prefix and every changed byte of small streams, random damage of larger ones
pub fn c07(a: &Args) {
    let one = |r: &mut Rng, inp: &[u8], expect: Option<&[u8]>, mode: &str, len: usize, skip: bool, mt: bool, cut: Cut, note: &str| {
        let f = Facts { kind: "dec", n: inp.len(), len, m: expect.map(|d| d.len()).unwrap_or(0), mode, rf: None, how: "none" };
        let mut d = newdec(skip, mt);
        let v = decode(r, &mut d, inp, &f, expect, cut, 0, note);
        free_dec(d, v);
    };
    for k in a.cases(120, 2400) {
        let mut r = a.rng(k);
        let (s, d) = stream(&mut r, 400);
        let note = format!("C07 {} n{} stream{}", k, d.len(), s.len());
        case(&note, 240, || {
            let skip = k % 4 == 3; let mt = k % 16 == 5;
            for n in 0..s.len() { if mt && n % 7 != 0 { continue; } one(&mut r, &s[..n], Some(&d), "prefix", n + 1, skip, mt, Cut::whole(), &note); }
            for i in 0..s.len() {
                if mt && i % 7 != 0 { continue; }
                let mut x = s.clone(); if r.one_in(2) { x[i] ^= 1 << r.below(8); } else { x[i] = x[i].wrapping_add(1 + r.below(255) as u8); }
                let csum = i >= s.len() - 8 && i < s.len() - 4;
                if !skip { one(&mut r, &x, None, "altered", x.len() + 1, false, mt, Cut::whole(), &note); }
                else if csum { one(&mut r, &x, Some(&d), "csum", x.len(), true, mt, Cut::whole(), &note); }
                else if i >= s.len() - 4 { one(&mut r, &x, None, "altered", x.len() + 1, true, mt, Cut::whole(), &note); }
                else { one(&mut r, &x, None, "any", x.len(), true, mt, Cut::whole(), &note); }
            }
        });
    }
    for k in a.cases(1500, 40000) {
        let mut r = a.rng(k + 1000000);
        let (s, d) = stream(&mut r, 20000); let mt = r.one_in(8);
        let note = format!("C07 {} n{} stream{} mt{}", k, d.len(), s.len(), mt);
        case(&note, 120, || {
            let cut = Cut::pick(&mut r, s.len(), d.len(), 20);
            if r.one_in(2) { let n = if r.one_in(3) { s.len() - r.range(1, 20.min(s.len())) } else { r.below(s.len()) }; let skip = r.one_in(2); one(&mut r, &s[..n], Some(&d), "prefix", n + 1, skip, mt, cut, &note); }
            else {
                let mut x = s.clone();
                match r.below(3) { 0 => damage(&mut r, &mut x),
                    1 => { let n = x.len(); let t = n - r.range(1, 12); x[t] ^= 1 + r.below(255) as u8; }
                    _ => { let (t, _) = stream(&mut r, 2000); let n = x.len(); let m = t.len(); let cut = r.range(1, 11); x.truncate(n - cut); x.extend(&t[m - cut..]); if x == s { return; } } }
                one(&mut r, &x, None, "altered", x.len() + 1, false, mt, cut, &note);
            }
        });
    }
}
/// C08: any bytes at all
pub fn c08(a: &Args) {
    let checked = a.cmd == "C08C"; // the build whose arithmetic is checked; there the brotli crate may refuse to compress
    for k in if checked { a.cases(3200, 100000) } else { a.cases(9000, 200000) } {
        let mut r = a.rng(k);
        let inp = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| nonsense(&mut r, if k % 50 == 0 { 60000 } else { 3000 }))) { Ok(i) => i, Err(_) if checked => continue, Err(e) => std::panic::resume_unwind(e) };
        let skip = r.one_in(2); let mt = r.one_in(6);
        let note = format!("C08 {} n{} skip{} mt{} {}", k, inp.len(), skip, mt, inp.iter().take(400).map(|b| format!("{:02x}", b)).collect::<String>());
        case(&note, 60, || {
            let cut = if r.one_in(2) { Cut { ic: 1 << 20, oc: 1 << 16, rnd: false, zeros: false } } else { Cut::pick(&mut r, inp.len(), 3000, 60) };
            let f = Facts { kind: "dec", n: inp.len(), len: 0, m: 0, mode: "any", rf: None, how: "none" };
            let mut d = newdec(skip, mt);
            let v = decode(&mut r, &mut d, &inp, &f, None, cut, 2, &note);
            free_dec(d, v);
        });
    }
}
/// C11: the calling contract, all kinds of sessions
pub fn c11(a: &Args) {
    for k in a.cases(1500, 30000) {
        let mut r = a.rng(k);
        let note = format!("C11 {}", k);
        case(&note, 120, || {
            if r.one_in(3) {
                let internal = r.one_in(2); let mut o = data::opts(&mut r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
                let big = r.one_in(12);
                let d = data::gen(&mut r, if big { 1 << 20 } else { 6000 });
                let mut cut = Cut::pick(&mut r, d.len(), d.len(), 60); cut.zeros = r.one_in(2);
                encode(&mut r, internal, o, &d, cut, None, &note);
            } else {
                let (mut s, d) = stream(&mut r, 6000); let len = s.len();
                match r.below(4) { 0 => { let n = r.range(1, 60); for _ in 0..n { let b = r.byte(); s.push(b); } } 1 => { let (t, _) = stream(&mut r, 100); s.extend(&t); } _ => {} }
                let mut cut = if s.len() < 500 && d.len() < 500 { Cut { ic: 1, oc: 1, rnd: false, zeros: true } } else { Cut::pick(&mut r, s.len(), d.len(), 60) };
                cut.zeros = r.one_in(2); let mt = r.one_in(6); let skip = r.one_in(4);
                let f = Facts { kind: "dec", n: s.len(), len, m: d.len(), mode: "valid", rf: None, how: "none" };
                let mut x = newdec(skip, mt);
                let v = decode(&mut r, &mut x, &s, &f, Some(&d), cut, 4, &note);
                free_dec(x, v);
            }
        });
    }
}
/// C15: finishing
pub fn c15(a: &Args) {
    for k in a.cases(2000, 40000) {
        let mut r = a.rng(k);
        let internal = r.one_in(2); let mut o = data::opts(&mut r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
        let d = if r.one_in(5) { vec![] } else { data::gen(&mut r, if k % 40 == 0 { 100000 } else { 3000 }) };
        let note = format!("C15 {} int{} n{} {}", k, internal, d.len(), data::show(&o));
        case(&note, 120, || {
            let m = d.len() / 2 + 40;
            let oc = match r.below(4) { 0 => 1, 1 => 2, _ => 1 + r.logsize(300) }.max(m / 300);
            let cut = Cut { ic: if r.one_in(2) { 1 << 20 } else { d.len() / 30 + 1 }, oc, rnd: r.one_in(2), zeros: r.one_in(3) };
            // room that ends exactly where the stream does, or a few bytes before it
            let cut = if r.one_in(4) { match compress(internal, o, &d) { Ok(s) => Cut { ic: 1 << 20, oc: (s.len() - r.below(20).min(s.len() - 1)).max(s.len() / 300), rnd: false, zeros: r.one_in(3) }, Err(_) => cut } } else { cut };
            encode(&mut r, internal, o, &d, cut, None, &note);
        });
    }
}
pub fn dbg(a: &Args) {
    let inp: Vec<u8> = { let h = &a.extra[0]; (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let mut d = newdec(false, a.extra.len() > 1); let mut pos = 0; let mut buf = vec![0; 65536];
    for _ in 0..8 { let mut oo = 0; let p = pos; let r = d.decode(&inp, &mut pos, &mut buf, &mut oo); println!("{:?} used {} of {} wrote {}", r3(r), pos - p, inp.len() - p, oo); }
}
