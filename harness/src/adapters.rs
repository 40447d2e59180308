//! C13: the read and write adapters, with the other side behaving in every way it may.
use crate::codecs::*; use crate::data; use crate::session::*; use crate::util::*;
use divans::*;
use std::io::{Error, ErrorKind, Read, Write};

const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset];
fn kind(e: &Error) -> String { format!("{:?}", e.kind()) }
/// how the other side behaves: pieces of at most `step` bytes, interruptions, an error after `fail` bytes
#[derive(Clone)]
struct Manner { step: usize, vary: bool, interrupts: usize, fail: Option<(usize, ErrorKind)>, r: Rng }
impl Manner {
    fn pick(r: &mut Rng, n: usize, fails: bool) -> Manner {
        let min = n / 150 + 1;
        Manner { step: match r.below(4) { 0 => min, 1 => min + r.below(20), 2 => min + r.logsize(5000), _ => 1 << 20 }, vary: r.one_in(2), interrupts: if r.one_in(3) { r.range(2, 8) } else { 0 }, fail: if fails { Some((match r.below(4) { 0 => r.below(20).min(n), 1 => n - r.below(20).min(n), _ => r.below(n + 1) }, *r.pick(&KINDS))) } else { None }, r: Rng::new(r.next(), 1, 2) }
    }
    fn next(&mut self, avail: usize) -> usize { let m = self.step.min(avail).max(1); if self.vary { 1 + self.r.below(m) } else { m } }
}
struct Src { d: Vec<u8>, pos: usize, m: Manner, failed: bool }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() { ev("src").s("r", "none").i("k", 0).done(); return Ok(0) }
        if self.m.interrupts > 0 && self.m.r.one_in(self.m.interrupts) { ev("src").s("r", "Interrupted").i("k", 0).done(); return Err(Error::new(ErrorKind::Interrupted, "try again")) }
        let mut lim = self.d.len();
        if let Some((at, k)) = self.m.fail { lim = at.min(lim); if self.pos >= lim { self.failed = true; ev("src").s("r", &format!("{:?}", k)).i("k", 0).done(); return Err(Error::new(k, "broken")) } }
        if self.pos == lim { ev("src").s("r", "eof").i("k", 0).done(); return Ok(0) }
        let n = self.m.next(b.len()).min(lim - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]); self.pos += n;
        ev("src").s("r", "data").i("k", n).done(); Ok(n)
    }
}
struct Snk<'a> { out: &'a std::cell::RefCell<Vec<u8>>, want: Option<&'a [u8]>, loose: bool, m: Manner, flushes: usize }
impl<'a> Write for Snk<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let mut o = self.out.borrow_mut();
        if self.m.interrupts > 0 && self.m.r.one_in(self.m.interrupts) { ev("snk").s("r", "Interrupted").i("k", 0).b("same", true).done(); return Err(Error::new(ErrorKind::Interrupted, "try again")) }
        let mut n = self.m.next(b.len()).min(b.len());
        if let Some((at, k)) = self.m.fail { if o.len() >= at { ev("snk").s("r", &format!("{:?}", k)).i("k", 0).b("same", true).done(); return Err(Error::new(k, "broken")) } n = n.min(at - o.len()); }
        let same = match self.want { None => true, Some(w) => { let (f, t) = (o.len().min(w.len()), (o.len() + n).min(w.len())); (self.loose || o.len() + n <= w.len()) && w[f..t] == b[..t - f] } };
        o.extend(&b[..n]);
        ev("snk").s("r", "data").i("k", n).b("same", same).done(); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { self.flushes += 1; ev("snk").s("r", "flush").i("k", 0).b("same", true).done(); Ok(()) }
}
fn bufsize(r: &mut Rng, n: usize) -> usize { let min = n / 150; match r.below(5) { 0 => 0, 1 => min + 1 + r.below(8), 2 => min + 1 + r.below(300), 3 => min + 250 + r.below(12), _ => min + 1 + r.logsize(70000) } }

fn reader(r: &mut Rng, what: usize, input: Vec<u8>, o: DivansCompressorOptions, want: Option<&[u8]>, bad: bool, len: usize, data: &[u8], note: &str) {
    let n = input.len(); let most = n.max(want.map(|w| w.len()).unwrap_or(0)).max(data.len());
    let fails = r.one_in(4); let m = Manner::pick(r, n, fails);
    let bs = bufsize(r, n); let (skip, mt) = (what / 10 % 2 == 1, what / 20 % 2 == 1);
    ev("adapter").s("side", "reader").b("comp", what % 10 < 2).b("known", want.is_some()).i("want", want.map(|w| w.len()).unwrap_or(0)).i("n", n).i("len", len).b("bad", bad).b("must", bad).s("note", note).done();
    let src = Src { d: input, pos: 0, m, failed: false };
    let mut x: Box<dyn Read> = match what % 10 { 0 => Box::new(DivansBrotliHybridCompressorReader::new(src, o, bs)), 1 => Box::new(DivansExperimentalCompressorReader::new(src, o, bs)), _ => Box::new(DivansDecompressorReader::new(src, bs, skip, mt)) };
    let mut out: Vec<u8> = vec![]; let mut over = 0; let mut buf = vec![0x5au8; 1 << 17];
    let chunk = match r.below(4) { 0 => most / 150 + 1, 1 => most / 150 + 1 + r.below(30), 2 => most / 150 + 1 + r.logsize(4000), _ => 1 << 17 }.min(1 << 17);
    let vary = r.one_in(2);
    loop {
        let k = if r.one_in(12) { 0 } else if vary { 1 + r.below(chunk) } else { chunk };
        match x.read(&mut buf[..k]) {
            Ok(g) => {
                if g > k { ev("read").i("n", k).s("r", "OK").i("k", g).b("same", false).done(); return }
                let same = match want { None => true, Some(w) => { let e = (out.len() + g).min(w.len()); out.len() >= w.len() && g == 0 || (bad || out.len() + g <= w.len()) && w[out.len().min(e)..e] == buf[..e - out.len().min(e)] } };
                out.extend(&buf[..g]);
                ev("read").i("n", k).s("r", "OK").i("k", g).b("same", same).done();
                if g == 0 && k > 0 { over += 1; if over > 2 { break } }
                if out.len() > CAP { ev("drop").done(); return }
            }
            Err(e) => { ev("read").i("n", k).s("r", &kind(&e)).i("k", 0).b("same", true).done(); break }
        }
    }
    if over > 0 && what % 10 < 2 { means(&out, data); }
    drop(x);
    ev("end").done();
}
fn writer(r: &mut Rng, what: usize, input: &[u8], o: DivansCompressorOptions, want: Option<&[u8]>, loose: bool, bad: bool, len: usize, data: &[u8], note: &str) {
    let n = input.len(); let most = n.max(want.map(|w| w.len()).unwrap_or(0)).max(data.len());
    let fails = r.one_in(4); let m = Manner::pick(r, want.map(|w| w.len()).unwrap_or(n / 2), fails);
    let bs = { let b = bufsize(r, most); if what % 10 == 2 { b.max(16) } else { b } }; let (skip, mt) = (what / 10 % 2 == 1, what / 20 % 2 == 1);
    let chunk = match r.below(4) { 0 => n / 150 + 1, 1 => n / 150 + 1 + r.below(30), 2 => n / 150 + 1 + r.logsize(4000), _ => 1 << 17 };
    let vary = r.one_in(2); let mut pieces = vec![]; let mut left = n;
    while left > 0 { let k = if r.one_in(12) { 0 } else if vary { 1 + r.below(chunk) } else { chunk }.min(left); pieces.push(k); left -= k; }
    // a malformed stream has to fail where the streaming interface does when fed like this
    let bad = bad && (mt || { let mut d = newdec(skip, false); let mut buf = vec![0u8; if bs == 0 { 4096 } else { bs }]; let mut at = 0; let mut v = R::Nmi; let mut turns = 0;
        'all: for k in &pieces { let e = at + k; loop { let mut oo = 0; v = r3(d.decode(&input[..e], &mut at, &mut buf, &mut oo)); turns += 1; if v == R::Err || turns > 400000 { break 'all } if v != R::Nmo { break } } at = e; }
        d.free(); v == R::Err });
    ev("adapter").s("side", "writer").b("comp", what % 10 < 2).b("known", want.is_some() && !loose).i("want", want.map(|w| w.len()).unwrap_or(0)).i("n", n).i("len", len).b("bad", bad).b("must", bad && !mt).s("note", note).done();
    let out = std::cell::RefCell::new(vec![]);
    let snk = Snk { out: &out, want, loose, m, flushes: 0 };
    let mut x: Box<dyn Write> = match what % 10 { 0 => Box::new(DivansBrotliHybridCompressorWriter::new(snk, o, bs)), 1 => Box::new(DivansExperimentalCompressorWriter::new(snk, o, bs)), _ => Box::new(DivansDecompressorWriter::new(snk, bs, skip, mt)) };
    let mut pos = 0; let mut ok = true;
    for k in pieces {
        match x.write(&input[pos..pos + k]) {
            Ok(g) => { ev("write").i("n", k).s("r", "OK").i("k", g).done(); pos += g; }
            Err(e) => { ev("write").i("n", k).s("r", &kind(&e)).i("k", 0).done(); ok = false; break }
        }
        if out.borrow().len() > CAP { ev("drop").done(); return }
    }
    if ok { for _ in 0..1 + r.below(2) { match x.flush() { Ok(_) => ev("fl").s("r", "OK").done(), Err(e) => { ev("fl").s("r", &kind(&e)).done(); ok = false; break } } } }
    drop(x);
    if ok && what % 10 < 2 { means(&out.borrow(), data); }
    ev("end").done();
}
pub fn c13(a: &Args) {
    for k in a.cases(2000, 40000) {
        let mut r = a.rng(k);
        let big = r.one_in(20);
        let note = format!("C13 {}", k);
        case(&note, 120, || {
            if r.one_in(2) {
                let internal = r.one_in(3); let mut o = data::opts(&mut r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); }
                let d = data::gen(&mut r, if big { 200000 } else { 6000 });
                let whole = if internal { None } else { Some(compress(false, o, &d).unwrap_or_default()) };
                let what = internal as usize; let n = d.len();
                if r.one_in(2) { reader(&mut r, what, d.clone(), o, whole.as_ref().map(|w| &w[..]), false, n, &d, &note) } else { writer(&mut r, what, &d, o, whole.as_ref().map(|w| &w[..]), false, false, n, &d, &note) }
            } else {
                let (s, d) = stream(&mut r, if big { 200000 } else { 6000 });
                let mut inp = s.clone(); let mut len = s.len(); let skip = r.one_in(4); let mt = r.one_in(4);
                match r.below(6) {
                    0 => { let n = r.below(s.len()); inp.truncate(n); }
                    1 => { let n = s.len() - r.range(1, 20.min(s.len())); inp.truncate(n); }
                    2 => damage(&mut r, &mut inp),
                    3 => { for _ in 0..r.range(1, 600) { let b = r.byte(); inp.push(b); } }
                    _ => {} }
                let x = decompress(&inp, skip, false); if x.verdict == "CAP" { return }
                let bad = x.verdict != "OK"; if !bad { len = x.used } else if x.verdict == "NMI" { len = inp.len() + 1 }
                let o = DivansCompressorOptions::default();
                let what = 2 + 10 * (skip as usize) + 20 * (mt as usize);
                // of an incomplete stream it is not said how much comes out: what does is the beginning of the data
                let cut = bad && s.starts_with(&inp);
                let want: &[u8] = if cut { &d } else { &x.out };
                if r.one_in(2) { reader(&mut r, what, inp, o, Some(want), bad, len, want, &note) } else { writer(&mut r, what, &inp, o, Some(want), x.verdict == "NMI" && !cut, x.verdict == "ERR", len, want, &note) }
            }
        });
    }
}
