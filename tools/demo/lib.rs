#![allow(dead_code, unused_imports)]
use divans::*;
use divans::{Compressor, Decompressor, DivansDecompressorFactory, DivansDecompressorFactoryStruct};
use alloc_stdlib::HeapAlloc;
type Fac = DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
type Dec = DivansDecompressor<<Fac as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>>::DefaultDecoder, HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
fn newdec(skip: bool, mt: bool) -> Dec { Fac::new(HeapAlloc::<u8>::new(0), HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default()), HeapAlloc::<StaticCommand>::new(StaticCommand::nop()), skip, mt) }
type CFac = DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>>;
type IComp = <CFac as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
fn newint(o: DivansCompressorOptions) -> IComp { CFac::new(HeapAlloc::<u8>::new(0), HeapAlloc::<u32>::new(0), HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default()), o, ()) }
fn opts() -> DivansCompressorOptions { let mut o = DivansCompressorOptions::default(); o.quality = Some(5); o }
/// compress with the internal compressor, input in pieces of ic, room of oc
fn compress(o: DivansCompressorOptions, d: &[u8], ic: usize, oc: usize) -> Vec<u8> {
    let mut c = newint(o); let mut out = vec![]; let mut pos = 0; let mut buf = vec![0u8; oc];
    while pos < d.len() { let e = (pos + ic).min(d.len()); let mut io = 0; let mut oo = 0; match c.encode(&d[pos..e], &mut io, &mut buf, &mut oo) { DivansResult::Failure(_) => panic!("encode fails"), _ => {} } pos += io; out.extend(&buf[..oo]); }
    loop { let mut oo = 0; let r = c.flush(&mut buf, &mut oo); out.extend(&buf[..oo]); match r { DivansOutputResult::Success => break, DivansOutputResult::Failure(_) => panic!("flush fails"), _ => {} } }
    c.free(); out
}
/// the default compressor, through the writer
fn compress_default(o: DivansCompressorOptions, d: &[u8]) -> Vec<u8> {
    use std::io::Read;
    let mut r = DivansBrotliHybridCompressorReader::new(std::io::Cursor::new(d.to_vec()), o, 65536);
    let mut v = vec![]; r.read_to_end(&mut v).unwrap(); v
}
/// (verdict, output, bytes used)
fn decompress(s: &[u8], skip: bool, mt: bool, ic: usize, oc: usize) -> (&'static str, Vec<u8>, usize) {
    let mut d = newdec(skip, mt); let mut out = vec![]; let mut pos = 0; let mut buf = vec![0u8; oc]; let mut stall = 0;
    loop {
        let e = (pos + ic).min(s.len()); let mut io = 0; let mut oo = 0;
        let r = d.decode(&s[pos..e], &mut io, &mut buf, &mut oo); pos += io; out.extend(&buf[..oo]);
        if io == 0 && oo == 0 { stall += 1 } else { stall = 0 }
        match r { DivansResult::Success => { d.free(); return ("OK", out, pos) } DivansResult::Failure(_) => { d.free(); return ("ERR", out, pos) } DivansResult::NeedsMoreInput if pos == s.len() && io == 0 && oo == 0 => return ("NMI", out, pos), _ => {} }
        if stall > 5 || out.len() > 100000000 { return ("STALL", out, pos) }
    }
}
fn noise(n: usize, mut x: u64) -> Vec<u8> { x |= 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 20) as u8 }).collect() }
fn text(n: usize, x: u64) -> Vec<u8> { let w: [&[u8]; 12] = [b"the ", b"quick ", b"brown fox ", b"jumped over ", b"lazy dogs. ", b"compression ", b"stream ", b"window ", b"literal ", b"copy\n", b"1234567 ", b"dictionary "]; let r = noise(n + 1, x); let mut v = vec![]; let mut i = 0; while v.len() < n { v.extend(w[r[i] as usize % 12]); i += 1; } v.truncate(n); v }
