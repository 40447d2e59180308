//! The codecs under test behind one small interface.
use divans::*;
use divans::{Compressor, Decompressor, DivansDecompressorFactory, DivansDecompressorFactoryStruct};
use alloc_stdlib::HeapAlloc;
use crate::capi;
/// anything that decodes
pub trait Feed { fn feed(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R; }
impl Feed for Dec { fn feed(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R { r3(self.decode(i, io, o, oo)) } }
pub type Fac = DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
pub type Dec = DivansDecompressor<<Fac as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>>::DefaultDecoder, HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
pub fn newdec(skip: bool, mt: bool) -> Dec {
    Fac::new(HeapAlloc::<u8>::new(0), HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default()), HeapAlloc::<StaticCommand>::new(StaticCommand::nop()), skip, mt)
}
pub type CFac = DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>>;
pub type IComp = <CFac as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
pub fn newint(o: DivansCompressorOptions) -> IComp { CFac::new(HeapAlloc::<u8>::new(0), HeapAlloc::<u32>::new(0), HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default()), o, ()) }
pub type BA = brotli::enc::CombiningAllocator<HeapAlloc<u8>, HeapAlloc<u16>, HeapAlloc<i32>, HeapAlloc<u32>, HeapAlloc<u64>, HeapAlloc<brotli::enc::command::Command>, HeapAlloc<brotli::enc::util::floatX>, HeapAlloc<brotli::enc::v8>, HeapAlloc<brotli::enc::s16>, HeapAlloc<brotli::enc::PDF>, HeapAlloc<brotli::enc::StaticCommand>, HeapAlloc<brotli::enc::histogram::HistogramLiteral>, HeapAlloc<brotli::enc::histogram::HistogramCommand>, HeapAlloc<brotli::enc::histogram::HistogramDistance>, HeapAlloc<brotli::enc::cluster::HistogramPair>, HeapAlloc<brotli::enc::histogram::ContextType>, HeapAlloc<brotli::enc::entropy_encode::HuffmanTree>, HeapAlloc<brotli::enc::ZopfliNode>>;
pub type HFac = BrotliDivansHybridCompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, BA>;
pub type HComp = <HFac as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
pub fn ba() -> BA {
    brotli::enc::CombiningAllocator::new(HeapAlloc::<u8>::new(0), HeapAlloc::<u16>::new(0), HeapAlloc::<i32>::new(0), HeapAlloc::<u32>::new(0), HeapAlloc::<u64>::new(0), HeapAlloc::<brotli::enc::command::Command>::new(brotli::enc::command::Command::default()), HeapAlloc::<brotli::enc::util::floatX>::new(0.0 as brotli::enc::util::floatX), HeapAlloc::<brotli::enc::v8>::new(brotli::enc::v8::default()), HeapAlloc::<brotli::enc::s16>::new(brotli::enc::s16::default()), HeapAlloc::<brotli::enc::PDF>::new(brotli::enc::PDF::default()), HeapAlloc::<brotli::enc::StaticCommand>::new(brotli::enc::StaticCommand::default()), HeapAlloc::<brotli::enc::histogram::HistogramLiteral>::new(brotli::enc::histogram::HistogramLiteral::default()), HeapAlloc::<brotli::enc::histogram::HistogramCommand>::new(brotli::enc::histogram::HistogramCommand::default()), HeapAlloc::<brotli::enc::histogram::HistogramDistance>::new(brotli::enc::histogram::HistogramDistance::default()), HeapAlloc::<brotli::enc::cluster::HistogramPair>::new(brotli::enc::cluster::HistogramPair::default()), HeapAlloc::<brotli::enc::histogram::ContextType>::new(brotli::enc::histogram::ContextType::default()), HeapAlloc::<brotli::enc::entropy_encode::HuffmanTree>::new(brotli::enc::entropy_encode::HuffmanTree::default()), HeapAlloc::<brotli::enc::ZopfliNode>::new(brotli::enc::ZopfliNode::default()))
}
pub fn newhyb(o: DivansCompressorOptions) -> HComp { HFac::new(HeapAlloc::<u8>::new(0), HeapAlloc::<u32>::new(0), HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default()), o, ba()) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R { Nmi, Nmo, Ok, Err }
impl R { pub fn s(self) -> &'static str { match self { R::Nmi => "NMI", R::Nmo => "NMO", R::Ok => "OK", R::Err => "ERR" } } }
pub fn r3(x: DivansResult) -> R { match x { DivansResult::Success => R::Ok, DivansResult::Failure(_) => R::Err, DivansResult::NeedsMoreInput => R::Nmi, DivansResult::NeedsMoreOutput => R::Nmo } }
pub fn r2(x: DivansOutputResult) -> R { match x { DivansOutputResult::Success => R::Ok, DivansOutputResult::Failure(_) => R::Err, DivansOutputResult::NeedsMoreOutput => R::Nmo } }

pub enum Comp { I(IComp), H(HComp), C(capi::CComp) }
impl Comp {
    pub fn new(internal: bool, o: DivansCompressorOptions) -> Comp { if internal { Comp::I(newint(o)) } else { Comp::H(newhyb(o)) } }
    pub fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> R { r3(match self { Comp::C(c) => return c.encode(i, io, o, oo), Comp::I(c) => c.encode(i, io, o, oo), Comp::H(c) => c.encode(i, io, o, oo) }) }
    pub fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> R { r2(match self { Comp::C(c) => return c.flush(o, oo), Comp::I(c) => c.flush(o, oo), Comp::H(c) => c.flush(o, oo) }) }
    pub fn commands(&mut self, c: &[Command<Vec8>], co: &mut usize, o: &mut [u8], oo: &mut usize) -> R { r2(match self { Comp::C(_) => unreachable!(), Comp::I(x) => x.encode_commands(c, co, o, oo), Comp::H(x) => x.encode_commands(c, co, o, oo) }) }
    pub fn free(self) { match self { Comp::C(c) => c.free(), Comp::I(c) => { c.free(); } Comp::H(c) => { c.free(); } } }
}
/// byte vector usable as a command payload
#[derive(Clone, Debug, Default)]
pub struct Vec8(pub Vec<u8>);
impl SliceWrapper<u8> for Vec8 { fn slice(&self) -> &[u8] { &self.0 } }
impl SliceWrapperMut<u8> for Vec8 { fn slice_mut(&mut self) -> &mut [u8] { &mut self.0 } }

/// one-shot compression with generous buffers
pub fn compress(internal: bool, o: DivansCompressorOptions, data: &[u8]) -> Result<Vec<u8>, String> { compress_chunked(internal, o, data, 1 << 20, 1 << 20) }
pub fn compress_chunked(internal: bool, o: DivansCompressorOptions, data: &[u8], ic: usize, oc: usize) -> Result<Vec<u8>, String> {
    let mut c = Comp::new(internal, o);
    let mut out = vec![]; let mut pos = 0; let mut buf = vec![0u8; oc]; let mut stall = 0;
    while pos < data.len() {
        let end = (pos + ic).min(data.len()); let mut io = 0; let mut oo = 0;
        let r = c.encode(&data[pos..end], &mut io, &mut buf, &mut oo);
        pos += io; out.extend(&buf[..oo]);
        if r == R::Ok || r == R::Err { return Err(format!("encode said {}", r.s())); }
        if io == 0 && oo == 0 { stall += 1; if stall > 10 { return Err("encode stalls".into()); } } else { stall = 0 }
    }
    loop {
        let mut oo = 0; let r = c.flush(&mut buf, &mut oo); out.extend(&buf[..oo]);
        match r { R::Ok => break, R::Err => return Err("flush failed".into()), _ => {} }
        if oo == 0 { stall += 1; if stall > 10 { return Err("flush stalls".into()); } } else { stall = 0 }
    }
    c.free();
    Ok(out)
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Outcome { pub out: Vec<u8>, pub verdict: &'static str, pub used: usize }
/// more output than any case here is meant to have: the session is given up
pub const CAP: usize = 6 << 20;
/// drives a decoder to its verdict: OK, ERR, NMI (ran out of input) or STALL
pub fn drive(d: &mut Dec, inp: &[u8], ic: usize, oc: usize) -> Outcome {
    let mut out = vec![]; let mut pos = 0; let mut buf = vec![0u8; oc]; let mut stall = 0;
    loop {
        let end = (pos + ic).min(inp.len()); let mut io = 0; let mut oo = 0;
        let r = r3(d.decode(&inp[pos..end], &mut io, &mut buf, &mut oo));
        pos += io; out.extend(&buf[..oo]);
        match r { R::Ok => return Outcome { out, verdict: "OK", used: pos }, R::Err => return Outcome { out, verdict: "ERR", used: pos },
            R::Nmi if pos == inp.len() && io == 0 && oo == 0 => return Outcome { out, verdict: "NMI", used: pos }, _ => {} }
        if out.len() > CAP && r == R::Nmo { return Outcome { out, verdict: "CAP", used: pos }; }
        if io == 0 && oo == 0 { stall += 1 } else { stall = 0 }
        if stall > 3 { return Outcome { out, verdict: "STALL", used: pos }; }
    }
}
pub fn decompress(inp: &[u8], skip: bool, mt: bool) -> Outcome { let mut d = newdec(skip, mt); let r = drive(&mut d, inp, 1 << 20, 1 << 20); d.free(); r }
