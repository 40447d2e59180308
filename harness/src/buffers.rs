//! The growable buffer, the recycling allocator, ranges and prefixes (C16).
use crate::util::*; use crate::replay::pat;
use divans::alloc_util::*; use divans::slice_util::*; use divans::resizable_buffer::ResizableByteBuffer;
use std::cell::RefCell;

thread_local!(static LOG: RefCell<(usize, Vec<(u8, usize, usize)>)> = RefCell::new((0, vec![])));
/// a base allocator that notes its calls
#[derive(Default)]
pub struct BAlloc;
#[derive(Default)]
pub struct BMem { id: usize, v: Vec<u8> }
impl SliceWrapper<u8> for BMem { fn slice(&self) -> &[u8] { &self.v } }
impl SliceWrapperMut<u8> for BMem { fn slice_mut(&mut self) -> &mut [u8] { &mut self.v } }
impl core::ops::Index<usize> for BMem { type Output = u8; fn index(&self, i: usize) -> &u8 { &self.v[i] } }
impl core::ops::IndexMut<usize> for BMem { fn index_mut(&mut self, i: usize) -> &mut u8 { &mut self.v[i] } }
impl Allocator<u8> for BAlloc {
    type AllocatedMemory = BMem;
    fn alloc_cell(&mut self, n: usize) -> BMem { LOG.with(|l| { let mut l = l.borrow_mut(); l.0 += 1; let id = l.0; l.1.push((0, id, n)); BMem { id, v: vec![0; n] } }) }
    fn free_cell(&mut self, m: BMem) { if m.id != 0 { LOG.with(|l| l.borrow_mut().1.push((1, m.id, m.v.len()))); } }
}
/// the calls of the base allocator since the last question
fn calls() -> String { LOG.with(|l| { let v: Vec<String> = l.borrow_mut().1.drain(..).map(|(k, i, n)| format!("{{\"op\":\"{}\",\"id\":{},\"n\":{}}}", if k == 0 { "a" } else { "f" }, i, n)).collect(); format!("[{}]", v.join(",")) }) }

type Ra = RepurposingAlloc<u8, BAlloc>; type Px = AllocatedMemoryPrefix<u8, BAlloc>;
#[derive(Clone, Copy, Debug)]
enum Op { Take(u8, usize), Give(u8, usize), Drop, Swap }
fn recycle(ops: &[Op]) {
    LOG.with(|l| *l.borrow_mut() = (0, vec![]));
    ev("ra").done();
    let mut a = Ra::new(BAlloc); let mut lent: Vec<(Px, u8)> = vec![]; let mut mark = 1u8;
    for op in ops {
        match *op {
            Op::Take(mode, s) => {
                let mut p: Px = match mode { 0 => a.use_cached_allocation::<ClearCacheOnAlloc<u8>>().alloc_cell(s), 1 => a.use_cached_allocation::<UninitializedOnAlloc>().alloc_cell(s), _ => { let m = Allocator::alloc_cell(&mut a, s); let n = m.v.len(); AllocatedMemoryPrefix(m, n as u32) } };
                let zero = p.slice().iter().all(|x| *x == 0);
                ev("take").s("mode", ["clear", "uninit", "base"][mode as usize]).i("s", s).i("id", p.0.id).i("cap", p.max_len()).i("shown", p.slice().len()).i("len", p.len()).b("zero", zero).j("base", &calls()).done();
                for x in p.0.v.iter_mut() { *x = mark; } // the whole block, so that what is left over would be seen
                lent.push((p, mark)); mark = mark.wrapping_add(1).max(1);
            }
            Op::Give(mode, k) => {
                if lent.is_empty() { continue }
                let (p, m) = lent.remove(k % lent.len());
                let intact = p.0.v.iter().all(|x| *x == m); let id = p.0.id;
                match mode { 0 => a.use_cached_allocation::<UninitializedOnAlloc>().free_cell(p), 1 => a.use_cached_allocation::<ClearCacheOnAlloc<u8>>().free_cell(p), _ => Allocator::free_cell(&mut a, p.components().0) }
                ev("give").s("mode", ["cache", "cache", "base"][mode as usize]).i("id", id).b("intact", intact).j("base", &calls()).done();
            }
            Op::Drop => { a.free_ref(); ev("clean").j("base", &calls()).done(); }
            Op::Swap => { let parts = a.disassemble(); let held = parts.1.id; a = Ra::reassemble(parts); ev("swap").i("held", held).j("base", &calls()).done(); }
        }
    }
    while let Some((p, m)) = lent.pop() { let id = p.0.id; let intact = p.0.v.iter().all(|x| *x == m); Allocator::free_cell(&mut a, p.components().0); ev("give").s("mode", "base").i("id", id).b("intact", intact).j("base", &calls()).done(); }
    a.free(); ev("clean").j("base", &calls()).done(); ev("end").done();
}
fn grow(r: &mut Rng, big: bool) {
    LOG.with(|l| *l.borrow_mut() = (0, vec![]));
    let mut al = BAlloc; let mut b = ResizableByteBuffer::<u8, BAlloc>::new();
    ev("grow").done();
    let cap = if big { 3 << 20 } else { 300000 }; let steps = r.range(1, 14);
    let look = |b: &ResizableByteBuffer<u8, BAlloc>, r: &mut Rng, edges: &[usize]| {
        let s = b.slice(); let mut at: Vec<usize> = vec![];
        for e in edges { for d in 0..3 { at.push((e + d).saturating_sub(1)); } } for _ in 0..20 { at.push(r.below(s.len().max(1))); }
        at.retain(|x| *x < s.len()); at.sort(); at.dedup();
        let got: Vec<u8> = at.iter().map(|x| s[*x]).collect();
        ev("look").i("len", b.len()).i("shown", s.len()).b("none", b.is_empty()).a("at", &at).a("got", &got).done();
    };
    let mut edges = vec![0usize, 66000];
    if r.one_in(3) { look(&b, r, &edges); }
    for _ in 0..steps {
        let min = match r.below(7) { 0 => None, 1 => Some(0), 2 => Some(1), 3 => Some(*r.pick(&[65999usize, 66000, 66001, 131999, 132000, 132001, 200000])), 4 => Some(256), _ => Some(r.logsize(200000)) };
        let (pa, pb) = (r.below(256), r.below(256));
        let out = b.checkout_next_buffer(&mut al, min); let n = out.len();
        let k = match r.below(6) { 0 => 0, 1 => n, 2 => min.unwrap_or(1).min(n), 3 => n.saturating_sub(r.below(300)), _ => r.logsize(n) }.min(cap);
        for (j, x) in out.iter_mut().enumerate().take(k) { *x = pat(pa, pb, j); }
        for x in out.iter_mut().skip(k).take(500) { *x = 0x5A; } // written but never committed
        ev("checkout").i("min", min.unwrap_or(1)).i("n", n).j("base", &calls()).done();
        b.commit_next_buffer(k); edges.push(b.len());
        ev("commit").i("k", k).i("a", pa).i("b", pb).done();
        if r.one_in(2) { look(&b, r, &edges); }
        if b.len() > cap { break }
    }
    look(&b, r, &edges);
    b.free(&mut al); ev("gfree").j("base", &calls()).done();
}
fn views(r: &mut Rng) {
    let n = r.below(24); let data: Vec<u8> = (0..n).map(|_| r.byte()).collect();
    let lo = r.below(n + 1); let m = r.below(n - lo + 1);
    let mut al = BAlloc; calls();
    let kind = r.below(6);
    let out = |k: &str, lo: usize, m: usize, got: &[u8], len: usize| ev("view").s("kind", k).a("data", &data).i("lo", lo).i("n", m).a("got", got).i("len", len).done();
    let poke = |k: &str, lo: usize, m: usize, i: usize, v: u8, after: &[u8]| ev("poke").s("kind", k).a("data", &data).i("lo", lo).i("n", m).i("i", i).i("v", v as usize).a("after", after).done();
    match kind {
        0 => { let mut x = AllocatedMemoryRange::<u8, BAlloc>::new(&mut al, n); out_fresh("range", n, x.slice(), x.len()); x.slice_mut().copy_from_slice(&data); let (mem, _) = x.components();
               let mut x = AllocatedMemoryRange::<u8, BAlloc>::realloc(mem, lo..lo + m); out("range", lo, m, x.slice(), x.len()); let s = x.slice_mut().to_vec(); out("range", lo, m, &s, s.len());
               if m > 0 { let i = r.below(m); out("range[]", lo + i, 1, &[x[i]], 1); let v = r.byte(); if r.one_in(2) { x[i] = v } else { x.slice_mut()[i] = v } poke("range", lo, m, i, v, x.mem().slice()); }
               let (_, rg) = x.components(); ev("parts").i("lo", lo).i("n", m).i("glo", rg.start).i("gn", rg.end - rg.start).done(); }
        1 => { let mut x = Px::new(&mut al, n); out_fresh("prefix", n, x.slice(), x.len()); x.slice_mut().copy_from_slice(&data); let (mem, l) = x.components(); ev("parts").i("lo", 0).i("n", n).i("glo", 0).i("gn", l).done();
               let mut x = Px::realloc(mem, m); out("prefix", 0, m, x.slice(), x.len()); let s = x.slice_mut().to_vec(); out("prefix", 0, m, &s, s.len()); ev("parts").i("lo", 0).i("n", n).i("glo", 0).i("gn", x.max_len()).done();
               if m > 0 { let i = r.below(m); out("prefix[]", i, 1, &[x[i]], 1); let v = r.byte(); if r.one_in(2) { x[i] = v } else { x.slice_mut()[i] = v } poke("prefix", 0, m, i, v, x.mem().slice()); } }
        2 => { let x = SliceReference::<u8>::new(&data, lo, m); out("reference", lo, m, x.slice(), x.len()); let y = x.freeze_dry(); out("frozen", lo, 0, y.slice(), y.len()); out("thawed", lo, m, y.thaw(&data).slice(), m); out("brotli", lo, m, thaw_br(&y, &data).data, m); let d = SliceReference::<u8>::default(); out("empty", 0, 0, d.slice(), d.len()); }
        3 => { use brotli::interface::Unfreezable; let x = SliceReference::<u8>::new(&data, lo, m); let t = x.thaw(&data); out("unfrozen", lo, m, t.slice(), t.len());
               let mut copy = data.clone(); { let mm = Unfreezable::thaw_mut(&x, &mut copy); if m > 0 { let i = r.below(m); let v = r.byte(); mm.data[i] = v; poke("thaw_mut", lo, m, i, v, &copy); } } }
        4 => { use brotli::interface::Unfreezable; let cut = r.below(n + 1); let base = r.below(100); // two halves of the input, somewhere in the stream
               let x = SliceReference::<u8>::new(&data, lo, m);
               let whole: Vec<u8> = std::iter::repeat(0).take(base).chain(data.iter().cloned()).collect(); let y = SliceReference::<u8>::new(&whole, base + lo, m).freeze_dry(); let _ = x;
               let p = brotli::InputPair(brotli::InputReference { data: &data[..cut], orig_offset: base }, brotli::InputReference { data: &data[cut..], orig_offset: base + cut });
               match y.thaw_pair(&p) { Ok(t) => ev("pair").a("data", &data).i("lo", lo).i("n", m).i("cut", cut).b("ok", true).a("got", t.data).done(), Err(_) => ev("pair").a("data", &data).i("lo", lo).i("n", m).i("cut", cut).b("ok", false).a("got", &[0u8; 0]).done() } }
        _ => { let x = SlicePlaceholder32::<u8>::new(n as u32); ev("parts").i("lo", 0).i("n", n).i("glo", x.slice().len()).i("gn", x.len()).done(); let d = AllocatedMemoryRange::<u8, BAlloc>::default(); out("empty", 0, 0, d.slice(), d.len()); let d = Px::default(); out("empty", 0, 0, d.slice(), d.len()); }
    }
}
fn out_fresh(k: &str, n: usize, got: &[u8], len: usize) { let z = vec![0u8; n]; ev("view").s("kind", k).a("data", &z).i("lo", 0).i("n", n).a("got", got).i("len", len).done(); }
pub fn c16(a: &Args) {
    // every sequence of operations up to a length, sizes and modes from a small set
    let alpha: Vec<Op> = vec![Op::Take(0, 0), Op::Take(0, 2), Op::Take(0, 5), Op::Take(1, 0), Op::Take(1, 2), Op::Take(1, 3), Op::Take(1, 5), Op::Take(2, 3), Op::Give(0, 0), Op::Give(0, 1), Op::Give(1, 0), Op::Give(2, 0), Op::Drop, Op::Swap];
    let depth = if a.thorough() { 5 } else { 4 };
    let mut k = 0u64;
    if a.case.is_none() {
        let total = (alpha.len() as u64).pow(depth);
        for x in 0..total {
            k += 1; if k % a.nshards != a.shard { continue }
            let mut y = x; let ops: Vec<Op> = (0..depth).map(|_| { let o = alpha[(y % alpha.len() as u64) as usize]; y /= alpha.len() as u64; o }).collect();
            // the same history is not told twice: nothing to give when nothing is out
            let mut out = 0; let mut ok = true; for o in &ops { match o { Op::Take(..) => out += 1, Op::Give(_, i) => { if *i >= out { ok = false } else { out -= 1 } } _ => {} } } if !ok { continue }
            case(&format!("C16 all {}", x), 10, || recycle(&ops));
        }
    }
    for k in a.cases(3000, 40000) {
        let mut r = a.rng(k);
        match k / 8 % 4 {
            0 => { let ops: Vec<Op> = (0..r.range(3, 40)).map(|_| match r.below(9) { 0..=3 => Op::Take(r.below(3) as u8, if r.one_in(4) { r.below(4) } else { r.logsize(3000) }), 4..=6 => Op::Give(r.below(3) as u8, r.below(8)), 7 => Op::Drop, _ => Op::Swap }).collect(); case(&format!("C16 ops {}", k), 10, || recycle(&ops)); }
            1 => case(&format!("C16 grow {}", k), 20, || grow(&mut r, k % 20 == 9)),
            _ => case(&format!("C16 views {}", k), 10, || for _ in 0..6 { views(&mut r) }),
        }
    }
}
