//! C19: streams written by the version this work began with, kept in data/stored.bin, against the decoder of the tree.
use crate::{util::*, data, codecs::*, session::*, replay};
const PACK: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../data/stored.bin");
pub struct Kept { pub how: String, pub s: Vec<u8>, pub d: Vec<u8> }
pub fn load() -> Vec<Kept> {
    let b = std::fs::read(PACK).expect("data/stored.bin"); let mut p = 0; let mut v = vec![];
    let mut part = || { let n = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize; let x = b[p + 4..p + 4 + n].to_vec(); p += 4 + n; (x, p == b.len()) };
    loop { let how = String::from_utf8(part().0).unwrap(); let s = part().0; let (d, end) = part(); v.push(Kept { how, s, d }); if end { return v } }
}
/// makes the pack (run once, built against the original tree)
pub fn keep(a: &Args) {
    let mut out = vec![]; let mut n = 0; let mut tot = [0usize; 2];
    let mut put = |how: &str, s: &[u8], d: &[u8]| { for x in [how.as_bytes(), s, d] { out.extend((x.len() as u32).to_le_bytes()); out.extend(x); } tot[0] += s.len(); tot[1] += d.len(); };
    let mut k = 0; replay::TAME.with(|t| t.set(true));
    while n < 620 {
        k += 1; let mut r = a.rng(k);
        if n < 300 || n >= 600 {
            let big = n >= 600;
            let d = data::gen(&mut r, if big { 160000 } else { 3500 }); if d.len() < if big { 60000 } else { 12 } { continue }
            let internal = r.one_in(3); let mut o = data::opts(&mut r); if o.stride_detection_quality == Some(3) { o.stride_detection_quality = Some(2); } o.brotli_literal_byte_score = None; if let Some(l) = o.literal_adaptation.as_mut() { for x in l.iter_mut() { if x.inc() > 7680 { *x = divans::Speed::new(7680, 16384); } } }
            let s = match std::panic::catch_unwind(|| compress(internal, o, &d)) { Ok(Ok(s)) => s, _ => continue };
            if big && s.len() > 60000 { continue }
            let x = decompress(&s, false, false); if x.verdict != "OK" || x.out != d { continue }
            put(&format!("{} {}", if internal { "internal" } else { "hybrid" }, data::show(&o)), &s, &d);
        } else {
            let w = r.range(10, 24); let maps = r.one_in(12);
            let p = if maps { replay::maps(&mut r) } else { let (b, st) = (if r.one_in(30) { 20000 } else { 1500 }, r.range(1, 60)); replay::prog(&mut r, w, b, st, false) };
            let mut o = data::opts(&mut r); o.window_size = Some(w as i32); o.brotli_literal_byte_score = None; if let Some(l) = o.literal_adaptation.as_mut() { for x in l.iter_mut() { if x.inc() > 7680 { *x = divans::Speed::new(7680, 16384); } } } if maps { o.use_context_map = true; }
            let cs: Vec<_> = p.cs.iter().map(|c| c.c()).collect();
            let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay::encode(&mut r, false, o, &cs, 1 << 16))) { Ok(Some(s)) => s, _ => continue };
            let x = decompress(&s, false, false); if x.verdict != "OK" || x.out.len() != p.total { continue }
            put(&format!("program {}", data::show(&o)), &s, &x.out);
        }
        n += 1;
    }
    std::fs::write(&a.extra[0], &out).unwrap(); println!("{} kept, {} bytes of streams, {} of data", n, tot[0], tot[1]);
}
pub fn c19(a: &Args) {
    let all = load();
    for k in a.cases(all.len() as u64, all.len() as u64 * 6) {
        let g = &all[k as usize % all.len()]; let mut r = a.rng(k);
        let note = format!("C19 {} {}", k, g.how);
        case(&note, 120, || {
            let rf = Outcome { out: g.d.clone(), verdict: "OK", used: g.s.len() };
            for j in 0..3 {
                let cut = if j == 0 { Cut::whole() } else { Cut::pick(&mut r, g.s.len(), g.d.len(), 40) };
                let f = Facts { kind: "dec", n: g.s.len(), len: g.s.len(), m: g.d.len(), mode: "valid", rf: Some(&rf), how: "same" };
                let mut d = newdec(false, j == 1);
                let v = decode(&mut r, &mut d, &g.s, &f, Some(&g.d), cut, 1, &note);
                free_dec(d, v);
            }
        });
    }
}
