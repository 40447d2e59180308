use crate::{util::*, data, codecs::*};
pub fn run(a: &Args) {
    let t0 = std::time::Instant::now();
    for k in a.cases(200, 5000) {
        let mut r = a.rng(k);
        let d = data::gen(&mut r, 60000); let o = data::opts(&mut r); let internal = r.one_in(4);
        let what = format!("case {} n{} int{} {}", k, d.len(), internal, data::show(&o));
        let t = std::time::Instant::now();
        take_panic();
        let res = std::panic::catch_unwind(|| { let c = compress(internal, o, &d)?; let x = decompress(&c, false, false); if x.verdict != "OK" || x.out != d { return Err(format!("serial {} {}/{}", x.verdict, x.out.len(), d.len())); }
          let x = decompress(&c, false, true); if x.verdict != "OK" || x.out != d { return Err(format!("mt {} {}/{}", x.verdict, x.out.len(), d.len())); } Ok(c.len()) });
        match res { Ok(Ok(_)) => {}, Ok(Err(e)) => println!("{} => {}", what, e), Err(_) => println!("{} => PANIC {:?}", what, take_panic()) }
        if t.elapsed().as_millis() > 1000 { println!("{} slow {:?}", what, t.elapsed()); }
    }
    println!("{:?}", t0.elapsed());
}

pub fn score(a: &Args) {
    let v: u32 = a.extra[0].parse().unwrap();
    let mut bad = 0;
    for k in 0..400 { let mut r = a.rng(k); let d = data::gen(&mut r, 20000); let mut o = divans::DivansCompressorOptions::default(); o.quality = Some(r.range(2, 11) as u16); o.brotli_literal_byte_score = Some(v);
        take_panic();
        if std::panic::catch_unwind(|| { let c = compress(false, o, &d).unwrap(); let x = decompress(&c, false, false); assert!(x.out == d) }).is_err() { bad += 1; if bad < 4 { println!("k{} q{:?} n{} {:?}", k, o.quality, d.len(), take_panic()); } } }
    println!("score {} bad {}", v, bad);
}
pub fn score2(a: &Args) {
    let v: i32 = a.extra[0].parse().unwrap();
    let mut bad = 0;
    for k in 0..400 { let mut r = a.rng(k); let d = data::gen(&mut r, 20000); let q = r.range(2, 11) as i32;
        let mut p = brotli::enc::BrotliEncoderParams::default(); p.quality = q; p.hasher.literal_byte_score = v; p.lgwin = 22;
        let mut out = vec![]; brotli::BrotliCompress(&mut &d[..], &mut out, &p).unwrap();
        let mut back = vec![]; let e = brotli::BrotliDecompress(&mut &out[..], &mut back);
        if e.is_err() || back != d { bad += 1; if bad < 4 { println!("k{} q{} n{} {:?} {}", k, q, d.len(), e, back.len()); } } }
    println!("brotli score {} bad {}", v, bad);
}
