//! C20: the command line tool, run as a process in a scratch directory.
use crate::{util::*, data, codecs::*, replay, replay::C};
extern "C" { fn ioctl(fd: i32, req: u64, p: *mut i32) -> i32; }
/// waits until what was written into the pipe has been read (or a while)
fn drained(i: &std::process::ChildStdin) { use std::os::fd::AsRawFd; for _ in 0..400 { let mut n = 0i32; if unsafe { ioctl(i.as_raw_fd(), 0x541B, &mut n) } != 0 || n == 0 { return } std::thread::sleep(Duration::from_micros(500)); } }
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use std::collections::HashMap;
fn bin() -> String { std::env::var("VH_CLI").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../target/cli/release/divans").into()) }
fn scratch() -> String { std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp/vh_scratch".into()) }
/// one argument: what it is, and its number if it takes one
#[derive(Clone)]
enum A { F(&'static str), N(&'static str, i64), Junk(&'static str, &'static str), Speed(&'static str, String), File(String) }
impl A {
    fn text(&self) -> String { match self { A::F(s) => s.to_string(), A::N(s, n) => format!("{}{}", s, n), A::Junk(s, j) => format!("{}{}", s, j), A::Speed(s, v) => format!("{}{}", s, v), A::File(s) => s.clone() } }
    fn json(&self) -> String { match self {
        A::F(s) => format!("{{\"o\":\"{}\",\"v\":\"none\",\"n\":0}}", s), A::N(s, n) => format!("{{\"o\":\"{}\",\"v\":\"num\",\"n\":{}}}", s, n),
        A::Junk(s, _) => format!("{{\"o\":\"{}\",\"v\":\"junk\",\"n\":0}}", s), A::Speed(s, v) => { let p: Vec<&str> = v.split(',').collect(); format!("{{\"o\":\"{}\",\"v\":\"speed\",\"n\":{},\"m\":{}}}", s, if p.len() == 2 { p[0] } else { "0" }, if p.len() == 2 { p[1] } else { "0" }) }
        A::File(f) => format!("{{\"o\":\"file\",\"v\":\"{}\",\"n\":0}}", f) } }
}
struct Sh<'a> { r: &'a mut Rng, dir: String, have: HashMap<String, Vec<u8>>, n: usize }
enum In<'a> { None, File(&'a str), Dir }
enum Snk { Take, Full, Gone }
impl<'a> Sh<'a> {
    fn put(&mut self, name: &str, kind: &str, b: &[u8]) {
        std::fs::write(format!("{}/{}", self.dir, name), b).unwrap(); self.have.insert(name.into(), b.to_vec());
        ev("put").s("name", name).s("k", kind).i("len", b.len()).i("dig", digest(b)).b("magic", b.len() >= 4 && b[..4] == divans::MAGIC_NUMBER[..]).done();
    }
    fn text(&mut self, name: &str, lines: &str, cmds: &str, bad: bool) {
        std::fs::write(format!("{}/{}", self.dir, name), lines).unwrap(); self.have.insert(name.into(), lines.as_bytes().to_vec());
        ev("text").s("name", name).b("bad", bad).i("len", lines.len()).i("dig", digest(lines.as_bytes())).j("cmds", cmds).done();
    }
    /// a part of what a file holds, or what it holds with a bit changed
    fn damage(&mut self, from: &str, to: &str, cut: Option<usize>, flip: Option<(usize, u8)>) {
        let mut b = self.have[from].clone(); if let Some(c) = cut { b.truncate(c); } if let Some((p, x)) = flip { b[p] ^= x; }
        std::fs::write(format!("{}/{}", self.dir, to), &b).unwrap(); self.have.insert(to.into(), b.clone());
        ev("damage").s("from", from).s("to", to).i("len", b.len()).i("dig", digest(&b)).b("magic", b.len() >= 4 && b[..4] == divans::MAGIC_NUMBER[..]).done();
    }
    fn run(&mut self, args: &[A], input: In, snk: Snk, small: bool) -> bool {
        let mut c = Command::new(bin()); c.current_dir(&self.dir).env_clear().env("RUST_BACKTRACE", "0").stderr(Stdio::null());
        for a in args { c.arg(a.text()); }
        let (feed, inname) = match input { In::None => { c.stdin(Stdio::null()); (None, "".to_string()) } In::File(f) => { c.stdin(Stdio::piped()); (Some(self.have[f].clone()), f.to_string()) } In::Dir => { c.stdin(std::fs::File::open(&self.dir).unwrap()); (None, "adir".to_string()) } };
        let mut gone = None;
        let sk = match snk { Snk::Take => { c.stdout(Stdio::piped()); "take" } Snk::Full => { c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()); "full" }
            Snk::Gone => { let (rd, wr) = std::io::pipe().unwrap(); gone = Some(rd); c.stdout(wr); "gone" } };
        drop(gone);
        let mut p = match c.spawn() { Ok(p) => p, Err(e) => { eprintln!("cannot run {}: {}", bin(), e); std::process::exit(2) } };
        drop(c);
        let piece = if self.r.one_in(3) { 1 + self.r.below(40) } else { 1 << 16 }; let slow = piece < 100 && piece % 4 != 0; // then the tool sees the pieces one by one
        let ft = p.stdin.take().map(|mut i| std::thread::spawn(move || { let b = feed.unwrap(); let mut k = 0; let mut n = 0; while k < b.len() { let e = if n < 60 { (k + piece).min(b.len()) } else { b.len() }; if i.write_all(&b[k..e]).is_err() { break } k = e; n += 1; if slow && n < 12 { drained(&i); } } }));
        let ot = p.stdout.take().map(|mut o| std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v }));
        let end = Instant::now() + Duration::from_secs(60); let mut nap = 1;
        let rc = loop { match p.try_wait().unwrap() { Some(s) => break s.code().unwrap_or(255) as i64, None => {} } if Instant::now() > end { let _ = p.kill(); let _ = p.wait(); break -1 } std::thread::sleep(Duration::from_millis(nap)); if nap < 10 { nap += 1 } };
        if let Some(t) = ft { let _ = t.join(); } let so = ot.map(|t| t.join().unwrap()).unwrap_or_default();
        // where the result is
        let mut fs = vec![]; let mut dd = false; for a in args { match a { A::F("--") if !dd => dd = true, A::File(f) => fs.push(f.clone()), _ => {} } }
        let out = if fs.len() == 2 { let f = format!("{}/{}", self.dir, fs[1]); if std::fs::metadata(&f).map(|m| m.is_file()).unwrap_or(false) { std::fs::read(&f).unwrap_or_default() } else { vec![] } } else { so };
        let m = if rc == 0 && out.len() >= 4 && out[..4] == divans::MAGIC_NUMBER[..] { decompress(&out, false, false) } else { Outcome { out: vec![], verdict: "NONE", used: 0 } };
        let name = format!("o{}", self.n); self.n += 1;
        if fs.len() < 2 { std::fs::write(format!("{}/{}", self.dir, name), &out).unwrap(); }
        let oname = if fs.len() == 2 { fs[1].clone() } else { name }; self.have.insert(oname.clone(), out.clone());
        ev("run").j("args", &format!("[{}]", args.iter().map(|a| a.json()).collect::<Vec<_>>().join(","))).s("stdin", &inname).s("snk", sk).n("rc", rc).s("to", &oname)
            .i("len", out.len()).i("dig", digest(&out)).b("magic", out.len() >= 4 && out[..4] == divans::MAGIC_NUMBER[..]).a("bytes", if small { &out[..out.len().min(20000)] } else { &out[..0] })
            .s("mv", m.verdict).b("mall", m.used == out.len()).i("mlen", m.out.len()).i("mdig", digest(&m.out)).a("mbytes", if small { &m.out[..] } else { &m.out[..0] }).done();
        rc == 0
    }
    fn last(&self) -> String { format!("o{}", self.n - 1) }
}
fn begin<'a>(r: &'a mut Rng, k: u64, note: &str) -> Sh<'a> {
    let dir = format!("{}/c{}", scratch(), k); std::fs::create_dir_all(format!("{}/adir", dir)).unwrap();
    ev("cli").s("note", note).done(); Sh { r, dir, have: HashMap::new(), n: 0 }
}
fn speed(r: &mut Rng) -> String { if r.one_in(3) { r.pick(&["GEOLOGIC", "GLACIAL", "MUD", "SLOW", "MED", "FAST", "PLANE", "ROCKET"]).to_string() } else { let s = r.pick(&data::SPEEDS[..17]); format!("{},{}", s.0, s.1) } }
/// options the tool takes, in any order and number
fn options(r: &mut Rng) -> Vec<A> {
    let mut v = vec![];
    for _ in 0..r.below(7) {
        v.push(match r.below(26) {
            0 => A::F("-serial"), 1 => A::N("-q", r.below(12) as i64), 2 => A::F(*r.pick(&["-q9.5", "-q9.5x"])), 3 => A::N(*r.pick(&["-w", "-window="]), r.range(10, 24) as i64), 4 => A::N("-lgwin", r.range(16, 22) as i64),
            5 => A::F(*r.pick(&["-utf8", "-msb", "-lsb", "-sign"])), 6 => A::N("-bs", *r.pick(&[0i64, 1, 2, 3, 16, 17, 100, 4096, 65537])), 7 => A::F(*r.pick(&["-brotlistride", "-advbrotlistride", "-nostride", "-s", "-stride"])),
            8 => A::N("-stride=", r.range(1, 8) as i64), 9 => A::F(*r.pick(&["-cm", "-contextmap", "-nocm", "-nocontextmap"])), 10 => A::F(*r.pick(&["-O0", "-O1", "-O2"])), 11 => A::F("-nobrotli"),
            12 => A::F(*r.pick(&["-findprior", "-defaultprior"])), 13 => A::N("-mixing=", r.below(3) as i64), 14 => A::F("-findspeed"), 15 => A::Speed("-speed=", speed(r)), 16 => A::Speed("-speedlow=", speed(r)),
            17 => A::Speed("-cmspeed=", speed(r)), 18 => A::Speed("-cmspeedlow=", speed(r)), 19 => A::N("-p", r.below(16) as i64), 20 => A::N(*r.pick(&["-bytescore", "-bytescore="]), *r.pick(&[1i64, 64, 340, 540, 1000])),
            21 => A::F("-skipcrc"), 22 => A::F("-nocrc"), 23 => A::F("-c"), 24 => A::N("-quality=", r.below(12) as i64), _ => A::F("-c"),
        });
    }
    v
}
fn refused(r: &mut Rng) -> A {
    match r.below(9) {
        8 => A::Speed(*r.pick(&["-speed=", "-speedlow=", "-cmspeed=", "-cmspeedlow="]), (*r.pick(&["16384,16384", "5,16385", "65536,5", "5,65539"])).into()),
        0 => A::Junk("-q", "uick"), 1 => A::N("-stride=", *r.pick(&[0i64, 9, 100])), 2 => A::Junk("-w", "ide"), 3 => A::Junk("-speed=", "quick"), 4 => A::Junk("-bs", "1x"),
        5 => A::Junk("-mixing=", "yes"), 6 => A::File("-nosuchoption".into()), _ => A::Junk("-lgwin", "-3x"),
    }
}
fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn quoted(r: &mut Rng, b: &[u8]) -> String {
    let mut s = String::from("\"");
    for x in b { match *x {
        b'"' => s += "\\\"", b'\\' => s += "\\\\", b'\n' => s += if r.one_in(2) { "\\n" } else { "\\x0a" }, b'\r' => s += "\\r", b'\t' => s += "\\t", b'\'' if r.one_in(2) => s += "\\'", b'?' if r.one_in(2) => s += "\\?",
        32..=126 if !r.one_in(20) => s.push(*x as char), _ => s += &(if r.one_in(2) { format!("\\x{:02x}", x) } else { format!("\\x{:02X}", x) }) } }
    s + "\""
}
fn line(r: &mut Rng, c: &C) -> String {
    match c {
        C::Lit(b) => format!("{} {} {}", if r.one_in(5) { "rndins" } else { "insert" }, b.len(), if r.one_in(2) { hexs(b) } else { quoted(r, b) }),
        C::Copy(d, n) => if r.one_in(2) { format!("copy {} from {}", n, d) } else { format!("copy {} from {} \"shown\"", n, d) },
        C::Dict { size, id, t, fin } => if r.one_in(2) { format!("dict {} word {},{} func {}", fin, size, id, t) } else { format!("dict {} word {},{} \"x y\" func {} shown", fin, size, id, t) },
        C::BsL(t, s) => format!("ltype {} {}", t, s), C::BsC(t) => format!("ctype {}", t), C::BsD(t) => format!("dtype {}", t),
        C::Pred(_) => {
            let mut s = format!("prediction {}", r.pick(&["utf8", "sign", "lsb6", "msb6"]));
            let nums = |r: &mut Rng, n: usize, m: usize| (0..n).map(|_| format!(" {}", r.below(m))).collect::<String>();
            if !r.one_in(3) { let n = *r.pick(&[0usize, 64, 128, 640]); s += " lcontextmap"; let m = r.range(1, 10); s += &nums(r, n, m); }
            if !r.one_in(3) { let n = *r.pick(&[0usize, 4, 8, 64]); s += " dcontextmap"; let m = r.range(1, 10); s += &nums(r, n, m); }
            if r.one_in(3) { let n = *r.pick(&[0usize, 5, 512, 8192]); s += " mixingvalues"; s += &nums(r, n, 9); }
            for k in ["cm", "st", "mx"] { if r.one_in(2) { let a = r.pick(&data::SPEEDS); let b = r.pick(&data::SPEEDS); s += &format!(" {}speedinc {} {} {}speedmax {} {}", k, a.0, b.0, k, a.1, b.1); } }
            s
        }
    }
}
/// a line that is no command, or one whose numbers do not fit
fn badline(r: &mut Rng) -> String {
    (*r.pick(&["kopy 3 from 1", "copy 3 form 1", "copy 3 from", "copy x from 1", "copy 3 from y", "copy -1 from 1", "copy 4294967297 from 1", "copy 3 from 4294967297", "insert 3 0102", "insert 2 010203", "insert 2 01g2", "insert 2 \"ab", "insert 2 \"a\\q\"", "insert 1 \"\\x4\"",
      "insert 2 \"ab\"c", "insert 2", "insert x 01", "insert", "dict 5 word 5,0", "dict 5 word 5 func 0", "dict 5 sword 5,0 func 0", "dict 5 word 5,0 func 256", "dict 5 word 261,0 func 0", "dict 300 word 5,0 func 0", "dict 5 word 5,4294967296 func 0", "dict 5 word x,0 func 0",
      "dict 5 word 5,99999 func 0", "dict 0 word 3,0 func 0", "dict 0 word 5,0 func 121", "ctype", "ctype x", "ctype 256", "dtype 300", "dtype 1 2 3", "ltype 3 9", "ltype 300 1", "ltype 1 x", "prediction", "prediction lsb7", "prediction utf8 lcontextmap 256", "prediction utf8 mixingvalues 9", "prediction utf8 cmspeedinc 16385 1", "hello", "# comment"])).into()
}
pub fn c20(a: &Args) {
    for k in a.cases(1600, 24000) {
        let mut r = a.rng(k); let kind = k / 8 % 10; let note = format!("C20 {} kind {}", k, kind);
        case(&note, 300, || {
            let mut q = r.clone(); let r = &mut q; let mut rr = r.clone(); rr.next();
            let mut s = begin(&mut rr, k, &note);
            match kind {
                // ---- compressing and decompressing, files and pipes; then a damaged stream
                0..=4 => {
                    let magic = r.one_in(10);
                    let mx = if r.one_in(6) { 200000 } else { 5000 }; let mut d = data::gen(r, mx); if magic { let mut m = divans::MAGIC_NUMBER.to_vec(); m.extend(&d); d = m; }
                    s.put("in", "data", &d);
                    let opts = options(r); let pipe_in = r.one_in(2); let pipe_out = pipe_in || r.one_in(2);
                    let mut args = opts; if r.one_in(12) { let p = r.below(args.len() + 1); args.insert(p, refused(r)); }
                    if !pipe_out && r.one_in(4) { args.push(A::N("-benchmark", r.range(1, 3) as i64)); } else if r.one_in(30) { args.push(A::N("-benchmark=", 2)); }
                    if magic && r.one_in(2) { args.push(A::F("-c")); }
                    let dd = r.one_in(8); if dd { args.push(A::F("--")); }
                    if !pipe_in { let at = if dd { args.len() } else { r.below(args.len() + 1) }; args.insert(at, A::File("in".into())); }
                    if !pipe_out { args.push(A::File("packed".into())); }
                    let ok = s.run(&args, if pipe_in { In::File("in") } else { In::None }, Snk::Take, false);
                    if !ok { return; }
                    let st = if pipe_out { s.last() } else { "packed".into() };
                    // back again
                    let how = |r: &mut Rng, from: &str, to: &str| -> (Vec<A>, bool) {
                        let mut v = vec![]; if r.one_in(2) { v.push(A::F("-serial")); } if r.one_in(2) { v.push(A::N("-bs", *r.pick(&[0i64, 1, 2, 3, 16, 100, 4096, 65537]))); }
                        if r.one_in(5) { v.push(A::F(*r.pick(&["-skipcrc", "-nocrc"]))); }
                        if !r.one_in(4) { v.insert(r.below(v.len() + 1), A::F("-d")); }
                        let p = r.one_in(2); if !p { v.push(A::File(from.into())); if r.one_in(2) { v.push(A::File(to.into())); } } (v, p)
                    };
                    for j in 0..2 { let (v, p) = how(r, &st, &format!("back{}", j)); s.run(&v, if p { In::File(&st) } else { In::None }, Snk::Take, false); }
                    let n = s.have[&st].len();
                    for j in 0..3 {
                        let nm = format!("dam{}", j);
                        if r.one_in(2) { let c = match r.below(4) { 0 => n - 1, 1 => n - 1 - r.below(12.min(n - 1)), _ => r.below(n) }; s.damage(&st, &nm, Some(c), None); }
                        else { let p = match r.below(3) { 0 => r.below(n.min(24)), 1 => n - 1 - r.below(n.min(16)), _ => r.below(n) }; let b = 1u8 << r.below(8); s.damage(&st, &nm, None, Some((p, b))); }
                        let (mut v, p) = how(r, &nm, &format!("dback{}", j)); if !v.iter().any(|x| matches!(x, A::F("-d"))) { v.insert(0, A::F("-d")); }
                        s.run(&v, if p { In::File(&nm) } else { In::None }, Snk::Take, false);
                    }
                }
                // ---- what cannot be read or written
                5 | 6 => {
                    let big = r.one_in(3); let d = if r.one_in(6) { vec![] } else { data::gen(r, if big { 300000 } else { 3000 }) }; s.put("in", "data", &d);
                    for x in ["full", "nowhere/x"] { ev("put").s("name", if x == "full" { "/dev/full" } else { x }).s("k", if x == "full" { "full" } else { "nowhere" }).i("len", 0).i("dig", 0).b("magic", false).done(); }
                    s.run(&[A::F("-q5"), A::F("-c"), A::File("in".into()), A::File("packed".into())].iter().map(|x| match x { A::F("-q5") => A::N("-q", 5), y => y.clone() }).collect::<Vec<_>>(), In::None, Snk::Take, false);
                    let st = "packed".to_string();
                    s.put("empty", "data", &[]); s.put("junk", "data", &{ let mut b = data::gen(r, 400); if b.len() >= 4 && b[..4] == divans::MAGIC_NUMBER[..] { b[0] = 0; } b });
                    let mut hd = divans::MAGIC_NUMBER.to_vec(); hd.extend(data::gen(r, 300)); s.put("fake", "data", &hd);
                    for _ in 0..6 {
                        let dec = r.one_in(2); let mut v: Vec<A> = vec![]; if dec { v.push(A::F("-d")); } else { v.push(A::N("-q", r.below(10) as i64)); if r.one_in(4) { v.push(A::F("-nobrotli")); } } if r.one_in(3) { v.push(A::F("-serial")); }
                        if r.one_in(4) { v.push(A::N("-bs", *r.pick(&[1i64, 5, 300]))); }
                        let src = if dec { st.clone() } else { "in".to_string() };
                        match r.below(12) {
                            0 => { v.push(A::File("notthere".into())); if r.one_in(2) { v.push(A::File("x".into())); } s.run(&v, In::None, Snk::Take, false); }
                            1 => { v.push(A::File("adir".into())); if r.one_in(2) { v.push(A::File("x".into())); } s.run(&v, In::None, Snk::Take, false); }
                            2 => { s.run(&v, In::Dir, Snk::Take, false); }
                            3 => { v.push(A::File(src)); v.push(A::File("/dev/full".into())); s.run(&v, In::None, Snk::Take, false); }
                            4 => { v.push(A::File(src)); v.push(A::File("nowhere/x".into())); s.run(&v, In::None, Snk::Take, false); }
                            5 => { v.push(A::File(src)); v.push(A::File("adir".into())); s.run(&v, In::None, Snk::Take, false); }
                            6 => { v.push(A::File(src)); s.run(&v, In::None, Snk::Full, false); }
                            7 => { v.push(A::File(src)); s.run(&v, In::None, Snk::Gone, false); }
                            8 => { s.run(&v, In::File(&src), Snk::Full, false); }
                            9 => { v.push(A::File(src)); v.push(A::File("x".into())); v.push(A::File("y".into())); s.run(&v, In::None, Snk::Take, false); }
                            10 => { s.run(&v, In::File("empty"), Snk::Take, false); }
                            _ => { let f = *r.pick(&["junk", "fake", "empty", "in"]); if r.one_in(2) { v.push(A::File(f.into())); s.run(&v, In::None, Snk::Take, false); } else { s.run(&v, In::File(f), Snk::Take, false); } }
                        }
                    }
                }
                // ---- the textual form
                _ => {
                    let w = r.range(10, 24); let (budget, steps) = (if r.one_in(8) { 9000 } else { 1200 }, r.range(1, 50)); let p = replay::prog(r, w, budget, steps, false);
                    let bad = r.one_in(3); let mut ls = vec![format!("window {}", w)]; let mut cmds = vec![];
                    for c in &p.cs { let c = c.c(); if let C::Pred(_) = c { if r.one_in(2) { continue } } ls.push(line(r, &c)); cmds.push(c.json()); if r.one_in(30) { ls.push((*r.pick(&["insert 0", "insert 0 00", "copy 0 from 5", "window 20"])).into()); } }
                    if bad { match r.below(6) { 0 => ls[0] = (*r.pick(&["windows 20", "window", "window x", "", "copy 3 from 1", "window 99999999999"])).into(), 1 if ls.len() > 1 => { let i = r.range(1, ls.len() - 1); ls.insert(i, "".into()); } _ => { let i = r.range(1, ls.len()); ls.insert(i, badline(r)); } } }
                    let mut t = ls.join(if r.one_in(8) { "\r\n" } else { "\n" }); if !r.one_in(4) { t += "\n"; }
                    s.text("ir", &t, &format!("[{}]", cmds.join(",")), bad);
                    for j in 0..2 {
                        let recode = j == 1 || r.one_in(4);
                        let mut v = options(r); v.retain(|a| !matches!(a, A::F("-c") | A::F("-nobrotli")) && !matches!(a, A::N("-w", _) | A::N("-window=", _)));
                        v.push(A::F(if recode { "-d" } else { "-i" })); if recode { v.push(A::F("--recode")); }
                        let pi = r.one_in(2); let po = pi || r.one_in(2); if !pi { v.push(A::File("ir".into())); } if !po { v.push(A::File(format!("res{}", j))); }
                        let ok = s.run(&v, if pi { In::File("ir") } else { In::None }, Snk::Take, true);
                        let st = if po { s.last() } else { format!("res{}", j) };
                        if ok && !recode { let mut v = vec![A::F("-d")]; if r.one_in(2) { v.push(A::F("-serial")); } v.push(A::File(st)); s.run(&v, In::None, Snk::Take, true); }
                    }
                    if r.one_in(6) { s.run(&[A::F(*r.pick(&["-h", "-help", "--help", "-v", "-version", "--version"]))], In::None, Snk::Take, true); }
                    if r.one_in(4) { let v = if r.one_in(2) { vec![A::F("-i"), A::File("ir".into())] } else { vec![A::F("-d"), A::F("--recode"), A::File("ir".into())] }; s.run(&v, In::None, Snk::Full, true); }
                }
            }
        });
        if std::env::var("VH_KEEP").is_err() { let _ = std::fs::remove_dir_all(format!("{}/c{}", scratch(), k)); }
    }
}
