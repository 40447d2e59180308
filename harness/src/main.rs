#![allow(dead_code)]
mod util; mod data; mod codecs; mod probe; mod session; mod wire; mod replay; mod handoff; mod ledger; mod buffers; mod adapters; mod stored; mod capi; mod cli; mod coder; mod format;
use util::*;
#[global_allocator]
static HEAP: ledger::Counting = ledger::Counting;
fn main() {
    let a = Args::parse();
    hook_panics(); watchdog(); open_trace(&a.out);
    match a.cmd.as_str() {
        "probe" => probe::run(&a), "score" => probe::score(&a), "score2" => probe::score2(&a),
        "C01" => session::c01(&a), "dbg" => session::dbg(&a), "C02" => session::c02(&a), "C03" => session::c03(&a), "C04" => session::c04(&a),
        "C07" => session::c07(&a), "C08" | "C08C" => session::c08(&a), "C11" => session::c11(&a), "C15" => session::c15(&a),
        "C10" => replay::c10(&a), "dbg17" => replay::dbg17(&a), "C17" => replay::c17(&a), "C05S" => session::c05s(&a), "C06" => ledger::c06(&a), "C14" => capi::c14(&a), "KEEP" => stored::keep(&a), "C19" => stored::c19(&a), "C18" => coder::c18(&a), "C19E" => coder::c19e(&a), "C19F" => format::c19f(&a), "C20" => cli::c20(&a), "C13" => adapters::c13(&a), "C14X" => capi::c14x(&a), "C16" => buffers::c16(&a), "C05" => handoff::c05(&a), "C09" => wire::c09(&a), "C12" => wire::c12(&a),
        c => { eprintln!("unknown command {}", c); std::process::exit(2) }
    }
    flush_trace();
    println!("EVENTS {}", EVENTS.load(std::sync::atomic::Ordering::Relaxed));
}
