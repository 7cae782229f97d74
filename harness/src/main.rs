//! `vdrive SCRIPT TRACE`: run each session of SCRIPT (one JSON object per line) against the real
//! crates, and write it to TRACE with the observed result of every event.
mod kp;
#[cfg(not(miri))]
mod memcheck;
mod nt;
mod wire;

use std::io::{BufRead, BufReader, BufWriter, Write};
use serde_json::Value;

pub use wire::guard;

#[cfg(not(miri))]
#[global_allocator]
static MEMORY: memcheck::Guard = memcheck::Guard;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let script = BufReader::new(std::fs::File::open(&args[1]).expect("script file"));
    let mut out = BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("trace file"),
    );
    let skip: usize = args.get(3).map(|n| n.parse().unwrap()).unwrap_or(0);
    for line in script.lines().skip(skip) {
        let session: Value = serde_json::from_str(&line.expect("read")).expect("script: JSON");
        // every second session without keeping freed blocks back, so that addresses return
        #[cfg(not(miri))]
        memcheck::KEEPING.store(session["sid"].as_u64().is_none_or(|n| n % 2 == 1), std::sync::atomic::Ordering::Relaxed);
        let trace = match wire::s(&session, "kind") {
            "nt" => nt::run(&session),
            "kp" => kp::run(&session),
            other => panic!("script: session kind {other}"),
        };
        // one line per session, so that a crash loses only the session it happens in
        let mut logged = session.clone();
        logged["ev"] = Value::Array(trace);
        serde_json::to_writer(&mut out, &logged).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}
