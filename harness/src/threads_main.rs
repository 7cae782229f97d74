//! `vthreads SCRIPT TRACE SKIP`: sessions whose events run on several threads.
//!
//! * `sch`: every event names the thread that performs it; the registers move to that thread.
//! * `th`: the threads run their own programs at the same time, over values they all share.
//! * `nth`: the same for notation.
//! * `once`: every thread asks for the built-in puzzles, and says where it found them.
mod kp;
#[cfg(not(miri))]
mod memcheck;
mod nt;
mod wire;
pub use wire::guard;


use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{mpsc, Barrier};

use cubing_core::alg::{Alg, AlgNode, Move, QuantumMove};
use cubing_core::kpuzzle::*;
use kp::Regs;
use serde_json::{json, Value};
use wire::*;

#[cfg(not(miri))]
#[global_allocator]
static MEMORY: memcheck::Guard = memcheck::Guard;

/// Repeating an operation whose operands nobody changes gives the same result every time.
fn repeated(e: &Value, mut f: impl FnMut() -> Value) -> Value {
    let first = f();
    for _ in 1..e.get("rep").and_then(Value::as_u64).unwrap_or(1) {
        let again = f();
        if again != first {
            return json!({"ok": false, "panic": true, "err": "panic", "disp": true, "chain": true,
                          "msg": "repeating the operation gave another result", "first": first, "again": again});
        }
    }
    first
}

/// Operands are read through the references that all threads hold; the result is the thread's own.
fn shared_step(all: &Regs, own: &mut Regs, session: &Value, e: &Value) -> Value {
    let (a, b) = (|| idx(e, "a"), || idx(e, "b"));
    match s(e, "op") {
        "t_comp" => {
            let v = all.t[a()].apply_transformation(&all.t[b()]);
            let out = kp::tval(&v);
            own.t[idx(e, "r")] = v;
            out
        }
        "t_inv" => {
            let v = all.t[a()].invert();
            let out = kp::tval(&v);
            own.t[idx(e, "r")] = v;
            out
        }
        "t_clone" if s(e, "via") == "clone_from" => {
            own.t[idx(e, "r")].clone_from(&all.t[a()]);
            kp::tval(&own.t[idx(e, "r")])
        }
        "t_clone" => {
            let v = all.t[a()].clone();
            let out = kp::tval(&v);
            own.t[idx(e, "r")] = v;
            out
        }
        "p_apply" => {
            let v = all.p[a()].apply_transformation(&all.t[b()]);
            let out = kp::pval(&v);
            own.p[idx(e, "r")] = v;
            out
        }
        "p_alg" => match all.p[a()].apply_alg(&alg_of(get(e, "alg"))) {
            Ok(v) => {
                let out = kp::pval(&v);
                own.p[idx(e, "r")] = v;
                out
            }
            Err(e) => kp::alg_err(&e),
        },
        "p_clone" if s(e, "via") == "clone_from" => {
            own.p[idx(e, "r")].clone_from(&all.p[a()]);
            kp::pval(&own.p[idx(e, "r")])
        }
        "p_clone" => {
            let v = all.p[a()].clone();
            let out = kp::pval(&v);
            own.p[idx(e, "r")] = v;
            out
        }
        _ => kp::step(own, session, e),
    }
}

/// Deeply nested algs need room.
fn wide_thread() -> std::thread::Builder {
    std::thread::Builder::new().stack_size(256 << 20)
}

fn run_free(session: &Value) -> Vec<Vec<Value>> {
    let programs = get(session, "programs").as_array().unwrap();
    let barrier = Barrier::new(programs.len());
    let first_use = s(session, "via") == "first-use";
    let mut all = Regs::empty();
    let mut prefix = vec![];
    if !first_use {
        prefix = kp::run_events(&mut all, session, get(session, "init"));
        if all.puzzle.is_none() {
            return vec![prefix];
        }
    }
    let before = all.dump();
    let shared = &all;
    let traces: Vec<Vec<Value>> = std::thread::scope(|scope| {
        let handles: Vec<_> = programs
            .iter()
            .map(|events| {
                let barrier = &barrier;
                let mut out = prefix.clone();
                wide_thread().spawn_scoped(scope, move || {
                    let mut own = Regs::empty();
                    barrier.wait();
                    if first_use {
                        let k = built_in(s(session, "puz"));
                        own.puzzle = Some(k.clone());
                        own.fill(session);
                        out.push(json!({"op": "puzzle", "via": "first-use", "res": kp::done()}));
                    } else {
                        own.puzzle = shared.puzzle.clone();
                        own.t = shared.t.clone();
                        own.p = shared.p.clone();
                        own.tb = shared.t.iter().take(shared.tb.len()).map(|t| KTransformationBuffer::from(t.clone())).collect();
                        own.pb = shared.p.iter().take(shared.pb.len()).map(|p| KPatternBuffer::from(p.clone())).collect();
                        // the buffers are made anew from the thread's own registers
                        for (i, _) in own.tb.iter().enumerate() {
                            out.push(json!({"op": "tb_new", "r": i + 1, "a": i + 1, "res": kp::tval(own.tb[i].current())}));
                        }
                        for (i, _) in own.pb.iter().enumerate() {
                            out.push(json!({"op": "pb_new", "r": i + 1, "a": i + 1, "res": kp::pval(own.pb[i].current())}));
                        }
                    }
                    for e in events.as_array().unwrap() {
                        let sh = e.get("sh").is_some() && !first_use;
                        let res = guard(|| {
                            repeated(e, || if sh { shared_step(shared, &mut own, session, e) } else { kp::step(&mut own, session, e) })
                        });
                        let mut logged = e.clone();
                        logged["res"] = res;
                        out.push(logged);
                    }
                    (out, own)
                }).expect("thread")
            })
            .collect();
        handles
            .into_iter()
            .map(|h| {
                let (out, own) = h.join().expect("thread panicked outside the library");
                drop(own); // on another thread than the one that used it
                out
            })
            .collect()
    });
    if !first_use && all.dump() != before {
        let mut out = traces;
        out[0].push(json!({"op": "info", "res": {"ok": false, "panic": true, "msg": "a shared value changed"}}));
        return out;
    }
    traces
}

fn run_free_notation(session: &Value) -> Vec<Vec<Value>> {
    let programs = get(session, "programs").as_array().unwrap();
    let barrier = Barrier::new(programs.len());
    let shared: Vec<Alg> = get(session, "shared").as_array().unwrap().iter().map(alg_of).collect();
    let algs = &shared;
    std::thread::scope(|scope| {
        let handles: Vec<_> = programs
            .iter()
            .map(|events| {
                let barrier = &barrier;
                wide_thread().spawn_scoped(scope, move || {
                    let mut regs = nt::Regs::default();
                    let mut out = vec![];
                    barrier.wait();
                    for e in events.as_array().unwrap() {
                        let res = guard(|| {
                            repeated(e, || match e.get("sh").and_then(Value::as_u64) {
                                Some(i) if s(e, "op") == "invert" => nt::inverted(&algs[i as usize]),
                                Some(i) => nt::printed(&algs[i as usize]),
                                None => nt::step(&mut regs, e),
                            })
                        });
                        let mut logged = e.clone();
                        logged["res"] = res;
                        out.push(logged);
                    }
                    (out, algs.to_vec())
                }).expect("thread")
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("thread").0).collect()
    })
}

/// The registers travel to the thread that the event names, and back.
fn run_scheduled(session: &Value) -> Vec<Value> {
    let n = int(session, "threads") as usize;
    let mut out = vec![];
    std::thread::scope(|scope| {
        let (back_tx, back_rx) = mpsc::channel::<(Regs, Value)>();
        let workers: Vec<mpsc::Sender<(Regs, Value)>> = (0..n)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<(Regs, Value)>();
                let back = back_tx.clone();
                scope.spawn(move || {
                    for (mut regs, mut e) in rx {
                        if s(&e, "op") == "none" {
                            drop(regs);
                            continue;
                        }
                        let res = guard(|| kp::step(&mut regs, session, &e));
                        e["res"] = res;
                        back.send((regs, e)).unwrap();
                    }
                });
                tx
            })
            .collect();
        let mut regs = Regs::empty();
        for e in get(session, "ev").as_array().unwrap() {
            let th = e.get("th").and_then(Value::as_u64).unwrap_or(0) as usize;
            workers[th % n].send((regs, e.clone())).unwrap();
            let (r, logged) = back_rx.recv().unwrap();
            regs = r;
            out.push(logged);
            if get(session, "frame").as_bool().unwrap() {
                let all = guard(|| regs.dump());
                out.last_mut().unwrap()["all"] = all;
            }
        }
        // the last handles are dropped on a worker
        workers[n - 1].send((regs, json!({"op": "none"}))).ok();
        drop(workers);
        drop(back_tx);
    });
    out
}

enum Handle {
    K(KPuzzle),
    T(KTransformation),
    P(KPattern),
}
use Handle::*;

fn shown(h: &Handle) -> Value {
    match h {
        K(k) => json!({"ok": true, "orbits": k.orbit_info_iter().map(|o| json!({
            "n": o.name.to_string(), "np": u8::from(o.num_pieces), "no": u8::from(o.num_orientations)})).collect::<Vec<_>>()}),
        T(t) => kp::tval(t),
        P(p) => kp::pval(p),
    }
}

/// One operation of the thread that holds `slots`; `incoming` is a handle sent to it.
fn handle_step(slots: &mut [Option<Handle>], session: &Value, e: &Value, incoming: Option<Handle>) -> (Value, Option<Handle>) {
    let i = || idx(e, "i");
    let j = || idx(e, "j");
    let made = |h: Handle| (shown(&h), h);
    fn held(h: &Option<Handle>) -> &Handle {
        h.as_ref().expect("script: an empty slot")
    }
    let (res, at, new) = match s(e, "op") {
        "make" => match KPuzzle::try_new(def_of(&get(session, "defs")[idx(e, "p")])) {
            Ok(k) => {
                let (r, h) = made(K(k));
                (r, i(), h)
            }
            Err(_) => return (json!({"ok": false}), None),
        },
        "clone" => {
            let (r, h) = made(match held(&slots[i()]) {
                K(k) => K(k.clone()),
                T(t) => T(t.clone()),
                P(p) => P(p.clone()),
            });
            (r, j(), h)
        }
        "drop" => {
            drop(slots[i()].take().expect("script: an empty slot"));
            return (kp::done(), None);
        }
        "send" => return (json!({}), slots[i()].take()),
        "arrive" => {
            let (r, h) = made(incoming.expect("script: nothing sent"));
            (r, j(), h)
        }
        "move" => {
            let K(k) = held(&slots[i()]) else { panic!("script: not a puzzle") };
            match k.transformation_from_move(&move_of(get(e, "mv"))) {
                Ok(t) => {
                    let (r, h) = made(T(t));
                    (r, j(), h)
                }
                Err(_) => return (json!({"ok": false}), None),
            }
        }
        "default" => {
            let K(k) = held(&slots[i()]) else { panic!("script: not a puzzle") };
            let (r, h) = made(P(k.default_pattern()));
            (r, j(), h)
        }
        "apply" => {
            let (P(p), T(t)) = (held(&slots[i()]), held(&slots[j()])) else { panic!("script: not a pattern and a transformation") };
            let (r, h) = made(P(p.apply_transformation(t)));
            (r, i(), h)
        }
        "extend" => {
            let (T(a), T(b)) = (held(&slots[i()]), held(&slots[j()])) else { panic!("script: not transformations") };
            let (r, h) = made(T(a.apply_transformation(b)));
            (r, i(), h)
        }
        "back" => {
            let (r, h) = made(K(match held(&slots[i()]) {
                T(t) => t.kpuzzle().clone(),
                P(p) => p.kpuzzle().clone(),
                K(_) => panic!("script: a puzzle"),
            }));
            (r, j(), h)
        }
        "use" => return (shown(held(&slots[i()])), None),
        other => panic!("script: handle operation {other}"),
    };
    slots[at] = Some(new);
    (res, None)
}

/// Every thread holds its own handles, and does what the script says when it says so.
fn run_handles(session: &Value) -> Vec<Value> {
    let (n, m) = (int(session, "threads") as usize, int(session, "slots") as usize);
    let mut out = vec![];
    type Answer = (Value, Option<Handle>);
    std::thread::scope(|scope| {
        let (back_tx, back_rx) = mpsc::channel::<Answer>();
        let workers: Vec<mpsc::Sender<(Value, Option<Handle>)>> = (0..n)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<(Value, Option<Handle>)>();
                let back = back_tx.clone();
                scope.spawn(move || {
                    let mut slots: Vec<Option<Handle>> = (0..m).map(|_| None).collect();
                    for (e, incoming) in rx {
                        let mut leaving = None;
                        let res = guard(|| {
                            let (r, h) = handle_step(&mut slots, session, &e, incoming);
                            leaving = h;
                            r
                        });
                        back.send((res, leaving)).unwrap();
                    }
                });
                tx
            })
            .collect();
        for e in get(session, "ev").as_array().unwrap() {
            workers[idx(e, "th")].send((e.clone(), None)).unwrap();
            let (mut res, handle) = back_rx.recv().unwrap();
            if s(e, "op") == "send" {
                let mut arrival = e.clone();
                arrival["op"] = json!("arrive");
                workers[idx(e, "to")].send((arrival, handle)).unwrap();
                res = back_rx.recv().unwrap().0;
            }
            let mut logged = e.clone();
            logged["res"] = res;
            out.push(logged);
        }
        drop(workers); // each thread drops what it holds
    });
    out
}

fn built_in(name: &str) -> &'static KPuzzle {
    match name {
        "3x3x3" => cubing_core::puzzles::cube3x3x3_kpuzzle(),
        "2x2x2" => cubing_core::puzzles::cube2x2x2_kpuzzle(),
        other => panic!("script: puzzle {other}"),
    }
}

/// Every thread gets every cell, all starting at once; the addresses are numbered as first seen.
fn run_once(session: &Value) -> Vec<Value> {
    let n = int(session, "threads") as usize;
    let cells: Vec<&str> = get(session, "cells").as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
    let barrier = Barrier::new(n);
    let (tx, rx) = mpsc::channel::<(usize, usize, usize)>();
    std::thread::scope(|scope| {
        for th in 0..n {
            let (tx, barrier, cells) = (tx.clone(), &barrier, &cells);
            scope.spawn(move || {
                barrier.wait();
                for i in 0..2 * cells.len() {
                    let c = (i + th) % cells.len();
                    let k = built_in(cells[c]);
                    tx.send((th, c, k as *const KPuzzle as usize)).unwrap();
                }
            });
        }
    });
    drop(tx);
    let mut seen: Vec<usize> = vec![];
    rx.into_iter()
        .map(|(th, c, addr)| {
            let obj = seen.iter().position(|a| *a == addr).unwrap_or_else(|| {
                seen.push(addr);
                seen.len() - 1
            });
            json!({"op": "got", "th": th, "cell": cells[c], "obj": obj + 1})
        })
        .collect()
}

/// Everything users share is safe to share.
#[allow(dead_code)]
fn shareable() {
    fn both<T: Send + Sync>() {}
    both::<KPuzzle>();
    both::<KPattern>();
    both::<KTransformation>();
    both::<KPatternBuffer>();
    both::<KTransformationBuffer>();
    both::<KPuzzleDefinition>();
    both::<Alg>();
    both::<AlgNode>();
    both::<Move>();
    both::<QuantumMove>();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let script = BufReader::new(std::fs::File::open(&args[1]).expect("script file"));
    let mut out = BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("trace file"),
    );
    let skip: usize = args.get(3).map(|n| n.parse().unwrap()).unwrap_or(0);
    for line in script.lines().skip(skip) {
        let session: Value = serde_json::from_str(&line.expect("read")).expect("script: JSON");
        #[cfg(not(miri))]
        memcheck::KEEPING.store(session["sid"].as_u64().is_none_or(|n| n % 2 == 1), std::sync::atomic::Ordering::Relaxed);
        let mut logged = session.clone();
        logged.as_object_mut().unwrap().remove("programs");
        match wire::s(&session, "kind") {
            "sch" => logged["ev"] = Value::Array(run_scheduled(&session)),
            "hnd" => logged["ev"] = Value::Array(run_handles(&session)),
            "once" => logged["ev"] = Value::Array(run_once(&session)),
            "th" => logged["threads"] = run_free(&session).into_iter().map(Value::Array).collect(),
            "nth" => logged["threads"] = run_free_notation(&session).into_iter().map(Value::Array).collect(),
            other => panic!("script: session kind {other}"),
        }
        serde_json::to_writer(&mut out, &logged).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}
