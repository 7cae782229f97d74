//! Puzzle sessions: registers of transformations, patterns and buffers, one event per operation.
use std::collections::hash_map::DefaultHasher;
use std::error::Error;
use std::fmt::Display;
use std::hash::{Hash, Hasher};

use cubing_core::alg::Alg;
use cubing_core::kpuzzle::*;
use serde_json::{json, Value};

use crate::guard;
use crate::wire::*;

pub struct Regs {
    pub puzzle: Option<KPuzzle>,
    pub t: Vec<KTransformation>,
    pub p: Vec<KPattern>,
    pub tb: Vec<KTransformationBuffer>,
    pub pb: Vec<KPatternBuffer>,
}

impl Regs {
    pub fn empty() -> Self {
        Regs { puzzle: None, t: vec![], p: vec![], tb: vec![], pb: vec![] }
    }
    pub fn k(&self) -> &KPuzzle {
        self.puzzle.as_ref().expect("no puzzle")
    }
    /// All registers start from the identity and the default pattern.
    pub fn fill(&mut self, session: &Value) {
        let k = self.k().clone();
        let n = |name: &str| int(session, name) as usize;
        let id = || k.identity_transformation();
        self.t = (0..n("nt")).map(|_| id()).collect();
        self.tb = (0..n("nb")).map(|_| KTransformationBuffer::from(id())).collect();
        if n("np") > 0 {
            let p = k.default_pattern();
            self.p = (0..n("np")).map(|_| p.clone()).collect();
            self.pb = (0..n("nb")).map(|_| KPatternBuffer::from(p.clone())).collect();
        }
    }
    pub fn dump(&self) -> Value {
        json!({
            "T": self.t.iter().map(t_json).collect::<Value>(),
            "P": self.p.iter().map(p_json).collect::<Value>(),
            "TB": self.tb.iter().map(|b| t_json(b.current())).collect::<Value>(),
            "PB": self.pb.iter().map(|b| p_json(b.current())).collect::<Value>(),
        })
    }
}

fn made() -> usize {
    MADE.load(std::sync::atomic::Ordering::Relaxed)
}

fn shown(e: &dyn Display) -> bool {
    !e.to_string().trim().is_empty()
}
fn chain_ends(e: &dyn Error) -> bool {
    let mut cause = e.source();
    for _ in 0..100 {
        match cause {
            None => return true,
            Some(c) => cause = c.source(),
        }
    }
    false
}
pub fn refused(kind: &str, disp: bool, chain: bool) -> Value {
    json!({"ok": false, "panic": false, "err": kind, "disp": disp, "chain": chain})
}
pub fn alg_err(e: &InvalidAlgError) -> Value {
    #[allow(unreachable_patterns)]
    let kind = match e {
        InvalidAlgError::AlgParse(_) => "notation",
        InvalidAlgError::InvalidMove(_) => "move",
        _ => "other",
    };
    refused(kind, shown(e) && !format!("{e:?}").is_empty(), chain_ends(e))
}
pub fn conv_err(e: &ConversionError) -> Value {
    #[allow(unreachable_patterns)]
    let (kind, chain) = match e {
        ConversionError::InvalidAlg(e) => ("alg", chain_ends(e)),
        ConversionError::InvalidDefinition(_) => ("definition", true),
        ConversionError::InvalidKPatternData(_) => ("pattern", true),
        ConversionError::InvalidKTransformationData(_) => ("transformation", true),
        _ => ("other", true),
    };
    refused(kind, shown(e) && !format!("{e:?}").is_empty(), chain)
}
pub fn def_err(e: &InvalidDefinitionError) -> Value {
    refused("definition", shown(e) && !format!("{e:?}").is_empty(), true)
}
pub fn done() -> Value {
    json!({"ok": true})
}
pub fn tval(t: &KTransformation) -> Value {
    json!({"ok": true, "val": t_json(t)})
}
pub fn pval(p: &KPattern) -> Value {
    json!({"ok": true, "val": p_json(p)})
}
fn hash_of(p: &KPattern) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

/// A text, or bytes that may not be text.
fn raw_of(e: &Value) -> Vec<u8> {
    match e.get("raw").and_then(Value::as_array) {
        Some(raw) => raw.iter().map(|b| b.as_u64().unwrap() as u8).collect(),
        None => text_of(get(e, "txt")).into_bytes(),
    }
}

/// A puzzle with other orbits than those of the given puzzle, but as many pieces.
fn decoy(k: &KPuzzle, kind: u64) -> KPuzzle {
    let old = k.definition();
    let total: usize = old.orbits.iter().map(|o| o.num_pieces as usize).sum();
    let mut orbits: Vec<(String, usize, u8)> = match kind % 3 {
        1 if total <= 255 && total > 0 => vec![("all".into(), total, 1)],
        _ => old.orbits.iter().map(|o| (format!("{}~", o.orbit_name.0), o.num_pieces as usize, o.num_orientations)).collect(),
    };
    if kind % 3 == 2 {
        orbits.reverse();
    }
    let doc = json!({
        "name": old.name,
        "orbits": orbits.iter().map(|(n, np, no)| json!({"orbitName": n, "numPieces": np, "numOrientations": no})).collect::<Vec<_>>(),
        "defaultPattern": orbits.iter().map(|(n, np, _)| (n.clone(),
            json!({"pieces": (0..*np).collect::<Vec<_>>(), "orientation": vec![0; *np]}))).collect::<serde_json::Map<_, _>>(),
        "moves": {}});
    KPuzzle::try_from_json(doc.to_string().as_bytes()).expect("another puzzle")
}

pub fn make_puzzle(def: &Value, via: &str) -> Result<KPuzzle, Value> {
    let r = match via {
        "data" => KPuzzle::try_new(def_of(def)),
        "arc" => KPuzzle::try_new(std::sync::Arc::new(def_of(def))),
        "tryfrom" => KPuzzle::try_from(def_of(def)),
        "json" => KPuzzle::try_from_json(def_text(def).as_bytes()),
        "3x3x3" => Ok(cubing_core::puzzles::cube3x3x3_kpuzzle().clone()),
        "2x2x2" => Ok(cubing_core::puzzles::cube2x2x2_kpuzzle().clone()),
        "serde" => {
            // through the crate's own serializer and back
            let text = serde_json::to_string(&def_of(def)).expect("definition serializes");
            KPuzzle::try_from_json(text.as_bytes())
        }
        other => panic!("script: via {other}"),
    };
    r.map_err(|e| def_err(&e))
}

/// The orbit with the 1-based index `o`, found by name.
macro_rules! orbit {
    ($k:expr, $e:expr) => {
        $k.lookup_orbit(&$k.definition().orbits[idx($e, "o")].orbit_name).expect("orbit")
    };
}

/// The alg of an event: as a structure, or as a text (nesting deeper than JSON can carry).
fn src_alg(e: &Value) -> Alg {
    match e.get("txt") {
        Some(t) => text_of(t).parse().expect("script: the text is an alg"),
        None => alg_of(get(e, "alg")),
    }
}
fn times(e: &Value) -> u64 {
    e.get("times").and_then(Value::as_u64).unwrap_or(1)
}

/// Requests that the library refuses, each with other values than the registers'.
fn misuse(r: &Regs, kinds: u64) {
    let attempt = |bit: u32, f: &dyn Fn()| {
        if kinds >> bit & 1 == 1 {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        }
    };
    let def = |dflt: Value, no: u64, derived: Value| {
        json!({"name": "refused", "orbits": [{"orbitName": "A", "numPieces": 2, "numOrientations": no}],
               "defaultPattern": dflt, "moves": {"M": {"A": {"permutation": [1, 0], "orientationDelta": [0, 1]}}}, "derivedMoves": derived})
    };
    let good = json!({"A": {"pieces": [0, 1], "orientation": [0, 0]}});
    let load = |v: Value| KPuzzle::try_from_json(v.to_string().as_bytes());
    // a default pattern that does not fit
    attempt(0, &|| drop(load(def(json!({"A": {"pieces": [0], "orientation": [0, 0]}}), 2, json!({}))).map(|k| k.default_pattern())));
    attempt(1, &|| drop(load(def(json!({}), 2, json!({}))).map(|k| k.default_pattern())));
    // definitions that are not accepted
    attempt(2, &|| drop(load(def(good.clone(), 0, json!({})))));
    attempt(3, &|| drop(load(def(good.clone(), 2, json!({"N": "M N"})))));
    attempt(4, &|| drop(load(def(good.clone(), 2, json!({"N": "Q"})))));
    // moves and algs that do not resolve
    attempt(5, &|| drop(load(def(good.clone(), 2, json!({"N": "M2"}))).map(|k| {
        let _ = k.transformation_from_alg(&"[N: (M Q)2]".parse().unwrap());
        let _ = k.default_pattern().apply_move(&"Q2'".parse().unwrap());
    })));
    // slots that do not exist, and values that do not fit
    attempt(6, &|| drop(load(def(good.clone(), 2, json!({}))).map(|k| k.default_pattern().set_piece(&k.data.ordered_orbit_info[0], 2, 0))));
    attempt(7, &|| drop(load(def(good.clone(), 2, json!({}))).map(|k| {
        let v = OrientationWithMod { orientation: 1, orientation_mod: 3 };
        k.default_pattern().set_orientation_with_mod(&k.data.ordered_orbit_info[0], 0, &v)
    })));
    attempt(8, &|| drop(load(def(good.clone(), 2, json!({}))).map(|k| k.identity_transformation().set_permutation_idx(&k.data.ordered_orbit_info[0], 0, 2))));
    attempt(9, &|| drop(load(def(good.clone(), 2, json!({}))).map(|k| k.identity_transformation().get_orientation_delta(&k.data.ordered_orbit_info[0], 9))));
    // the same of this puzzle
    if let Some(k) = &r.puzzle {
        for o in k.orbit_info_iter() {
            attempt(10, &|| k.identity_transformation().set_orientation_delta(o, 0, o.num_orientations));
            attempt(11, &|| drop(k.identity_transformation().get_permutation_idx(o, o.num_pieces)));
        }
        attempt(12, &|| drop(KTransformation::try_from_json(k, b"{}")));
        attempt(13, &|| drop(KPattern::try_from_json(k, b"{\"A\":1}")));
        attempt(14, &|| drop(k.transformation_from_alg(&"(Undefined)2".parse().unwrap())));
    }
    // texts that are not algs
    attempt(15, &|| {
        for t in ["", "R]", "(R", "R99999999999", "2-", "[R", "R'2"] {
            let _ = (t.parse::<Alg>(), t.parse::<cubing_core::alg::Move>(), serde_json::from_str::<Alg>(t));
        }
    });
}

/// Perform one operation; the result is what the public API shows.
pub fn step(r: &mut Regs, session: &Value, e: &Value) -> Value {
    match s(e, "op") {
        // ------------------------------------------------ puzzle
        "puzzle" => match make_puzzle(get(session, "def"), s(e, "via")) {
            Ok(k) => {
                r.puzzle = Some(k);
                r.fill(session);
                done()
            }
            Err(v) => v,
        },
        "puzzle_text" => {
            // raw JSON text
            match KPuzzle::try_from_json(&raw_of(e)) {
                Ok(_) => done(),
                Err(e) => def_err(&e),
            }
        }
        "reload" => {
            let text = serde_json::to_string(r.k().definition()).expect("definition serializes");
            match KPuzzle::try_from_json(text.as_bytes()) {
                Ok(k) => {
                    r.puzzle = Some(k);
                    r.fill(session);
                    done()
                }
                Err(e) => def_err(&e),
            }
        }
        // an equal puzzle made afresh takes the place of the puzzle; the registers keep what they hold
        "twin" => {
            if let Some(k) = &r.puzzle {
                let made = match s(e, "via") {
                    "data" => KPuzzle::try_new(k.data.definition.clone()),
                    _ => KPuzzle::try_from_json(serde_json::to_string(k.definition()).expect("definition serializes").as_bytes()),
                };
                r.puzzle = Some(made.expect("an equal definition is accepted"));
            }
            done()
        }
        // what is refused (with a panic, or with an error) leaves no trace
        "misuse" => {
            misuse(r, int(e, "k") as u64);
            done()
        }
        "info" => {
            let orbits: Value = r
                .k()
                .orbit_info_iter()
                .map(|o| json!({"n": o.name.0, "np": o.num_pieces, "no": o.num_orientations}))
                .collect();
            let found = r.k().orbit_info_iter().all(|o| {
                r.k().lookup_orbit(&o.name).is_some_and(|f| {
                    f.name == o.name && f.num_pieces == o.num_pieces && f.num_orientations == o.num_orientations
                })
            });
            let missing = r.k().lookup_orbit(&KPuzzleOrbitName("no such orbit".into())).is_none();
            json!({"ok": true, "val": orbits, "found": found, "missing": missing,
                   "name": r.k().definition().name})
        }
        // --------------------------------------- transformations
        "t_id" => {
            let v = r.k().identity_transformation();
            let out = tval(&v);
            r.t[idx(e, "r")] = v;
            out
        }
        "t_data" => {
            let d = get(e, "data");
            let made = match s(e, "via") {
                "data" => KTransformation::try_from_data(r.k(), &tdata_of(d)),
                "json" => KTransformation::try_from_json(r.k(), tdata_doc(d).to_string().as_bytes()),
                "serde" => KTransformation::try_from_json(
                    r.k(), serde_json::to_string(&tdata_of(d)).unwrap().as_bytes()),
                other => panic!("script: via {other}"),
            };
            match made {
                Ok(v) => {
                    let out = tval(&v);
                    r.t[idx(e, "r")] = v;
                    out
                }
                Err(e) => conv_err(&e),
            }
        }
        "t_text" => match KTransformation::try_from_json(r.k(), &raw_of(e)) {
            Ok(v) => tval(&v),
            Err(e) => conv_err(&e),
        },
        "t_back" => {
            // read the data of T[a] back and build T[r] from it
            let data = r.t[idx(e, "a")].to_data();
            let made = match s(e, "via") {
                "data" => KTransformation::try_from_data(r.k().clone(), &data),
                _ => KTransformation::try_from_json(r.k().clone(), serde_json::to_string(&data).unwrap().as_bytes()),
            };
            match made {
                Ok(v) => {
                    let mut out = tval(&v);
                    out["eq"] = json!(v == r.t[idx(e, "a")]);
                    r.t[idx(e, "r")] = v;
                    out
                }
                Err(e) => conv_err(&e),
            }
        }
        "t_move" => match r.k().transformation_from_move(&move_of(get(e, "mv"))) {
            Ok(v) => {
                let out = tval(&v);
                r.t[idx(e, "r")] = v;
                out
            }
            Err(e) => alg_err(&e),
        },
        "t_alg" => match r.k().transformation_from_alg(&src_alg(e)) {
            Ok(v) => {
                let out = tval(&v);
                r.t[idx(e, "r")] = v;
                out
            }
            Err(e) => alg_err(&e),
        },
        "t_cost" => {
            // how many blocks of memory, and how much time in compositions of this puzzle, does evaluation take?
            let alg = src_alg(e);
            let pattern = (has(e, "pat") && e["pat"] == true).then(|| r.k().default_pattern());
            let mut blocks = 0;
            let mut result = None;
            let once = |f: &mut dyn FnMut()| {
                let begin = std::time::Instant::now();
                f();
                begin.elapsed().as_nanos()
            };
            let time = (0..7).map(|_| {
                let before = made();
                let t = once(&mut || match &pattern {
                    None => result = Some(r.k().transformation_from_alg(&alg)),
                    Some(p) => drop(p.apply_alg(&alg)),
                });
                blocks = made().wrapping_sub(before);
                t
            }).min().unwrap();
            if pattern.is_some() {
                result = Some(r.k().transformation_from_alg(&alg));
            }
            match result.unwrap() {
                Ok(v) => {
                    let unit = (0..7).map(|_| once(&mut || for _ in 0..16 {
                        std::hint::black_box(v.apply_transformation(&v));
                    }) / 16).min().unwrap();
                    let mut out = tval(&v);
                    // counted in what one step makes, however many blocks a value consists of
                    let makes = |f: &dyn Fn() -> KTransformation| {
                        let before = made();
                        drop(std::hint::black_box(f()));
                        made().wrapping_sub(before)
                    };
                    let step = makes(&|| v.apply_transformation(&v)).max(makes(&|| v.invert())).max(makes(&|| r.k().identity_transformation()));
                    out["blocks"] = json!(blocks.div_ceil(step.max(1)));
                    out["time"] = json!((time / unit.max(50)).min(1 << 30) as u64);
                    r.t[idx(e, "r")] = v;
                    out
                }
                Err(e) => alg_err(&e),
            }
        }
        "t_algs" => {
            // an alg and its inverse, one after the other, in both orders
            let alg = src_alg(e);
            match (r.k().transformation_from_alg(&alg), r.k().transformation_from_alg(&alg.invert())) {
                (Ok(a), Ok(b)) => {
                    let out = json!({"ok": true, "val": t_json(&a), "inv": t_json(&b),
                        "ab": t_json(&a.apply_transformation(&b)), "ba": t_json(&b.apply_transformation(&a))});
                    r.t[idx(e, "r")] = a;
                    out
                }
                (Err(e), _) | (_, Err(e)) => alg_err(&e),
            }
        }
        "t_comp" => {
            let v = r.t[idx(e, "a")].apply_transformation(&r.t[idx(e, "b")]);
            let out = tval(&v);
            r.t[idx(e, "r")] = v;
            out
        }
        "t_into" => {
            let mut target = r.t[idx(e, "r")].clone();
            std::mem::swap(&mut target, &mut r.t[idx(e, "r")]);
            // `target` is now the register's own object; the register holds a clone meanwhile
            r.t[idx(e, "a")].apply_transformation_into(&r.t[idx(e, "b")], &mut target);
            let out = tval(&target);
            r.t[idx(e, "r")] = target;
            out
        }
        "t_inv" => {
            let v = r.t[idx(e, "a")].invert();
            let out = tval(&v);
            r.t[idx(e, "r")] = v;
            out
        }
        "t_clone" => {
            if e.get("via").and_then(Value::as_str) == Some("clone_from") && e["a"] != e["r"] {
                let [to, from] = r.t.get_disjoint_mut([idx(e, "r"), idx(e, "a")]).expect("script: registers");
                to.clone_from(from);
                return tval(to);
            }
            let v = if e.get("via").and_then(Value::as_str) == Some("clone_into") {
                // over a value of another puzzle
                let mut v = decoy(r.k(), e["a"].as_u64().unwrap_or(0) + r.t.len() as u64).identity_transformation();
                v.clone_from(&r.t[idx(e, "a")]);
                v
            } else {
                r.t[idx(e, "a")].to_owned()
            };
            let out = tval(&v);
            r.t[idx(e, "r")] = v;
            out
        }
        "t_eq" => {
            let (a, b) = (&r.t[idx(e, "a")], &r.t[idx(e, "b")]);
            json!({"ok": true, "eq": a == b, "ne": a != b, "qe": b == a})
        }
        "t_set_p" => {
            let k = r.k().clone();
            let info = orbit!(k, e);
            r.t[idx(e, "r")].set_permutation_idx(info, byte(e, "i"), byte(e, "v"));
            done()
        }
        "t_set_d" => {
            let k = r.k().clone();
            let info = orbit!(k, e);
            r.t[idx(e, "r")].set_orientation_delta(info, byte(e, "i"), byte(e, "v"));
            done()
        }
        "t_get" => {
            let k = r.k().clone();
            let info = orbit!(k, e);
            let t = &r.t[idx(e, "r")];
            let i = byte(e, "i");
            match s(e, "what") {
                "p" => json!({"ok": true, "v": t.get_permutation_idx(info, i)}),
                _ => json!({"ok": true, "v": t.get_orientation_delta(info, i)}),
            }
        }
        // --------------------------------------------- patterns
        "p_default" => {
            let v = r.k().default_pattern();
            let out = pval(&v);
            r.p[idx(e, "r")] = v;
            out
        }
        "p_data" => {
            let d = get(e, "data");
            let made = match s(e, "via") {
                "data" => KPattern::try_from_data(r.k(), &pdata_of(d)),
                "json" => KPattern::try_from_json(r.k(), pdata_doc(d).to_string().as_bytes()),
                "serde" => KPattern::try_from_json(r.k(), serde_json::to_string(&pdata_of(d)).unwrap().as_bytes()),
                other => panic!("script: via {other}"),
            };
            match made {
                Ok(v) => {
                    let out = pval(&v);
                    r.p[idx(e, "r")] = v;
                    out
                }
                Err(e) => conv_err(&e),
            }
        }
        "p_text" => match KPattern::try_from_json(r.k(), &raw_of(e)) {
            Ok(v) => pval(&v),
            Err(e) => conv_err(&e),
        },
        "p_back" => {
            let data = r.p[idx(e, "a")].to_data();
            let made = match s(e, "via") {
                "data" => KPattern::try_from_data(r.k().clone(), &data),
                _ => KPattern::try_from_json(r.k().clone(), serde_json::to_string(&data).unwrap().as_bytes()),
            };
            match made {
                Ok(v) => {
                    let mut out = pval(&v);
                    out["eq"] = json!(v == r.p[idx(e, "a")]);
                    r.p[idx(e, "r")] = v;
                    out
                }
                Err(e) => conv_err(&e),
            }
        }
        "p_apply" => {
            let v = r.p[idx(e, "a")].apply_transformation(&r.t[idx(e, "b")]);
            let out = pval(&v);
            r.p[idx(e, "r")] = v;
            out
        }
        "p_into" => {
            let mut target = r.p[idx(e, "r")].clone();
            std::mem::swap(&mut target, &mut r.p[idx(e, "r")]);
            r.p[idx(e, "a")].apply_transformation_into(&r.t[idx(e, "b")], &mut target);
            let out = pval(&target);
            r.p[idx(e, "r")] = target;
            out
        }
        "p_move" => match r.p[idx(e, "a")].apply_move(&move_of(get(e, "mv"))) {
            Ok(v) => {
                let out = pval(&v);
                r.p[idx(e, "r")] = v;
                out
            }
            Err(e) => alg_err(&e),
        },
        "p_alg" => match r.p[idx(e, "a")].apply_alg(&src_alg(e)) {
            Ok(v) => {
                let out = pval(&v);
                r.p[idx(e, "r")] = v;
                out
            }
            Err(e) => alg_err(&e),
        },
        "p_clone" => {
            if s(e, "via") == "clone_from" && e["a"] != e["r"] {
                let [to, from] = r.p.get_disjoint_mut([idx(e, "r"), idx(e, "a")]).expect("script: registers");
                to.clone_from(from);
                return pval(to);
            }
            let a = &r.p[idx(e, "a")];
            let v = match s(e, "via") {
                "from" => KPattern::from(a),
                "clone_into" => {
                    let mut v = decoy(r.k(), e["a"].as_u64().unwrap_or(0) + r.p.len() as u64).default_pattern();
                    v.clone_from(a);
                    v
                }
                _ => a.clone(),
            };
            let out = pval(&v);
            r.p[idx(e, "r")] = v;
            out
        }
        "p_eq" => {
            let (a, b) = (&r.p[idx(e, "a")], &r.p[idx(e, "b")]);
            json!({"ok": true, "eq": a == b, "ne": a != b, "qe": b == a, "hasheq": hash_of(a) == hash_of(b)})
        }
        "p_set_p" => {
            let k = r.k().clone();
            let info = orbit!(k, e);
            r.p[idx(e, "r")].set_piece(info, byte(e, "i"), byte(e, "v"));
            done()
        }
        "p_set_o" => {
            let k = r.k().clone();
            let info = orbit!(k, e);
            let v = OrientationWithMod { orientation: byte(e, "v"), orientation_mod: byte(e, "m") };
            r.p[idx(e, "r")].set_orientation_with_mod(info, byte(e, "i"), &v);
            done()
        }
        "p_get" => {
            let k = r.k().clone();
            let info = orbit!(k, e);
            let p = &r.p[idx(e, "r")];
            let i = byte(e, "i");
            match s(e, "what") {
                "p" => json!({"ok": true, "v": p.get_piece(info, i)}),
                _ => {
                    let v = p.get_orientation_with_mod(info, i);
                    json!({"ok": true, "v": v.orientation, "m": v.orientation_mod})
                }
            }
        }
        // ---------------------------------------------- buffers
        "tb_new" => {
            r.tb[idx(e, "r")] = KTransformationBuffer::from(r.t[idx(e, "a")].clone());
            tval(r.tb[idx(e, "r")].current())
        }
        "tb_apply" => {
            let Regs { tb, t, .. } = r;
            for _ in 0..times(e) {
                tb[idx(e, "r")].apply_transformation(&t[idx(e, "b")]);
            }
            tval(tb[idx(e, "r")].current())
        }
        "tb_cur" => {
            let v = r.tb[idx(e, "a")].current().clone();
            let out = tval(&v);
            r.t[idx(e, "r")] = v;
            out
        }
        "tb_eq" => {
            let (a, b) = (&r.tb[idx(e, "a")], &r.tb[idx(e, "b")]);
            json!({"ok": true, "eq": a == b, "ne": a != b, "qe": b == a})
        }
        "pb_new" => {
            r.pb[idx(e, "r")] = KPatternBuffer::from(r.p[idx(e, "a")].clone());
            pval(r.pb[idx(e, "r")].current())
        }
        "pb_apply" => {
            let Regs { pb, t, .. } = r;
            for _ in 0..times(e) {
                pb[idx(e, "r")].apply_transformation(&t[idx(e, "b")]);
            }
            pval(pb[idx(e, "r")].current())
        }
        "pb_cur" => {
            let v = r.pb[idx(e, "a")].current().clone();
            let out = pval(&v);
            r.p[idx(e, "r")] = v;
            out
        }
        "pb_eq" => {
            let (a, b) = (&r.pb[idx(e, "a")], &r.pb[idx(e, "b")]);
            json!({"ok": true, "eq": a == b, "ne": a != b, "qe": b == a})
        }
        // ------------------------------------------------ in quick succession
        // each value is made, used and dropped before the next one is, and nothing else happens in between
        "t_many" => {
            let texts: Vec<String> = list(e, "txts").iter().map(text_of).collect();
            let mut made = Vec::with_capacity(texts.len());
            for text in &texts {
                let alg: Alg = text.parse().expect("script: the text is an alg");
                made.push(r.k().transformation_from_alg(&alg).ok());
            }
            json!({"ok": true, "vals": made.iter().map(opt_json).collect::<Value>()})
        }
        "p_many" => {
            let texts: Vec<String> = list(e, "txts").iter().map(text_of).collect();
            let mut made = Vec::with_capacity(texts.len());
            for text in &texts {
                let alg: Alg = text.parse().expect("script: the text is an alg");
                made.push(r.p[idx(e, "a")].apply_alg(&alg).ok());
            }
            json!({"ok": true, "vals": made.iter().map(|p| p.as_ref().map(p_json).unwrap_or(json!([]))).collect::<Value>()})
        }
        "c_many" => {
            let data: Vec<_> = list(e, "pairs").iter().map(|x| (tdata_of(&x[0]), tdata_of(&x[1]))).collect();
            let mut made = Vec::with_capacity(data.len());
            let mut patterns = Vec::with_capacity(data.len());
            for (a, b) in &data {
                let a = KTransformation::try_from_data(r.k(), a).unwrap();
                let b = KTransformation::try_from_data(r.k(), b).unwrap();
                made.push(Some(a.apply_transformation(&b)));
                patterns.push(r.p[idx(e, "a")].apply_transformation(&b).apply_transformation(&a.invert()));
            }
            json!({"ok": true, "vals": made.iter().map(opt_json).collect::<Value>(),
                   "pats": patterns.iter().map(p_json).collect::<Value>()})
        }
        // puzzles side by side, or one after the other
        "k_many" => {
            let defs: Vec<_> = list(e, "defs").iter().map(|x| std::sync::Arc::new(def_of(x))).collect();
            let asked: Vec<(usize, String)> = list(e, "qs").iter().map(|q| (idx(q, "k"), text_of(get(q, "txt")))).collect();
            let mut alive: Vec<Option<KPuzzle>> = defs.iter().map(|_| None).collect();
            let mut made = Vec::with_capacity(asked.len());
            for (n, (i, text)) in asked.iter().enumerate() {
                // puzzles that nobody asks anything: whatever counts them comes round
                for _ in 0..list(e, "qs")[n].get("waste").and_then(Value::as_u64).unwrap_or(0) {
                    drop(KPuzzle::try_new(defs[*i].clone()).expect("script: the definition is accepted"));
                }
                let k = match alive[*i].take() {
                    Some(k) => k,
                    None => KPuzzle::try_new(defs[*i].clone()).expect("script: the definition is accepted"),
                };
                let alg: Alg = text.parse().expect("script: the text is an alg");
                made.push(match k.transformation_from_alg(&alg) {
                    Ok(t) => (t_json(&t), p_json(&k.default_pattern().apply_transformation(&t))),
                    Err(_) => (json!([]), json!([])),
                });
                if get(e, "alive").as_bool().unwrap() {
                    alive[*i] = Some(k);
                }
            }
            json!({"ok": true, "vals": made.iter().map(|x| x.0.clone()).collect::<Value>(),
                   "pats": made.iter().map(|x| x.1.clone()).collect::<Value>()})
        }
        other => panic!("script: op {other}"),
    }
}

fn list<'a>(e: &'a Value, name: &str) -> &'a Vec<Value> {
    get(e, name).as_array().expect("script: a list")
}
fn opt_json(t: &Option<KTransformation>) -> Value {
    t.as_ref().map(t_json).unwrap_or(json!([]))
}

/// Run all events of a session; each is logged with its result (and all registers).
pub fn run_events(r: &mut Regs, session: &Value, events: &Value) -> Vec<Value> {
    let frame = get(session, "frame").as_bool().unwrap();
    let mut out = vec![];
    for e in events.as_array().expect("script: ev") {
        let res = guard(|| step(r, session, e));
        let mut logged = e.clone();
        logged["res"] = res;
        if frame {
            logged["all"] = guard(|| r.dump());
        }
        out.push(logged);
    }
    out
}

pub fn run(session: &Value) -> Vec<Value> {
    let mut r = Regs::empty();
    run_events(&mut r, session, get(session, "ev"))
}
