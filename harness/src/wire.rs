//! Conversion between the JSON of session scripts and the values of the real crates.
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use serde_json::{json, Map, Value};

pub type R<T> = Result<T, String>;

/// How many blocks of memory were ever made (counted where the checking allocator is used).
pub static MADE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn get<'a>(v: &'a Value, k: &str) -> &'a Value {
    v.get(k).unwrap_or_else(|| panic!("script: missing field {k} in {v}"))
}
pub fn int(v: &Value, k: &str) -> i64 {
    get(v, k).as_i64().unwrap_or_else(|| panic!("script: {k} is not an integer in {v}"))
}
pub fn byte(v: &Value, k: &str) -> u8 {
    u8::try_from(int(v, k)).unwrap_or_else(|_| panic!("script: {k} is not a byte in {v}"))
}
pub fn idx(v: &Value, k: &str) -> usize {
    usize::try_from(int(v, k)).unwrap() - 1
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    get(v, k).as_str().unwrap_or_else(|| panic!("script: {k} is not a string in {v}"))
}
pub fn has(v: &Value, k: &str) -> bool {
    v.get(k).is_some()
}

/// Text is an array of code points.
pub fn text_of(v: &Value) -> String {
    v.as_array()
        .expect("script: text")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}
pub fn codes(text: &str) -> Value {
    Value::Array(text.chars().map(|c| json!(c as u32)).collect())
}
fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array()
        .expect("script: byte list")
        .iter()
        .map(|b| u8::try_from(b.as_i64().unwrap()).unwrap())
        .collect()
}
pub fn bytes(v: &[u8]) -> Value {
    Value::Array(v.iter().map(|b| json!(*b)).collect())
}

// ------------------------------------------------------------------ algs

fn u32_of(v: &Value) -> u32 {
    text_of(v).parse().unwrap()
}

pub fn quantum_of(v: &Value) -> QuantumMove {
    let pre = get(v, "pre").as_array().unwrap();
    let prefix: Option<MovePrefix> = match pre.len() {
        0 => None,
        1 => Some(MovePrefix::Layer(MoveLayer { layer: u32_of(&pre[0]) })),
        _ => Some(MovePrefix::Range(MoveRange {
            outer_layer: u32_of(&pre[0]),
            inner_layer: u32_of(&pre[1]),
        })),
    };
    QuantumMove { family: text_of(get(v, "fam")), prefix }
}
thread_local! {
    // Algs and quantum moves that are written alike are one and the same object in some of the values made.
    static ALIKE: RefCell<Option<(HashMap<String, Arc<Alg>>, HashMap<QuantumMove, Arc<QuantumMove>>)>> = const { RefCell::new(None) };
}

fn shared_alg(v: &Value) -> Arc<Alg> {
    if ALIKE.with(|x| x.borrow().is_none()) {
        return Arc::new(nodes_of(v));
    }
    let key = v.to_string();
    if let Some(known) = ALIKE.with(|x| x.borrow().as_ref().unwrap().0.get(&key).cloned()) {
        return known;
    }
    let made = Arc::new(nodes_of(v));
    ALIKE.with(|x| x.borrow_mut().as_mut().unwrap().0.insert(key, made.clone()));
    made
}
fn shared_quantum(v: &Value) -> Arc<QuantumMove> {
    let quantum = quantum_of(v);
    ALIKE.with(|x| match x.borrow_mut().as_mut() {
        None => Arc::new(quantum),
        Some((_, known)) => known.entry(quantum.clone()).or_insert_with(|| Arc::new(quantum)).clone(),
    })
}

pub fn move_of(v: &Value) -> Move {
    Move { quantum: shared_quantum(v), amount: i32::try_from(int(v, "amt")).unwrap() }
}
pub fn node_of(v: &Value) -> AlgNode {
    match s(v, "t") {
        "move" => AlgNode::MoveNode(move_of(v)),
        "pause" => AlgNode::PauseNode(Pause {}),
        "nl" => AlgNode::NewlineNode(Newline {}),
        "cmt" => AlgNode::LineCommentNode(LineComment::try_new(&text_of(get(v, "txt"))).unwrap()),
        "grp" => AlgNode::GroupingNode(Grouping {
            alg: shared_alg(get(v, "alg")),
            amount: i32::try_from(int(v, "amt")).unwrap(),
        }),
        "comm" => AlgNode::CommutatorNode(Commutator { a: shared_alg(get(v, "a")), b: shared_alg(get(v, "b")) }),
        "conj" => AlgNode::ConjugateNode(Conjugate { a: shared_alg(get(v, "a")), b: shared_alg(get(v, "b")) }),
        other => panic!("script: node type {other}"),
    }
}
fn nodes_of(v: &Value) -> Alg {
    Alg { nodes: v.as_array().expect("script: alg").iter().map(node_of).collect() }
}
/// In every second alg that is made (of those that are not huge), parts that are alike are shared.
pub fn alg_of(v: &Value) -> Alg {
    let text = v.to_string();
    let sum = text.bytes().fold(0u32, |sum, b| sum.wrapping_mul(31).wrapping_add(b.into()));
    if text.len() < 20_000 && (sum ^ sum >> 7 ^ sum >> 13) & 1 == 1 {
        ALIKE.with(|x| *x.borrow_mut() = Some(Default::default()));
    }
    let made = nodes_of(v);
    ALIKE.with(|x| *x.borrow_mut() = None);
    made
}

pub fn quantum_json(q: &QuantumMove) -> Map<String, Value> {
    let digits = |n: u32| codes(&n.to_string());
    let pre = match &q.prefix {
        None => vec![],
        Some(MovePrefix::Layer(l)) => vec![digits(l.layer)],
        Some(MovePrefix::Range(r)) => vec![digits(r.outer_layer), digits(r.inner_layer)],
    };
    let mut m = Map::new();
    m.insert("fam".into(), codes(&q.family));
    m.insert("pre".into(), Value::Array(pre));
    m
}
pub fn move_json(mv: &Move) -> Value {
    let mut m = quantum_json(&mv.quantum);
    m.insert("t".into(), json!("move"));
    m.insert("amt".into(), json!(mv.amount));
    Value::Object(m)
}
pub fn node_json(n: &AlgNode) -> Value {
    match n {
        AlgNode::MoveNode(m) => move_json(m),
        AlgNode::PauseNode(_) => json!({"t": "pause"}),
        AlgNode::NewlineNode(_) => json!({"t": "nl"}),
        AlgNode::LineCommentNode(c) => json!({"t": "cmt", "txt": codes(c.text())}),
        AlgNode::GroupingNode(g) => json!({"t": "grp", "alg": alg_json(&g.alg), "amt": g.amount}),
        AlgNode::CommutatorNode(c) => json!({"t": "comm", "a": alg_json(&c.a), "b": alg_json(&c.b)}),
        AlgNode::ConjugateNode(c) => json!({"t": "conj", "a": alg_json(&c.a), "b": alg_json(&c.b)}),
    }
}
pub fn alg_json(a: &Alg) -> Value {
    Value::Array(a.nodes.iter().map(node_json).collect())
}

// ------------------------------------------------------- puzzle data
// Script form: pattern data  [{"o": name, "p": [..], "x": [..], "m": [..], "hm": bool}, ...]
//              transformation data  [{"o": name, "p": [..], "d": [..]}, ...]

pub fn pdata_of(v: &Value) -> KPatternData {
    let mut data = KPatternData::new();
    for o in v.as_array().unwrap() {
        data.insert(
            KPuzzleOrbitName(s(o, "o").to_owned()),
            KPatternOrbitData {
                pieces: bytes_of(get(o, "p")),
                orientation: bytes_of(get(o, "x")),
                orientation_mod: get(o, "hm").as_bool().unwrap().then(|| bytes_of(get(o, "m"))),
            },
        );
    }
    data
}
pub fn tdata_of(v: &Value) -> KTransformationData {
    let mut data = KTransformationData::new();
    for o in v.as_array().unwrap() {
        data.insert(
            KPuzzleOrbitName(s(o, "o").to_owned()),
            KTransformationOrbitData {
                permutation: bytes_of(get(o, "p")),
                orientation_delta: bytes_of(get(o, "d")),
            },
        );
    }
    data
}

/// The documented JSON, written without the crate's own serializer.
pub fn pdata_doc(v: &Value) -> Value {
    let mut m = Map::new();
    for o in v.as_array().unwrap() {
        let mut d = Map::new();
        d.insert("pieces".into(), get(o, "p").clone());
        d.insert("orientation".into(), get(o, "x").clone());
        if get(o, "hm").as_bool().unwrap() {
            d.insert("orientationMod".into(), get(o, "m").clone());
        }
        m.insert(s(o, "o").to_owned(), Value::Object(d));
    }
    Value::Object(m)
}
pub fn tdata_doc(v: &Value) -> Value {
    let mut m = Map::new();
    for o in v.as_array().unwrap() {
        m.insert(
            s(o, "o").to_owned(),
            json!({"permutation": get(o, "p"), "orientationDelta": get(o, "d")}),
        );
    }
    Value::Object(m)
}

pub fn def_of(v: &Value) -> KPuzzleDefinition {
    KPuzzleDefinition {
        name: s(v, "name").to_owned(),
        orbits: get(v, "orbits")
            .as_array()
            .unwrap()
            .iter()
            .map(|o| KPuzzleOrbitDefinition {
                orbit_name: KPuzzleOrbitName(s(o, "n").to_owned()),
                num_pieces: byte(o, "np"),
                num_orientations: byte(o, "no"),
            })
            .collect(),
        default_pattern: pdata_of(get(v, "dflt")),
        moves: get(v, "moves")
            .as_array()
            .unwrap()
            .iter()
            .map(|m| (move_of(get(m, "k")), tdata_of(get(m, "t"))))
            .collect(),
        derived_moves: get(v, "hasd").as_bool().unwrap().then(|| {
            get(v, "derived")
                .as_array()
                .unwrap()
                .iter()
                .map(|m| (move_of(get(m, "k")), alg_of(get(m, "a"))))
                .collect()
        }),
    }
}

/// The documented puzzle JSON, in the order of the script. Key and alg texts come from the script (`kt`, `at`).
pub fn def_text(v: &Value) -> String {
    let list = |name: &str, f: &dyn Fn(&Value) -> String| -> String {
        get(v, name).as_array().unwrap().iter().map(f).collect::<Vec<_>>().join(",")
    };
    let quoted = |t: String| Value::String(t).to_string();
    let orbits = list("orbits", &|o| {
        json!({"orbitName": s(o, "n"), "numPieces": get(o, "np"), "numOrientations": get(o, "no")}).to_string()
    });
    let moves = list("moves", &|e| format!("{}:{}", quoted(text_of(get(e, "kt"))), tdata_doc(get(e, "t"))));
    let derived = if get(v, "hasd").as_bool().unwrap() {
        let entries = list("derived", &|e| format!("{}:{}", quoted(text_of(get(e, "kt"))), quoted(text_of(get(e, "at")))));
        format!(",\"derivedMoves\":{{{entries}}}")
    } else {
        String::new()
    };
    format!(
        "{{\"name\":{},\"orbits\":[{orbits}],\"defaultPattern\":{},\"moves\":{{{moves}}}{derived}}}",
        get(v, "name"),
        pdata_doc(get(v, "dflt"))
    )
}

/// Values in the form of the specification: one record per orbit, in order.
pub fn p_json(p: &KPattern) -> Value {
    let data = p.to_data();
    p.kpuzzle()
        .orbit_info_iter()
        .map(|o| match data.get(&o.name) {
            Some(d) => json!({
                "p": bytes(&d.pieces), "o": bytes(&d.orientation),
                "m": d.orientation_mod.as_ref().map(|m| bytes(m)).unwrap_or(json!([-1]))}),
            None => json!({"p": [-1], "o": [-1], "m": [-1]}),
        })
        .collect()
}
pub fn t_json(t: &KTransformation) -> Value {
    let data = t.to_data();
    t.kpuzzle()
        .orbit_info_iter()
        .map(|o| match data.get(&o.name) {
            Some(d) => json!({"p": bytes(&d.permutation), "d": bytes(&d.orientation_delta)}),
            None => json!({"p": [-1], "d": [-1]}),
        })
        .collect()
}

/// A panic of the code under test is an observation; a malformed script is not.
pub fn guard(f: impl FnOnce() -> Value) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(cause) => {
            let message = cause
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| cause.downcast_ref::<&str>().map(|m| m.to_string()))
                .unwrap_or_default();
            if message.starts_with("script:") {
                eprintln!("{message}");
                std::process::exit(3);
            }
            json!({"ok": false, "panic": true, "err": "panic", "disp": true, "chain": true, "msg": message})
        }
    }
}
