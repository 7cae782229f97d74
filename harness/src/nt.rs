//! Notation sessions: texts and nodes in, structures and texts out.
use std::str::FromStr;

use cubing_core::alg::*;
use serde_json::{json, Value};

use crate::guard;
use crate::kp::refused;
use crate::wire::*;

#[derive(Default)]
pub struct Regs {
    builders: Vec<Option<AlgBuilder>>,
}

fn parse_err(e: &AlgParseError) -> Value {
    refused("notation", !e.to_string().trim().is_empty() && !format!("{e:?}").is_empty(), true)
}

fn parse(kind: &str, via: &str, text: &str) -> Value {
    macro_rules! p {
        ($t:ty, $conv:expr) => {{
            let r = match via {
                "from_str" => <$t>::from_str(text),
                "try_from" => <$t>::try_from(text),
                _ => text.parse::<$t>(),
            };
            match r {
                Ok(v) => json!({"ok": true, "ast": $conv(&v)}),
                Err(e) => parse_err(&e),
            }
        }};
    }
    match kind {
        "alg" => p!(Alg, alg_json),
        "move" => p!(Move, |m: &Move| json!([move_json(m)])),
        "quantum" => p!(QuantumMove, |q: &QuantumMove| {
            let mut m = quantum_json(q);
            m.insert("t".into(), json!("move"));
            m.insert("amt".into(), json!(1));
            json!([Value::Object(m)])
        }),
        other => panic!("script: kind {other}"),
    }
}

fn run_cli(e: &Value) -> Value {
    use std::io::Write;
    use std::os::unix::ffi::OsStringExt;
    use std::process::{Command, Stdio};
    let exe = std::env::var("ALG_BIN").expect("ALG_BIN");
    // text, or bytes that may not be text
    let bytes: Vec<u8> = match e.get("raw") {
        Some(raw) => raw.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
        None if has(e, "txt") => text_of(get(e, "txt")).into_bytes(),
        None => vec![],
    };
    let text = std::ffi::OsString::from_vec(bytes.clone());
    let mut cmd = Command::new(exe);
    cmd.arg(s(e, "cmd"));
    match s(e, "via") {
        "stdin" | "dir" => {
            cmd.arg("--stdin");
        }
        "arg" => {
            cmd.arg("--").arg(&text);
        }
        _ => {
            cmd.arg(&text);
        }
    }
    // a directory opens, and cannot be read
    let dir = s(e, "via") == "dir";
    let mut child = cmd
        .stdin(if dir { Stdio::from(std::fs::File::open("/").expect("open /")) } else { Stdio::piped() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn alg");
    let stdin = child.stdin.take();
    // written by another thread: the tool may print before it has read everything
    // an alg on standard input that nobody asked for
    let input = if s(e, "via") == "stdin" { bytes } else { b"D L2'".to_vec() };
    let writer = std::thread::spawn(move || {
        let _ = stdin.map(|mut stdin| stdin.write_all(&input));
    });
    let out = child.wait_with_output().expect("wait");
    writer.join().expect("writer");
    // a Rust panic exits with 101; being killed by a signal has no code
    let crashed = out.status.code().is_none() || out.status.code() == Some(101);
    let stdout = String::from_utf8(out.stdout);
    json!({"ok": out.status.success(), "crash": crashed,
           "out": match &stdout { Ok(t) => codes(t), Err(_) => json!([-1]) }})
}

pub fn printed(alg: &Alg) -> Value {
    let text = alg.to_string();
    let again = text.parse::<Alg>();
    json!({"ok": true, "txt": codes(&text), "back": again.is_ok(),
           "ast": again.map(|a| alg_json(&a)).unwrap_or(json!([]))})
}
pub fn inverted(alg: &Alg) -> Value {
    let before = alg.clone();
    let inv = alg.invert();
    json!({"ok": true, "ast": alg_json(&inv), "twice": alg_json(&inv.invert()),
           "orig": alg_json(alg), "same": *alg == before, "txt": codes(&inv.to_string())})
}

fn err_new(kind: &str, via: &str, text: &str) -> Value {
    use crate::kp::{alg_err, conv_err};
    use cubing_core::kpuzzle::*;
    macro_rules! made {
        ($t:ty) => {
            match via {
                "str" => <$t>::from(text),
                _ => <$t>::from(text.to_owned()),
            }
        };
    }
    let says = |x: &dyn std::fmt::Display| x.to_string().contains(text);
    let alg = |e: InvalidAlgError, own: bool| {
        let mut res = alg_err(&e);
        let inner = says(&e);
        let outer = ConversionError::from(e);
        res["says"] = json!(own && inner && says(&outer));
        res["outer"] = get(&conv_err(&outer), "err").clone();
        res["shown"] = json!(get(&res, "disp") == &json!(true) && get(&conv_err(&outer), "disp") == &json!(true)
            && get(&conv_err(&outer), "chain") == &json!(true));
        res
    };
    let other = |e: ConversionError, own: bool| {
        let mut res = conv_err(&e);
        res["says"] = json!(own && says(&e));
        res["outer"] = get(&res, "err").clone();
        res["shown"] = get(&res, "disp").clone();
        res
    };
    match kind {
        "notation" => {
            let e = made!(AlgParseError);
            let own = says(&e) && e.description == text;
            alg(e.into(), own)
        }
        "move" => {
            let e = made!(InvalidMoveError);
            let own = says(&e) && e.description == text;
            alg(e.into(), own)
        }
        "definition" => {
            let e = made!(InvalidDefinitionError);
            let own = says(&e) && e.description == text;
            other(e.into(), own)
        }
        "pattern" => {
            let e = made!(InvalidKPatternDataError);
            let own = says(&e) && e.description == text;
            other(e.into(), own)
        }
        _ => {
            let e = made!(InvalidKTransformationDataError);
            let own = says(&e) && e.description == text;
            other(e.into(), own)
        }
    }
}

pub fn step(r: &mut Regs, e: &Value) -> Value {
    match s(e, "op") {
        "parse" => parse(s(e, "kind"), s(e, "via"), &text_of(get(e, "txt"))),
        // text of the alg, and what that text parses to
        "print" => printed(&alg_of(get(e, "alg"))),
        "print_move" => {
            let mv = move_of(get(e, "mv"));
            let text = mv.to_string();
            let again = text.parse::<Move>();
            json!({"ok": true, "txt": codes(&text), "back": again.is_ok(),
                   "ast": again.map(|m| json!([move_json(&m)])).unwrap_or(json!([])),
                   "q": codes(&mv.quantum.to_string())})
        }
        // parse, then print, then parse
        "round" => match text_of(get(e, "txt")).parse::<Alg>() {
            Ok(alg) => {
                let text = alg.to_string();
                let again = text.parse::<Alg>();
                json!({"ok": true, "txt": codes(&text), "back": again.is_ok(),
                       "ast": again.map(|a| alg_json(&a)).unwrap_or(json!([]))})
            }
            Err(e) => parse_err(&e),
        },
        // texts only: nesting deeper than JSON can carry
        "deep" => match text_of(get(e, "txt")).parse::<Alg>() {
            Ok(alg) => {
                let text = alg.to_string();
                let inv = alg.invert();
                json!({"ok": true, "txt": codes(&text), "back": text.parse::<Alg>().is_ok_and(|a| a == alg),
                       "inv": codes(&inv.to_string()), "twice": inv.invert() == alg, "orig": codes(&alg.to_string()),
                       "ser": serde_json::to_value(&alg).ok().and_then(|v| v.as_str().map(codes)).unwrap_or(json!([-1]))})
            }
            Err(e) => parse_err(&e),
        },
        // each alg made, used and dropped before the next one is
        "many" => {
            let texts: Vec<String> = get(e, "txts").as_array().unwrap().iter().map(text_of).collect();
            let mut made = Vec::with_capacity(texts.len());
            for text in &texts {
                let alg: Alg = text.parse().expect("script: the text is an alg");
                made.push((alg.to_string(), alg.invert()));
            }
            let invs: Vec<String> = made.iter().map(|x| x.1.to_string()).collect();
            let vals: Value = (0..made.len())
                .map(|i| json!({"txt": codes(&made[i].0), "inv": codes(&invs[i]), "ast": alg_json(&made[i].1.invert())}))
                .collect();
            json!({"ok": true, "vals": vals})
        }
        // every element by itself, as a node and as what it is
        "parts" => {
            let alg = alg_of(get(e, "alg"));
            macro_rules! own {
                ($x:expr) => {
                    ($x.to_string(), AlgNode::from($x.clone()), AlgNode::from($x.invert()))
                };
            }
            let one = |n: AlgNode| alg_json(&Alg { nodes: vec![n] });
            let vals: Value = alg
                .nodes
                .iter()
                .map(|n| {
                    let (text, same, inv) = match n {
                        AlgNode::MoveNode(x) => own!(x),
                        AlgNode::PauseNode(x) => own!(x),
                        AlgNode::NewlineNode(x) => own!(x),
                        AlgNode::LineCommentNode(x) => own!(x),
                        AlgNode::GroupingNode(x) => own!(x),
                        AlgNode::CommutatorNode(x) => own!(x),
                        AlgNode::ConjugateNode(x) => own!(x),
                    };
                    json!({"node": codes(&n.to_string()), "own": codes(&text), "same": same == *n && !format!("{n:?}").is_empty(),
                           "inv": one(n.invert()), "owninv": one(inv)})
                })
                .collect();
            json!({"ok": true, "vals": vals})
        }
        // a move family with its layers, made and shown in every way there is
        "prefix" => {
            let v = &get(e, "alg")[0];
            let whole = quantum_of(v);
            let fam = whole.family.clone();
            let layers: Vec<u32> = get(v, "pre").as_array().unwrap().iter().map(|x| text_of(x).parse().unwrap()).collect();
            let (texts, made): (Vec<String>, Vec<Option<MovePrefix>>) = match layers[..] {
                [] => (vec![], vec![None]),
                [a] => (
                    vec![MoveLayer::new(a).to_string(), MoveLayer::from(a).to_string(), MovePrefix::from(a).to_string()],
                    vec![Some(a.into()), Some(MoveLayer::new(a).into()), MoveLayer::from(a).into()],
                ),
                [a, b, ..] => (
                    vec![MoveRange::new(a, b).to_string(), MoveRange::from((a, b)).to_string(), MovePrefix::from((a, b)).to_string()],
                    vec![Some((a, b).into()), Some(MoveRange::new(a, b).into()), MoveRange::from((a, b)).into()],
                ),
            };
            let all: Vec<QuantumMove> = made.into_iter().flat_map(|p| [QuantumMove::new(fam.clone(), p.clone()), QuantumMove::new(&*fam, p)]).collect();
            json!({"ok": true, "txts": texts.iter().map(|t| codes(t)).collect::<Value>(),
                   "same": all.iter().all(|q| *q == whole && q.to_string() == whole.to_string()), "txt": codes(&whole.to_string())})
        }
        "invert" => inverted(&alg_of(get(e, "alg"))),
        "invert_move" => {
            let mv = move_of(get(e, "mv"));
            let inv = mv.invert();
            json!({"ok": true, "ast": [move_json(&inv)], "twice": [move_json(&inv.invert())]})
        }
        "ser" => {
            let (text, via_value) = match s(e, "kind") {
                "alg" => {
                    let a = alg_of(get(e, "alg"));
                    (serde_json::to_string(&a).unwrap(), serde_json::to_value(&a).unwrap())
                }
                "move" => {
                    let m = move_of(&get(e, "alg")[0]);
                    (serde_json::to_string(&m).unwrap(), serde_json::to_value(&m).unwrap())
                }
                _ => {
                    let q = quantum_of(&get(e, "alg")[0]);
                    (serde_json::to_string(&q).unwrap(), serde_json::to_value(&q).unwrap())
                }
            };
            let read: Value = serde_json::from_str(&text).unwrap();
            json!({"ok": read.is_string() && read == via_value,
                   "txt": read.as_str().map(codes).unwrap_or(json!([-1]))})
        }
        "de" => {
            let text = text_of(get(e, "txt"));
            // the JSON spelling of the string, plain or with every character escaped
            let spelled = match s(e, "via") {
                "plain" => serde_json::to_string(&text).unwrap(),
                "escaped" => {
                    let mut out = String::from("\"");
                    for u in text.encode_utf16() {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                    out.push('"');
                    out
                }
                _ => String::new(),
            };
            let from = |alg: Result<Value, serde_json::Error>| match alg {
                Ok(v) => json!({"ok": true, "ast": v}),
                Err(e) => refused("notation", !e.to_string().is_empty(), true),
            };
            let raw = Value::String(text.clone());
            macro_rules! de {
                ($t:ty, $conv:expr) => {
                    match s(e, "via") {
                        "value" => serde_json::from_value::<$t>(raw).map(|v| $conv(&v)),
                        "reader" => serde_json::from_reader::<_, $t>(
                            serde_json::to_string(&text).unwrap().as_bytes()).map(|v| $conv(&v)),
                        "slice" => serde_json::from_slice::<$t>(
                            serde_json::to_string(&text).unwrap().as_bytes()).map(|v| $conv(&v)),
                        "ref" => {
                            use serde::Deserialize;
                            <$t>::deserialize(&raw).map(|v| $conv(&v))
                        }
                        // among others
                        "list" => serde_json::from_value::<Vec<$t>>(json!(["R", raw, "U"])).map(|v| $conv(&v[1])),
                        "key" => serde_json::from_str::<std::collections::BTreeMap<String, $t>>(
                            &json!({"a": raw, "b": "R"}).to_string()).map(|v| $conv(&v["a"])),
                        _ => serde_json::from_str::<$t>(&spelled).map(|v| $conv(&v)),
                    }
                };
            }
            match s(e, "kind") {
                "alg" => from(de!(Alg, alg_json)),
                "move" => from(de!(Move, |m: &Move| json!([move_json(m)]))),
                _ => from(de!(QuantumMove, |q: &QuantumMove| {
                    let mut m = quantum_json(q);
                    m.insert("t".into(), json!("move"));
                    m.insert("amt".into(), json!(1));
                    json!([Value::Object(m)])
                })),
            }
        }
        // JSON that is not a string
        "de_raw" => {
            let text = text_of(get(e, "txt"));
            let ok = match s(e, "kind") {
                "alg" => serde_json::from_str::<Alg>(&text).is_ok(),
                "move" => serde_json::from_str::<Move>(&text).is_ok(),
                _ => serde_json::from_str::<QuantumMove>(&text).is_ok(),
            };
            json!({"ok": ok})
        }
        "cmt_new" => match LineComment::try_new(&text_of(get(e, "txt"))) {
            Ok(c) => json!({"ok": true, "ast": [node_json(&AlgNode::LineCommentNode(c))]}),
            Err(m) => json!({"ok": false, "disp": !m.trim().is_empty()}),
        },
        // an error made from a description, and what it becomes when it is passed on
        "err_new" => err_new(s(e, "err"), s(e, "via"), &text_of(get(e, "txt"))),
        // ---------------------------------------------------- builder
        "b_new" => {
            let i = idx(e, "r");
            while r.builders.len() <= i {
                r.builders.push(None);
            }
            let b = match s(e, "via") {
                "default" => AlgBuilder::default(),
                "none" => AlgBuilder::new(None::<&Alg>),
                "alg" => AlgBuilder::new(Some(&alg_of(get(e, "alg")))),
                _ => AlgBuilder::new(Some(&node_of(&get(e, "alg")[0]))),
            };
            r.builders[i] = Some(b);
            json!({"ok": true, "after": get(e, "alg")})
        }
        "b_push" => {
            let b = r.builders[idx(e, "r")].as_mut().unwrap();
            match s(e, "via") {
                "alg" => {
                    let alg = alg_of(get(e, "alg"));
                    b.push(&alg);
                    json!({"ok": true, "after": alg_json(&alg)})
                }
                _ => {
                    let node = node_of(&get(e, "alg")[0]);
                    b.push(&node);
                    json!({"ok": true, "after": [node_json(&node)]})
                }
            }
        }
        "b_done" => {
            let b = r.builders[idx(e, "r")].take().unwrap();
            json!({"ok": true, "ast": alg_json(&b.to_alg())})
        }
        "cli" => run_cli(e),
        other => panic!("script: op {other}"),
    }
}

pub fn run(session: &Value) -> Vec<Value> {
    let mut r = Regs::default();
    let mut out = vec![];
    for e in get(session, "ev").as_array().unwrap() {
        let mut logged = e.clone();
        logged["res"] = guard(|| step(&mut r, e));
        out.push(logged);
    }
    out
}
