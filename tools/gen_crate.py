"""Generated crates: programs that use the compile-time macros of the code under test. Each is written
under build/, compiled against /repo's working tree, and run; what it shows is recorded."""
import json, os, shutil, subprocess
import vlib
from vlib import ToolError

CARGO = """[package]
name = "{name}"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
cubing = {{ path = "/repo/cubing" }}
cubing_core = {{ path = "/repo/cubing_core" }}
serde = "1"
serde_json = "1"

[profile.dev]
opt-level = 0
debug = false
incremental = false
"""


def write(name, main, files=()):
    d = os.path.join(vlib.BUILD, "gen", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO.format(name=name))
    shutil.copy(os.path.join(vlib.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    open(os.path.join(d, "src", "main.rs"), "w", newline="").write(main)
    for f, text in files:
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), "w").write(text)
    return d


def compile_(d):
    """(executable or None, [(first line, last line, message) of every error], all output)"""
    vlib.fresh()
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "--target-dir", vlib.TARGET], cwd=d,
                       env=vlib.cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errors, exe = [], None
    for line in r.stdout.split("\n"):
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            exe = m["executable"]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msg = m["message"]
            if not msg["spans"]:
                continue
            for sp in msg["spans"]:
                if sp["is_primary"]:
                    while sp.get("expansion") and not sp["file_name"].endswith("main.rs"):
                        sp = sp["expansion"]["span"]
                    errors.append((sp["file_name"], sp["line_start"], sp["line_end"], msg["message"]))
    if r.returncode == 0 and exe is None:
        raise ToolError("no executable of the generated crate")
    return (exe if r.returncode == 0 else None), errors, r.stdout[-3000:] + r.stderr[-3000:]


def rust_literal(rng, text):
    """Some spelling of the text as a Rust string literal."""
    k = rng.random()
    if k < 0.25 and "\r" not in text:
        n = 0
        while '"' + "#" * n in text:
            n += 1
        return "r" + "#" * n + '"' + text + '"' + "#" * n
    out = ""
    for ch in text:
        c = ord(ch)
        if ch in '"\\':
            out += "\\" + ch
        elif ch == "\n":
            out += rng.choice(["\\n", "\n", "\\x0a", "\\u{a}"]) if k < 0.7 else "\\n"
        elif c < 32 or c == 127 or ch in "\u2028\u2029\u0085\u200b\ufeff":
            out += "\\u{%x}" % c
        elif k > 0.9 and rng.random() < 0.3:
            out += "\\u{%x}" % c if c > 127 else "\\x%02x" % c
        else:
            out += ch
    if k > 0.95:      # a line continuation skips the following white space
        i = rng.randrange(len(text) + 1) if not text.strip() else 0
        out = "\\\n      " + out if i == 0 and not text[:1].isspace() else out
    return '"' + out + '"'


HEAD = """#![allow(dead_code)]
#[path = "{h}/kp.rs"]
mod kp;
#[path = "{h}/nt.rs"]
mod nt;
#[path = "{h}/wire.rs"]
mod wire;
pub use wire::guard;
"""


def literals(lits, rng, name="vlits"):
    """lits: [(kind, text)]. Returns one `lit` event per literal: refused by the compiler, or its value at run time."""
    spelled = [rust_literal(rng, t) for _, t in lits]
    refused, alive = {}, list(range(len(lits)))
    head = HEAD.format(h=os.path.join(vlib.HARNESS, "src")) + "fn of(t: &[u32]) -> String { t.iter().map(|c| char::from_u32(*c).unwrap()).collect() }\n"
    for attempt in range(6):
        out, lines, owner = head, head.count("\n"), {}
        for i in alive:
            mac, ty = ("parse_alg", "Alg") if lits[i][0] == "alg" else ("parse_move", "Move")
            src = f"fn l{i}() -> cubing::alg::{ty} {{ cubing::alg::{mac}!({spelled[i]}) }}\n"
            for n in range(src.count("\n")):
                owner[lines + n + 1] = i
            lines += src.count("\n")
            out += src
        out += "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n"
        for i in alive:
            conv = "wire::alg_json(&v)" if lits[i][0] == "alg" else "serde_json::json!([wire::move_json(&v)])"
            ty = "Alg" if lits[i][0] == "alg" else "Move"
            out += (f"    println!(\"{{}}\", guard(|| {{ let v = l{i}(); let w = of(&{[ord(x) for x in lits[i][1]]}).parse::<cubing::alg::{ty}>();\n"
                    f"        serde_json::json!({{\"ok\": true, \"same\": matches!(&w, Ok(w) if *w == v), \"ast\": {conv}}}) }}));\n")
        out += "}\n"
        d = write(name, out)
        exe, errors, text = compile_(d)
        if exe:
            break
        new = {owner[l]: m for f, l, e, m in errors if f.endswith("main.rs") and l in owner}
        if not new:
            raise ToolError("the generated crate does not compile:\n" + text)
        refused.update(new)
        alive = [i for i in alive if i not in refused]
    else:
        raise ToolError("the generated crate does not compile after removing the refused literals")
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    rows = [json.loads(x) for x in r.stdout.split("\n") if x]
    events = []
    for i, (kind, t) in enumerate(lits):
        e = {"op": "lit", "kind": kind, "txt": [ord(x) for x in t], "src": spelled[i]}
        if i in refused:
            e["res"] = {"ok": False, "panic": False, "disp": bool(refused[i].strip()), "msg": refused[i]}
        else:
            at = alive.index(i)
            e["res"] = rows[at] if at < len(rows) else {"ok": False, "panic": True, "disp": True, "msg": "crash"}
        events.append(e)
    return events


# ------------------------------------------------------------------ bundled files

def pdoc(v):
    return {o["o"]: {"pieces": o["p"], "orientation": o["x"], **({"orientationMod": o["m"]} if o["hm"] else {})} for o in v}


def tdoc(v):
    return {o["o"]: {"permutation": o["p"], "orientationDelta": o["d"]} for o in v}


def ddoc(d):
    s = lambda t: "".join(map(chr, t))
    out = {"name": d["name"], "orbits": [{"orbitName": o["n"], "numPieces": o["np"], "numOrientations": o["no"]} for o in d["orbits"]],
           "defaultPattern": pdoc(d["dflt"]), "moves": {s(m["kt"]): tdoc(m["t"]) for m in d["moves"]}}
    if d["hasd"]:
        out["derivedMoves"] = {s(m["kt"]): s(m["at"]) for m in d["derived"]}
    return out


BUNDLE = """
use std::io::{{BufRead, BufReader, BufWriter, Write}};
use std::sync::{{mpsc, Barrier}};
use cubing::kpuzzle::*;
use serde_json::{{json, Value}};
use wire::*;

{items}

fn puzzle(i: i64) -> &'static KPuzzle {{ match i {{ {puzzles} _ => panic!("script: no such puzzle") }} }}
fn pattern(i: i64) -> &'static KPattern {{ match i {{ {patterns} _ => panic!("script: no such pattern") }} }}
fn transformation(i: i64) -> &'static KTransformation {{ match i {{ {transformations} _ => panic!("script: no such transformation") }} }}
fn address(cell: &str) -> usize {{
    let i: i64 = cell[1..].parse().unwrap();
    match &cell[..1] {{
        "k" => puzzle(i) as *const KPuzzle as usize,
        "p" => pattern(i) as *const KPattern as usize,
        _ => transformation(i) as *const KTransformation as usize,
    }}
}}

fn step(r: &mut kp::Regs, session: &Value, e: &Value) -> Value {{
    if e.get("via").and_then(Value::as_str) != Some("bundled") {{
        return kp::step(r, session, e);
    }}
    match s(e, "op") {{
        "puzzle" => {{
            r.puzzle = Some(puzzle(int(e, "b")).clone());
            r.fill(session);
            kp::done()
        }}
        "p_data" => {{
            let v = pattern(int(e, "b"));
            let out = kp::pval(v);
            r.p[idx(e, "r")] = v.to_owned();
            out
        }}
        _ => {{
            let v = transformation(int(e, "b"));
            let out = kp::tval(v);
            r.t[idx(e, "r")] = v.to_owned();
            out
        }}
    }}
}}

fn once(session: &Value) -> Vec<Value> {{
    let n = int(session, "threads") as usize;
    let cells: Vec<&str> = get(session, "cells").as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
    let barrier = Barrier::new(n);
    let (tx, rx) = mpsc::channel::<(usize, usize, usize)>();
    std::thread::scope(|scope| {{
        for th in 0..n {{
            let (tx, barrier, cells) = (tx.clone(), &barrier, &cells);
            scope.spawn(move || {{
                barrier.wait();
                for i in 0..2 * cells.len() {{
                    let c = (i * (if th % 2 == 0 {{ 1 }} else {{ cells.len() - 1 }}) + th / 2) % cells.len();
                    tx.send((th, c, address(cells[c]))).unwrap();
                }}
            }});
        }}
    }});
    drop(tx);
    let mut seen: Vec<usize> = vec![];
    rx.into_iter()
        .map(|(th, c, addr)| {{
            let obj = seen.iter().position(|a| *a == addr).unwrap_or_else(|| {{ seen.push(addr); seen.len() - 1 }});
            json!({{"op": "got", "th": th, "cell": cells[c], "obj": obj + 1}})
        }})
        .collect()
}}

fn main() {{
    std::panic::set_hook(Box::new(|_| {{}}));
    let args: Vec<String> = std::env::args().collect();
    let script = BufReader::new(std::fs::File::open(&args[1]).expect("script file"));
    let mut out = BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("trace file"));
    let skip: usize = args.get(3).map(|n| n.parse().unwrap()).unwrap_or(0);
    for line in script.lines().skip(skip) {{
        let session: Value = serde_json::from_str(&line.expect("read")).expect("script: JSON");
        let mut logged = session.clone();
        let mut r = kp::Regs::empty();
        let events = if s(&session, "kind") == "once" {{
            once(&session)
        }} else {{
            get(&session, "ev").as_array().unwrap().iter().map(|e| {{
                let mut l = e.clone();
                l["res"] = guard(|| step(&mut r, &session, e));
                if get(&session, "frame").as_bool().unwrap() {{ l["all"] = guard(|| r.dump()); }}
                l
            }}).collect()
        }};
        logged["ev"] = Value::Array(events);
        serde_json::to_writer(&mut out, &logged).expect("write");
        out.write_all(b"\\n").expect("write");
        out.flush().expect("flush");
    }}
}}
"""


def bundle(puzzles, name="vbundle"):
    """puzzles: [{"def" or "built": .., "ps": [data], "ts": [data]}]. Returns the executable and the numbering:
    pattern and transformation j of puzzle i is number 100 * i + j."""
    items, files, arms = "", [], {"puzzles": "", "patterns": "", "transformations": ""}
    vis = ["pub", "pub(crate)", ""]
    # every puzzle has a module; the names of values and of files return in every module, and the three kinds share them
    for i, p in enumerate(puzzles):
        m, names = f"m{i}", ["x", "the_value"]
        items += f"mod {m} {{\n    use cubing::kpuzzle::*;\n"
        if "built" in p:
            expr = f"cubing::puzzles::cube{p['built']}_kpuzzle()"
        else:
            files.append((f"src/{m}/x.json", json.dumps(ddoc(p["def"]), ensure_ascii=i % 2 == 0, indent=i % 3 or None)))
            items += f"    kpuzzle_from_json_file!({vis[i % 3]}, x, \"./{m}/x.json\");\n"
            expr = "x_kpuzzle()"
        items += f"    pub fn puzzle() -> &'static KPuzzle {{ {expr} }}\n"
        arms["puzzles"] += f"{i} => {m}::puzzle(), "
        for kind, ty, xs, doc in (("pattern", "KPattern", p["ps"], pdoc), ("transformation", "KTransformation", p["ts"], tdoc)):
            for j, x in enumerate(xs):
                files.append((f"src/{m}/{kind}/{names[j]}.json", json.dumps(doc(x), indent=j or None)))
                items += f"    k{kind}_from_json_file!({vis[j % 3]}, {names[j]}, \"./{m}/{kind}/{names[j]}.json\", {expr});\n"
                items += f"    pub fn {kind}{j}() -> &'static {ty} {{ {names[j]}_k{kind}() }}\n"
                arms[kind + "s"] += f"{100 * i + j} => {m}::{kind}{j}(), "
        items += "}\n"
    main = HEAD.format(h=os.path.join(vlib.HARNESS, "src")) + BUNDLE.format(items=items, **arms)
    d = write(name, main, files)
    exe, errors, text = compile_(d)
    if not exe:
        raise ToolError("the generated crate does not compile:\n" + text)
    return exe
