#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of the current /repo tree. Exit 0 held, 1 violated, 2 the
check itself failed. VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import json, os, random, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import vlib
from vlib import Check, ToolError, build, pick, seed, tier
import gen_crate
import gen_kp
from gen_kp import Gen, Sess, codes
from gen_nt import NGen, U32

RUNS = {}


def run(prop):
    def deco(f):
        RUNS[prop] = f
        return f
    return deco


# ------------------------------------------------------------ puzzle sessions

def stir(c, part, sessions):
    """Equal puzzles take the puzzle's place, and refused requests are made, in the middle of the sessions."""
    rng = random.Random(f"{seed()}/{c.prop}/{part}/stir")
    for s in sessions:
        if rng.random() < 0.35 and not any(e["op"] == "t_cost" for e in s["ev"]):
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.5:
                    e = {"op": "twin", "via": rng.choice(["data", "json"])}
                else:
                    e = {"op": "misuse", "k": rng.choice([2 ** rng.randrange(16), rng.getrandbits(16)])}
                s["ev"].insert(rng.randint(0, len(s["ev"])), e)


def kp(c, part, sessions, exe, env=None):
    """Run puzzle sessions on the real code and validate what was recorded."""
    name = f"{c.prop}-{part}".replace(" ", "_")[:60]
    stir(c, part, sessions)
    rec = vlib.flatten(vlib.run_script(name, sessions, exe, env=env))
    res = vlib.validate(name, "TraceKP", rec, heap="8g")
    c.conform(part, res, rec, scripts=sessions)
    return rec


def model(c, cfg, what, module=None, deep=True, extra=()):
    """Model-check the specification; returns what it wrote to OUT (the universe to replay)."""
    cfg = cfg + ("Deep" if tier() == "thorough" and deep else "")
    module = module or cfg.replace("Deep", "")
    out = os.path.join(vlib.BUILD, "run", f"{c.prop}-{cfg}.ndjson")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    res = vlib.tlc(module, cfg=cfg + ".cfg", env={"OUT": out}, heap="8g", extra=extra)
    c.model(f"{cfg}: {what}", res)
    lines = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
    if os.path.exists(out):
        os.remove(out)
    return lines, res


def sampled(c, items, n):
    """A seeded selection; the number left out is recorded."""
    items = list(items)
    if len(items) <= n:
        return items
    rng = random.Random(f"{seed()}/{c.prop}")
    c.extra["replayed_of_enumerated"] = f"{n} of {len(items)}"
    return [items[i] for i in sorted(rng.sample(range(len(items)), n))]


def tiny_group(c, exe, acting):
    """Every pair of transformations (and every pattern) of the model-checked small puzzles, on the real code."""
    lines, _ = model(c, "MC_Group", "group and action laws on every transformation and pattern of small puzzles")
    g = Gen(seed(), c.prop)
    rng = g.rng
    for u in lines:
        orbits, ts, ps = u["orbits"], u["ts"], u["ps"]
        td = lambda t: [{"o": o["n"], "p": x["p"], "d": x["d"]} for o, x in zip(orbits, t)]
        pd = lambda p: [{"o": o["n"], "p": x["p"], "x": x["o"], "m": x["m"], "hm": True} for o, x in zip(orbits, p)]
        d = gen_kp.make_def(orbits, [])
        pairs = [(a, b) for a in ts for b in ts]
        if not acting:
            for a in ts:
                s = g.sess(d, nt=4, np=0, nb=0, frame=False)
                s.add("t_data", r=1, data=td(a), via="data").add("t_inv", r=2, a=1)
                s.add("t_comp", r=3, a=1, b=2).add("t_into", r=3, a=2, b=1)
                for b in (ts if len(ts) <= 48 else rng.sample(ts, 48)):
                    s.add("t_data", r=2, data=td(b), via="data")
                    s.add("t_comp", r=3, a=1, b=2).add("t_into", r=4, a=1, b=2).add("t_eq", a=3, b=4)
        else:
            for p in (ps if len(ps) <= 400 else rng.sample(ps, 400)):
                s = g.sess(d, nt=2, np=3, nb=0, frame=False)
                s.add("p_data", r=1, data=pd(p), via="data")
                for a in (ts if len(ts) <= 16 else rng.sample(ts, 16)):
                    s.add("t_data", r=1, data=td(a), via="data")
                    s.add("p_apply", r=2, a=1, b=1).add("p_into", r=3, a=1, b=1).add("p_eq", a=2, b=3)
                    s.add("t_inv", r=1, a=1).add("p_into", r=3, a=2, b=1).add("p_eq", a=3, b=1)
    return kp(c, "exhaustive small puzzles", g.out, exe)


def histories(c, cfg, exe, n, walks=0):
    """Histories of the session specification, replayed on the real code."""
    todo = []
    defs, res = model(c, cfg, "every history of the listed operations up to the depth", module="MC_Session", deep=False)
    todo += [json.loads(p[5:]) for p in res.printed if p.startswith("HIST ")]
    todo = sampled(c, todo, n)
    if walks:
        defs, res = model(c, "MC_SessionSim", "random walks of 30 operations", module="MC_Session", deep=False,
                          extra=("-simulate", f"num={max(1, walks // 8)}", "-depth", "31", "-seed", str(seed())))
        todo += [json.loads(p[5:]) for p in res.printed if p.startswith("HIST ")]
    sessions = []
    for i, h in enumerate(todo):
        d = gen_kp.with_texts(json.loads(json.dumps(defs[h["d"] - 1])))
        s = Sess(i, d, nt=2, np=2, nb=2, frame=True, errs=False, via="data").s
        s["ev"] += h["ev"]
        sessions.append(s)
    return kp(c, "histories of the specification", sessions, exe)


def exe_():
    return build()["vdrive"]


# ---------------------------------------------------------- notation sessions

def nt(c, part, sessions, exe, env=None):
    name = f"{c.prop}-{part}".replace(" ", "_")[:60]
    rec = vlib.run_script(name, sessions, exe, env=env)
    res = vlib.validate(name, "TraceAlg", rec, heap="10g")
    c.conform(part, res, rec, scripts=sessions)
    return rec


def grammar(c, cfg, tokens, maxlen, keep):
    """Every text over the tokens up to the length, on the specification; returns the texts to replay:
    those that can still become an alg, and each of them with one more token."""
    if tier() == "thorough":
        cfg, maxlen = cfg + "Deep", maxlen + 1
    _, res = model(c, cfg, f"every text of up to {maxlen} tokens: accepted texts print, invert, join and enclose",
                   module="MC_Chars", deep=False)
    live = [json.loads(p[5:]) for p in res.printed if p.startswith("TEXT ")]
    texts = {tuple(t["s"]) for t in live}
    texts |= {tuple(t["s"]) + tuple(w) for t in live if t["n"] < maxlen for w in tokens}
    return sampled(c, sorted(texts), keep)


def algs(c):
    """Every small alg of the specification."""
    lines, _ = model(c, "MC_Ast", "every small alg prints canonically, parses back, and its inverse inverts back")
    return lines


CHARS = [[ord(x)] for x in "R20'()[],: \n/.+-@"]
WORDS = [codes(x) for x in ("R", "u2'", "2-3r", "3L", "X++", "U2-", "/", "//c", ".", "(", ")", "[", "]", ", ", ":", " ", "\n", "2", "'",
                            "(1, -2)", "(2)")]


def succession(c, g, n, exe):
    """Algs of the same shape, each parsed, printed, inverted and dropped before the next."""
    k = gen_kp.Gen(seed(), c.prop + ".next")
    refs = [(f, p) for f in ("R", "Uw", "y", "BR") for p in ((), (2,), (1, 3))]
    for _ in range(n):
        shape = gen_kp.rand_alg(k.rng, refs, k.rng.randint(1, 5), 3)
        g.add("many", txts=[codes(gen_kp.alg_text(k.variant(shape, refs))) for _ in range(8)])
    nt(c, "algs in quick succession", g.done(), exe)


def some(g, items, n):
    return items if len(items) <= n else g.rng.sample(items, n)


def deep(g, depths):
    """Nesting deeper than JSON can carry: parsed, printed, inverted and serialized; only texts are recorded."""
    for t in g.deep_texts(depths):
        g.one("deep", txt=codes(t))


@run("C01")
def c01(c):
    exe = exe_()
    g = NGen(seed(), "C01.grammar")
    for t in grammar(c, "MC_Chars", CHARS, 5, pick(60000, 800000)):
        g.add("parse", kind="alg", via="parse", txt=list(t))
        if len(t) <= pick(3, 4):
            g.add("parse", kind="move", via="try_from", txt=list(t))
            g.add("parse", kind="quantum", via="from_str", txt=list(t))
    for t in grammar(c, "MC_Words", WORDS, 4, pick(40000, 600000)):
        g.add("parse", kind="alg", via="from_str", txt=list(t))
    nt(c, "every short text", g.done(), exe)
    g = NGen(seed(), "C01")
    g.numbers()
    g.crowding()
    g.strange()
    g.accepted_texts(pick(6000, 60000))
    nt(c, "numbers, spacing, characters, random texts", g.done(), exe)
    g = NGen(seed(), "C01.scale")
    deep(g, pick((50, 257, 1000), (50, 100, 129, 257, 400, 700, 1000)))
    for t in some(g, list(g.long_texts()), pick(1200, 10**9)):
        g.one("parse", kind=g.rng.choice(["alg", "alg", "alg", "move", "quantum"]) if t[-1:].isalpha() else "alg", via=g.rng.choice(["parse", "from_str", "try_from"]), txt=codes(t))
    for _ in range(pick(100, 1000)):
        g.one("parse", kind="alg", via="parse", txt=codes(g.spelled(g.alg(g.rng.choice(g.SIZES), 1))))
    nt(c, "long and deep texts", g.done(), exe)
    # known finding: nesting without bound exhausts the stack
    rec = vlib.run_script("C01-deep", [{"sid": 1, "kind": "nt", "ev": [{"op": "deep", "txt": [40] * 200000}]}], exe)
    if "crash" not in rec[0]:
        c.findings = []


@run("C02")
def c02(c):
    exe = exe_()
    g = NGen(seed(), "C02.all")
    for a in algs(c):
        g.add("print", alg=a)
    nt(c, "every small alg printed", g.done(), exe)
    nt(c, "random algs", NGen(seed(), "C02").prints(pick(5000, 50000)).done(), exe)
    succession(c, NGen(seed(), "C02.next"), pick(400, 4000), exe)
    g = NGen(seed(), "C02.scale")
    deep(g, pick((30, 65, 129, 300), (25, 26, 33, 65, 100, 129, 257, 300, 500, 1000)))
    for a in [*g.long_algs(), *g.nested_algs(pick(40, 400))]:
        g.one("print", alg=a)
    for t in some(g, list(g.long_texts()), pick(300, 4000)):
        g.one("round", txt=codes(t))
    nt(c, "long and deep algs", g.done(), exe)


@run("C03")
def c03(c):
    exe = exe_()
    g = NGen(seed(), "C03.all")
    for a in algs(c):
        g.add("invert", alg=a)
    nt(c, "every small alg inverted", g.done(), exe)
    nt(c, "random algs", NGen(seed(), "C03").inversions(pick(7000, 80000)).done(), exe)
    succession(c, NGen(seed(), "C03.next"), pick(400, 4000), exe)
    g = NGen(seed(), "C03.scale")
    deep(g, pick((30, 65, 129, 300), (25, 26, 33, 65, 100, 129, 257, 300, 500, 1000)))
    for a in [*g.long_algs(), *g.nested_algs(pick(40, 400))]:
        g.one("invert", alg=a)
    nt(c, "long and deep algs", g.done(), exe)


@run("C04")
def c04(c):
    exe = exe_()
    g = NGen(seed(), "C04.all")
    for a in algs(c):
        g.add("ser", kind="alg", alg=a)
    for t in grammar(c, "MC_Chars", CHARS, 5, pick(25000, 200000)):
        g.add("de", kind=g.rng.choice(["alg", "alg", "alg", "move", "quantum"]) if len(t) < 5 else "alg",
              via=g.rng.choice(g.DE), txt=list(t))
    nt(c, "every small alg, every short text", g.done(), exe)
    g = NGen(seed(), "C04")
    g.comments()
    g.strange("de")
    nt(c, "random algs, moves and families", g.serde(pick(5000, 50000)).done(), exe)
    g = NGen(seed(), "C04.scale")
    deep(g, pick((65, 300), (25, 33, 65, 129, 257, 300, 1000)))
    for a in [*g.long_algs(pick(g.SIZES[::3] + [4100], None)), *g.nested_algs(pick(30, 300))]:
        g.one("ser", kind="alg", alg=a)
    for t in some(g, list(g.long_texts()), pick(500, 5000)):
        kind = g.rng.choice(["alg", "alg", "move", "quantum"]) if t[-1:].isalpha() else "alg"
        g.one("de", kind=kind, via=g.rng.choice(g.DE), txt=codes(t))
    nt(c, "long and deep algs", g.done(), exe)


@run("C05")
def c05(c):
    g = NGen(seed(), "C05")
    rng, lits = g.rng, []
    short = ["".join(map(chr, t)) for t in grammar(c, "MC_Chars", CHARS, 5, 10**9)]
    words = ["".join(map(chr, t)) for t in grammar(c, "MC_Words", WORDS, 4, 10**9)]
    for kind in ("alg", "move"):
        texts = rng.sample(words, pick(120, 1500)) + rng.sample(short, pick(120, 1500)) + [x for x in short if len(x) <= 1]
        for _ in range(pick(250, 3000)):
            a = [g.move()] if kind == "move" or rng.random() < 0.3 else g.any_alg()
            texts.append(g.spelled(a))
            texts.append(g.mutate(texts[-1], rng.choice([1, 1, 2])))
        lits += [(kind, t) for t in texts if len(t) < 2000]
    lits += [("move", g.spelled([m])) for m in some(g, list(g.sweep()), pick(500, 100000))]
    lits += [("move", f"{a}-{b}{f}2'") for a in (0, 1, 2, 3, 10, U32) for b in (0, 1, 2, 3, 10, U32) for f in ("Rw", "f")]
    g2 = NGen(seed(), "C05.scale")
    lits += [("move" if t.isidentifier() else "alg", t) for t in rng.sample([t for t in g2.long_texts() if len(t) < 9000], pick(60, 600))]
    lits += [("alg", t) for t in g2.deep_texts((26, 60))]
    events = gen_crate.literals(lits, rng)
    c.extra["literals"] = {"refused by the compiler": sum(not e["res"]["ok"] for e in events), "compiled": sum(e["res"]["ok"] for e in events)}
    ss = [{"sid": i + 1, "kind": "nt", "ev": events[at:at + 100]} for i, at in enumerate(range(0, len(events), 100))]
    res = vlib.validate("C05-literals", "TraceAlg", ss, heap="10g")
    c.conform("literals compiled into a program", res, ss)


@run("C22")
def c22(c):
    g = Gen(seed(), "C22")
    rng = g.rng
    built = puzzle_defs(c)
    model(c, "Once", "values made on first use: made once, one object each, every asker is answered", deep=False)
    puzzles, refs_of = [], []
    for i in range(pick(14, 60)):
        if i < 2:
            name = list(built)[i]
            d, refs = built[name]
            puzzles.append({"built": name, "def": d})
        else:
            d, refs = gen_kp.rand_def(rng, "big" if i == 5 else rng.choice(["small", "small", "medium", "many", "crowd"]))
            if i % 2:       # the same move in several spellings: the last in the file counts
                for m in rng.sample(d["moves"], min(2, len(d["moves"]))):
                    again = {"k": m["k"], "t": gen_kp.rand_tdata(rng, d["orbits"])}
                    while not again.get("kt") or again["kt"] in [x["kt"] for x in d["moves"]]:
                        again["kt"] = gen_kp.codes(gen_kp.respell(rng, m["k"]))
                    d["moves"].insert(rng.randint(0, len(d["moves"])), again)
            puzzles.append({"def": d})
        refs_of.append(refs)
        puzzles[-1]["ps"] = [gen_kp.rand_pdata(rng, d["orbits"]) for _ in range(2)]
        puzzles[-1]["ts"] = [gen_kp.rand_tdata(rng, d["orbits"]) for _ in range(2)]
    exe = gen_crate.bundle(puzzles)
    for i, p in enumerate(puzzles):
        for _ in range(pick(2, 10)):
            ev = []
            refs = refs_of[i]
            for _ in range(25):
                k, (a, b), r = rng.random(), (rng.randint(1, 3), rng.randint(1, 3)), rng.randint(1, 3)
                j = rng.randrange(2)
                if k < 0.15:
                    ev.append(("t_data", dict(r=r, data=p["ts"][j], via="bundled", b=100 * i + j)))
                elif k < 0.3:
                    ev.append(("p_data", dict(r=r, data=p["ps"][j], via="bundled", b=100 * i + j)))
                elif k < 0.4:
                    ev.append(("p_default", dict(r=r)))
                elif k < 0.5 and refs:
                    f, pre = rng.choice(refs)
                    ev.append(("t_move", dict(r=r, mv=gen_kp.mv(f, gen_kp.rand_amt(rng), pre))))
                elif k < 0.6:
                    ev.append(("t_alg", dict(r=r, alg=gen_kp.rand_alg(rng, refs, 3, 2))))
                elif k < 0.7:
                    ev.append(("t_comp", dict(r=r, a=a, b=b)))
                elif k < 0.8:
                    ev.append(("p_apply", dict(r=r, a=a, b=b)))
                elif k < 0.85:
                    ev.append(("info", {}))
                elif k < 0.9:
                    ev.append(("p_eq", dict(a=a, b=b)))
                elif k < 0.95:
                    ev.append(("t_eq", dict(a=a, b=b)))
                else:
                    ev.append(("t_back", dict(r=r, a=a, via="json")))
            for via in (["bundled", "json"] if "built" not in p else ["bundled"]):
                s = g.sess(p["def"], nt=3, np=3, nb=1, frame=gen_kp.cost(p["def"]) < 150, via=None)
                s.add("puzzle", via=via, **({"b": i} if via == "bundled" else {})).add("info")
                for op, kw in ev:
                    kw = dict(kw)
                    if via != "bundled" and kw.get("via") == "bundled":
                        kw["via"] = "json"
                    s.add(op, **kw)
    ss = g.out
    traced(c, "bundled and loaded values", "TraceKP", ss, vlib.run_script("C22-values", ss, exe))
    cells = [f"k{i}" for i in range(len(puzzles))] + [f"{x}{100 * i + j}" for i in range(len(puzzles)) for j in range(2) for x in "pt"]
    once = []
    for i in range(pick(24, 300)):
        rng.shuffle(cells)
        once.append([{"sid": i + 1, "kind": "once", "threads": 8, "cells": cells[:pick(20, 60)]}])
    traced(c, "one object per bundled value", "TraceOnce", [s for x in once for s in x], vlib.run_many("C22-once", once, exe))


def alg_bin():
    return build(("alg",), ("cli",))["alg"]


@run("C06")
def c06(c):
    env = {"ALG_BIN": alg_bin()}
    exe = exe_()
    g = NGen(seed(), "C06.all")
    texts = grammar(c, "MC_Words", WORDS, 4, 10**9)
    for t in g.rng.sample(texts, min(len(texts), pick(2500, 30000))):
        g.cli_text("".join(map(chr, t)))
    nt(c, "short texts", g.done(), exe, env=env)
    nt(c, "bytes that may not be text", NGen(seed(), "C06.bytes").cli_bytes(pick(150, 2000)).done(), exe, env=env)
    nt(c, "random algs", NGen(seed(), "C06").cli(pick(2500, 30000)).done(), exe, env=env)
    g = NGen(seed(), "C06.scale")
    for t in some(g, [t for t in g.long_texts() if len(t) < 100000], pick(200, 3000)):
        g.cli_text(t)
        g.flush()
    # more than fits into a pipe, a page, or an argument
    for n in pick((66000, 140000), (65535, 65536, 65537, 131072, 131073, 270000, 1050000)):
        for t in ("R" + " " * n + "U'", "//" + "x" * min(n, 140000) + "\nR", "R U' " * (min(n, 140000) // 5) + "F2", "\n" * (n // 8) + "R",
                  "(" + "D (R U)3 " * (min(n, 140000) // 9) + ")2", " " * n + "@", "R" + " " * n + ")"):
            for cmd in ("invert", "parse"):
                g.one("cli", cmd=cmd, via="stdin", txt=codes(t))
    nt(c, "long algs", g.done(), exe, env=env)


@run("C07")
def c07(c):
    exe = exe_()
    g = NGen(seed(), "C07.all")
    small = algs(c)
    for at in range(0, len(small), 8):      # each alg pushed whole and node by node, after and before another
        part = small[at:at + 8]
        g.ev.append(dict(op="b_new", r=1, via=g.rng.choice(["default", "none"]), alg=[]))
        for a in part:
            g.ev.append(dict(op="b_push", r=1, via="alg", alg=a))
            g.ev.append(dict(op="b_new", r=2, via="alg", alg=a))
            for n in a:
                g.ev.append(dict(op="b_push", r=2, via="node", alg=[n]))
            g.ev.append(dict(op="b_done", r=2))
        g.ev.append(dict(op="b_done", r=1))
        g.flush()
    nt(c, "every small alg pushed", g.done(), exe)
    _, res = model(c, "MC_Builder", "every history of pushes into two builders: the content is the concatenation")
    g = NGen(seed(), "C07.histories")
    for h in sampled(c, [json.loads(p[5:]) for p in res.printed if p.startswith("HIST ")], pick(4000, 40000)):
        g.ev += h
        g.flush()
    nt(c, "histories of the specification", g.done(), exe)
    nt(c, "random histories", NGen(seed(), "C07").builders(pick(3000, 20000)).done(), exe)
    nt(c, "repetitions and reversals pushed", NGen(seed(), "C07.repeated").repeated_pushes(pick(600, 4000)).done(), exe)
    g = NGen(seed(), "C07.scale")
    for n in pick(g.SIZES[::2] + [3000], g.SIZES + [2000, 3000, 5000]):
        g.many_pushes(n)
    nt(c, "many and large pushes", g.done(), exe)


@run("C08")
def c08(c):
    exe = exe_()
    tiny_group(c, exe, False)
    histories(c, "MC_SessionGroup", exe, pick(1500, 20000), 0)
    kp(c, "random puzzles", Gen(seed(), "C08").group_laws(pick(400, 4000), pick(8, 60)), exe)


@run("C09")
def c09(c):
    exe = exe_()
    tiny_group(c, exe, True)
    histories(c, "MC_SessionAction", exe, pick(1500, 30000), 0)
    kp(c, "random puzzles", Gen(seed(), "C09").pattern_action(pick(500, 4000), pick(8, 60)), exe)


@run("C10")
def c10(c):
    exe = exe_()
    model(c, "MC_Group", "Power is repeated composition, and its closed form agrees with the definition")
    kp(c, "the work of large amounts", Gen(seed(), "C10.cost").cost(pick(60, 600), pick(6, 40)), exe)
    kp(c, "random puzzles", Gen(seed(), "C10").repetition(pick(400, 3000), pick(6, 60)), exe)


def eval_universe(c, exe, op):
    lines, _ = model(c, "MC_Eval", "every small alg: evaluation is compositional, refuses undefined moves, inverses invert")
    d, algs = gen_kp.with_texts(lines[0]), lines[1:]
    g = Gen(seed(), c.prop)
    for at in range(0, len(algs), 25):
        s = g.sess(d, nt=1, np=2, nb=0, frame=False, errs=True)
        for a in algs[at:at + 25]:
            s.add(op, r=1, alg=a)
            if op == "t_alg":
                s.add("p_alg", r=2, a=1, alg=a)
    return kp(c, "every small alg", g.out, exe)


@run("C11")
def c11(c):
    exe = exe_()
    eval_universe(c, exe, "t_alg")
    kp(c, "random puzzles and algs", Gen(seed(), "C11").evaluation(pick(500, 5000)), exe)
    kp(c, "families that invert in their own way", Gen(seed(), "C11.squares").squares(pick(150, 2000)), exe)
    kp(c, "values in quick succession, puzzles side by side", Gen(seed(), "C11.next").succession(pick(120, 1500)), exe)
    kp(c, "so many puzzles that a counter comes round", Gen(seed(), "C11.round").come_round(
        [0, 1, 126, 127, 128, 254, 255, 256, 511, 1023] + pick([], [4095, 32767, 65534, 65535, 65536])), exe)
    kp(c, "long and deep algs, many questions", Gen(seed(), "C11.scale").evaluation_scale(pick((65, 129, 257, 700, 1500), (64, 65, 100, 128, 129, 255, 256, 257, 511, 700, 1025, 3000, 6000)),
                                                                                         pick((26, 65, 130, 260), (25, 33, 64, 65, 100, 129, 200, 257, 300, 500))), exe)


@run("C12")
def c12(c):
    exe = exe_()
    eval_universe(c, exe, "t_algs")
    kp(c, "random puzzles and algs", Gen(seed(), "C12").inverse_restores(pick(350, 4000)), exe)
    kp(c, "long and deep algs, many questions", Gen(seed(), "C12.scale").evaluation_scale(pick((65, 129, 257, 700, 1500), (64, 65, 100, 128, 129, 255, 256, 257, 511, 700, 1025, 3000)),
                                                                                         pick((26, 65, 130, 260), (25, 33, 64, 65, 100, 129, 200, 257, 300, 500)), "t_algs"), exe)


@run("C13")
def c13(c):
    exe = exe_()
    lines, _ = model(c, "MC_Lookup", "every table of amounts 1, 2, -1, -2: the order of preference")
    g = Gen(seed(), "C13.tables")
    for u in lines:
        d = gen_kp.with_texts(u["def"])
        s = g.sess(d, nt=1, np=0, nb=0, errs=True, via=g.rng.choice(["data", "json", "serde"]))
        for n in (-3, -2, -1, 0, 1, 2, 3):
            s.add("t_move", r=1, mv={"t": "move", "fam": u["fam"], "pre": u["pre"], "amt": n})
        other = [{"t": "move", "fam": u["fam"] + [97], "pre": u["pre"], "amt": 1},
                 {"t": "move", "fam": u["fam"], "pre": [[51]], "amt": -1},
                 {"t": "move", "fam": u["fam"], "pre": [[50], [51]], "amt": 2},
                 {"t": "move", "fam": u["fam"][:-1] or [114], "pre": u["pre"], "amt": 1}]
        for m in other + gen_kp.near_keys(g.rng, u["fam"], u["pre"]):
            s.add("t_move", r=1, mv=m)
    kp(c, "every lookup table", g.out, exe)
    kp(c, "random tables", Gen(seed(), "C13").lookup(pick(500, 5000)), exe)
    kp(c, "large tables", Gen(seed(), "C13.scale").lookup_scale(pick((33, 65, 130, 300), (33, 64, 65, 128, 129, 255, 257, 300, 513, 1000))), exe)


@run("C14")
def c14(c):
    exe = exe_()
    lines, _ = model(c, "MC_Defs", "every small system of derived moves: acceptance equals unfolding, in any order")
    g = Gen(seed(), "C14.systems")
    for d in sampled(c, lines, pick(6000, 40000)):
        d = gen_kp.with_texts(d)
        g.rng.shuffle(d["moves"])
        g.rng.shuffle(d["derived"])
        s = g.sess(d, nt=1, np=0, nb=0, errs=True, via=g.rng.choice(["data", "data", "json"]))
        if gen_kp.accepted(d):
            for m in d["derived"]:
                s.add("t_move", r=1, mv=m["k"]).add("t_move", r=1, mv=gen_kp.neg(m["k"]))
    kp(c, "every small system of derived moves", g.out, exe)
    kp(c, "random systems", Gen(seed(), "C14").acceptance(pick(800, 8000), pick((2, 3, 10, 33, 60, 65, 129, 257, 300, 600), (2, 3, 10, 31, 33, 60, 64, 65, 128, 129, 200, 255, 256, 257, 300, 513, 1030))), exe)


@run("C15")
def c15(c):
    exe = exe_()
    model(c, "MC_Group", "patterns with moduli stay patterns, on every pattern of small puzzles")
    g = Gen(seed(), "C15")
    kp(c, "every number of orientations, modulus and orientation",
       g.orientation_mod(range(1, 108), pick("some", "all")), exe)
    kp(c, "moduli that do not come with the default pattern", Gen(seed(), "C15.other").orientation_mod(
        range(1, 108), pick("some", "all"), ("data", "data", "slots")), exe)
    kp(c, "orbits of few pieces", Gen(seed(), "C15.few").orientation_mod(
        range(1, 108), "some", ("default", "data", "slots"), pick((1, 2), (1, 2, 3, 4, 5, 8, 9))), exe)
    kp(c, "bounds on the number of orientations", Gen(seed(), "C15b").orientation_bounds(), exe)


@run("C16")
def c16(c):
    exe = exe_()
    model(c, "MC_Group", "data describes exactly one value, on every value of small puzzles")
    kp(c, "random puzzles", Gen(seed(), "C16").data_round_trip(pick(400, 4000), pick(6, 40)), exe)


@run("C17")
def c17(c):
    exe = exe_()
    kp(c, "malformed data and definitions", Gen(seed(), "C17").malformed(pick(700, 8000)), exe)
    kp(c, "every flaw at every place", Gen(seed(), "C17c").every_flaw(), exe)
    kp(c, "malformed JSON", Gen(seed(), "C17b").malformed_text(pick(400, 6000)), exe)


@run("C18")
def c18(c):
    exe = exe_()
    histories(c, "MC_SessionEqual", exe, pick(1000, 20000), 0)
    kp(c, "every single difference", Gen(seed(), "C18.diff").differences(), exe)
    kp(c, "differences that balance", Gen(seed(), "C18.bal").balanced_differences(pick(66, 600)), exe)
    kp(c, "random puzzles", Gen(seed(), "C18").equality(pick(250, 3000)), exe)


@run("C19")
def c19(c):
    exe = exe_()
    histories(c, "MC_SessionBuffer", exe, pick(1500, 30000), pick(400, 8000))
    kp(c, "random puzzles and histories", Gen(seed(), "C19").buffers(pick(500, 5000)), exe)
    kp(c, "many applications", Gen(seed(), "C19.scale").buffers_scale(pick((130, 300, 1200, 2600), (130, 260, 300, 520, 1200, 4200, 10000)),
                                                                     [63, 64, 65, 127, 128, 255, 256, 257, 511, 999, 1000, 1001, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70001]
                                                                     + pick([200001], [200001, 1000003, 2**24 + 1])), exe)


def cube(c, part, sessions, exe):
    name = f"{c.prop}-{part}".replace(" ", "_")[:60]
    rec = vlib.run_script(name, sessions, exe)
    res = vlib.validate(name, "TraceCube", rec, heap="8g")
    c.conform(part, res, rec, scripts=sessions)


@run("C20")
def c20(c):
    exe = exe_()
    defs, _ = model(c, "MC_Cube", "turning a rigid cube is applying its turn's transformation; only possible patterns appear")
    text = lambda x: "".join(map(chr, x))
    names = lambda d: [(text(m["k"]["fam"]), [text(p) for p in m["k"]["pre"]]) for m in d["moves"]]
    defs = {d["name"]: gen_kp.with_texts(d) for d in defs}
    # the puzzles against the definition that follows from the geometry
    g = Gen(seed(), "C20")
    for puz, d in defs.items():
        refs = names(d)
        s = g.sess(d, nt=1, np=2, nb=0, frame=True, via=puz).add("info").add("p_default", r=1)
        for f, pre in refs:
            for n in [*range(-5, 6), 12, -12, 2**31 - 1, -(2**31 - 1)]:
                s.add("t_move", r=1, mv=gen_kp.mv(f, n, pre)).add("p_apply", r=2, a=1, b=1)
        for _ in range(pick(80, 400)):
            s = g.sess(d, nt=2, np=2, nb=1, frame=True, via=puz)
            for _ in range(pick(12, 25)):
                s.add("t_alg", r=g.rng.randint(1, 2), alg=gen_kp.rand_alg(g.rng, refs, g.rng.choice([1, 2, 5, 12]), 3))
                s.add("p_alg", r=2, a=2, alg=gen_kp.rand_alg(g.rng, refs, g.rng.choice([1, 2, 5]), 2))
                s.add(g.rng.choice(["tb_apply", "pb_apply"]), r=1, b=g.rng.randint(1, 2))
                s.add("p_apply", r=1, a=1, b=g.rng.randint(1, 2))
    kp(c, "the puzzles and the definitions derived from the geometry", g.out, exe)
    # the puzzles against rigid cubies, turn by turn
    out, rng = [], random.Random(f"{seed()}/C20/walks")

    def walk(puz, np=2):
        out.append({"sid": len(out) + 1, "kind": "kp", "puz": puz, "def": defs[puz], "nt": 1, "np": np, "nb": 0, "frame": False, "errs": False,
                    "ev": [{"op": "puzzle", "via": puz}]})
        return out[-1]["ev"]

    def small(alg):      # turn by turn, a large repetition is not played
        for n in alg:
            if n["t"] == "grp":
                n["amt"] = rng.randint(-4, 4)
            for k in ("alg", "a", "b"):
                if k in n:
                    small(n[k])
        return alg
    for puz, d in defs.items():
        refs = names(d)
        one = [gen_kp.mv(f, n, pre) for f, pre in refs for n in (1, -1, 2)]
        pairs = [[a, b] for a in one for b in one]
        for at in range(0, len(pairs), 200):
            ev = walk(puz)
            ev.append({"op": "p_default", "r": 1})
            for p in pairs[at:at + 200]:
                ev.append({"op": "p_alg", "r": 2, "a": 1, "alg": p})
        for _ in range(pick(60, 400)):
            ev = walk(puz)
            for _ in range(100):
                k = rng.random()
                if k < 0.6:
                    f, pre = rng.choice(refs)
                    ev.append({"op": "p_move", "r": rng.randint(1, 2), "a": rng.randint(1, 2),
                               "mv": gen_kp.mv(f, gen_kp.rand_amt(rng), pre)})
                elif k < 0.75:
                    ev.append({"op": "p_alg", "r": rng.randint(1, 2), "a": rng.randint(1, 2), "alg": small(gen_kp.rand_alg(rng, refs, rng.choice([1, 2, 5]), 3))})
                elif k < 0.95:
                    ev.append({"op": "t_alg", "r": 1, "alg": small(gen_kp.rand_alg(rng, refs, rng.choice([1, 2, 5, 20]), 2))})
                else:
                    ev.append({"op": "p_eq", "a": 1, "b": 2})
    cube(c, "turn by turn on rigid cubies", out, exe)


NOT_SHAREABLE = ("cannot be sent between threads safely", "cannot be shared between threads safely")


def traced(c, part, module, sessions, rec):
    name = f"{c.prop}-{part}".replace(" ", "_")[:60]
    rec = vlib.flatten(rec)
    res = vlib.validate(name, module, rec, heap="8g")
    c.conform(part, res, rec, scripts=sessions)


def puzzle_defs(c):
    defs, _ = model(c, "MC_Cube", "the definitions that follow from the geometry", deep=False)
    out = {}
    for d in defs:
        d = gen_kp.with_texts(d)
        out[d["name"]] = (d, [("".join(map(chr, m["k"]["fam"])), ["".join(map(chr, p)) for p in m["k"]["pre"]]) for m in d["moves"]])
    return out


@run("C21")
def c21(c):
    drive = exe_()
    try:
        exe = build(("vthreads",))["vthreads"]
    except ToolError as e:
        if not any(x in str(e) for x in NOT_SHAREABLE):
            raise
        # what users share can no longer be shared: the specification's sends are not even expressible
        c.violate("sharing between threads", {"compiler": str(e)[:3000]})
        return
    model(c, "Once", "values made on first use: made once, one object each, every asker is answered", deep=False)
    # handles: every short schedule, random long ones
    defs, res = model(c, "MC_Handles", "every schedule of handle operations of two threads: counts, lifetime, isolation")
    todo = sampled(c, [json.loads(p[5:]) for p in res.printed if p.startswith("HIST ")], pick(6000, 60000))
    short = len(todo)
    _, res = model(c, "MC_HandlesSim", "random walks of 30 handle operations of three threads", module="MC_Handles", deep=False,
                   extra=("-simulate", f"num={pick(25, 500)}", "-depth", "31", "-seed", str(seed())))
    todo += [json.loads(p[5:]) for p in res.printed if p.startswith("HIST ")]
    ss = [{"sid": i + 1, "kind": "hnd", "defs": defs, "threads": 3, "slots": 2 if i < short else 3, "ev": h} for i, h in enumerate(todo)]
    traced(c, "handles on real threads", "TraceHandles", ss, vlib.run_script("C21-handles", ss, exe))
    # registers that travel between threads
    defs, res = model(c, "MC_Sched", "random walks of 30 operations on three threads", deep=False,
                      extra=("-simulate", f"num={pick(20, 500)}", "-depth", "31", "-seed", str(seed())))
    ss = []
    for i, h in enumerate(json.loads(p[5:]) for p in res.printed if p.startswith("HIST ")):
        s = Sess(i + 1, gen_kp.with_texts(json.loads(json.dumps(defs[h["d"] - 1]))), nt=2, np=2, nb=2, frame=True, via="data").s
        s.update(kind="sch", threads=3)
        s["ev"] += h["ev"]
        ss.append(s)
    traced(c, "operations on scheduled threads", "TraceKP", ss, vlib.run_script("C21-sched", ss, exe))
    # threads that run freely over shared values
    ss = Gen(seed(), "C21").threads(pick(60, 1000), rep=pick(40, 200))
    traced(c, "free threads over shared values", "TraceKP", ss, vlib.run_script("C21-free", ss, exe))
    ss = Gen(seed(), "C21.deep").threads_deep(pick([(300, 0, 0, 20), (60, 0, 0, 60), (0, 200, 0, 12), (0, 0, 200, 20), (100, 30, 60, 12)],
                                                   [(n, 0, 0, 8000 // n) for n in (40, 100, 200, 300, 400)] + [(0, n, 0, 3000 // n) for n in (40, 200, 700)]
                                                   + [(0, 0, n, 6000 // n) for n in (40, 100, 300)] + [(100, 40, 60, 20)] * 3))
    traced(c, "free threads in deep and long algs", "TraceKP", ss, vlib.run_script("C21-deep", ss, exe))
    ss = NGen(seed(), "C21").threads(pick(60, 1000), rep=pick(40, 200))
    traced(c, "free threads over shared algs", "TraceAlg", ss, vlib.run_script("C21-freealg", ss, exe))
    kp(c, "so many puzzles that a counter comes round", Gen(seed(), "C21.round").come_round([127, 255, 256, 511] + pick([], [65535])), drive)
    # first use: every script in a process of its own, all threads starting at once
    puz = puzzle_defs(c)
    once, first, algs_ = [], [], []
    for i in range(pick(16, 200)):
        once.append([{"sid": i + 1, "kind": "once", "threads": 8, "cells": ["3x3x3", "2x2x2"]}])
        g = Gen(seed(), f"C21.first{i}")
        name = list(puz)[i % len(puz)]
        g.sid = i
        first.append(g.first_use(name, *puz[name]))
        n = NGen(seed(), f"C21.first{i}")
        n.sid = i
        algs_.append(n.threads(1, length=4))
    traced(c, "first use: one object per puzzle", "TraceOnce", [s for x in once for s in x], vlib.run_many("C21-once", once, exe))
    traced(c, "first use of the built-in puzzles", "TraceKP", [s for x in first for s in x], vlib.run_many("C21-first", first, exe))
    traced(c, "first use of the notation", "TraceAlg", [s for x in algs_ for s in x], vlib.run_many("C21-firstalg", algs_, exe))


    interpreted(c, "interpreted threads over shared values", "TraceKP", Gen(seed(), "C21.miri").threads_tiny(pick(16, 200)), "vthreads")
    n = NGen(seed(), "C21.miri")
    interpreted(c, "interpreted threads over shared algs", "TraceAlg", n.threads(pick(8, 100), length=2, programs=3), "vthreads")


def interpreted(c, part, module, sessions, bin_):
    """The sessions under Miri, each with a random schedule of its own; what it cannot decide is recorded as not covered."""
    rec, undecided = vlib.run_miri(f"{c.prop}-{module}-miri", [[s] for s in sessions], bin_)
    c.extra[f"{part}: undecided by the interpreter"] = {"sessions": len(undecided), "first": undecided[:1]}
    if rec:
        traced(c, part, module, sessions, rec)


@run("C23")
def c23(c):
    exe = exe_()
    kp(c, "every kind of refusal", Gen(seed(), "C23").errors(pick(500, 5000)), exe)
    nt(c, "refused texts, errors made by users", NGen(seed(), "C23").refusals(pick(1500, 20000)).done(), exe)


@run("C24")
def c24(c):
    exe = exe_()
    histories(c, "MC_SessionSlot", exe, pick(2000, 30000), pick(400, 8000))
    kp(c, "every slot", Gen(seed(), "C24.every").every_slot(), exe)
    kp(c, "random layouts", Gen(seed(), "C24").slots(pick(400, 4000), pick(8, 60)), exe)


@run("C25")
def c25(c):
    import gen_f2l
    exe = build(("f2lfast",), ("f2l",))["f2lfast"]
    model(c, "MC_F2L", "every sequence of steps from a solved cube keeps the cross and the other slots")
    ss = gen_f2l.sessions(exe, random.Random(f"{seed()}/C25"), pick(300, 3000), pick(4, 5))
    c.extra["runs"] = {"refused": sum(not s["ev"][0]["res"]["ok"] for s in ss), "solutions": sum(s["ev"][0]["res"]["printed"] for s in ss),
                       "with solutions": sum(s["ev"][0]["res"]["printed"] > 0 for s in ss), "in all": len(ss)}
    c.extra["runs"]["no end within the limit"] = pick(300, 3000) - len(ss)
    if len(ss) < pick(300, 3000) // 2:
        c.violate("runs of the example", {"no end within 60 s": pick(300, 3000) - len(ss)})
    res = vlib.validate("C25-runs", "TraceF2L", ss)
    # runs that are explained by the known finding, and by nothing else
    known = [p for p in res.printed if p.startswith("KNOWN ")]
    c.extra["runs"]["explained by the known finding"] = len(known)
    if not known:
        c.findings = []
    c.conform("runs of the example", res, ss)


def main():
    prop = sys.argv[1]
    try:
        c = Check(prop)
        RUNS[prop](c)
        return c.finish()
    except ToolError as e:
        print(f"TOOL ERROR in the check of {prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
