"""Scrambles for the f2lfast example, and what it prints for them."""
import random, subprocess, urllib.parse
from concurrent.futures import ThreadPoolExecutor
from gen_kp import codes, mv

FACE = {"K": (("R", 1), ("F", -1)), "J": (("R", -1), ("B", 1)), "H": (("L", -1), ("F", 1)), "I": (("L", 1), ("B", -1))}
SLOTS = "KJHI"      # in the order of F2L.tla


def text(ms):
    return " ".join(f + {1: "", -1: "'", 2: "2"}[n] for f, n in ms)


def trigger(s, face, x):
    f, d = FACE[s][face]
    return [(f, d), ("U", 2 if x == 2 else d * x), (f, -d)]


def undo(ms):
    return [(f, n if n == 2 else -n) for f, n in reversed(ms)]


def dress(rng, ms):
    """The same moves written another way."""
    k = rng.random()
    if k < 0.5 or not ms:
        return text(ms)
    i, j = sorted((rng.randint(0, len(ms)), rng.randint(0, len(ms))))
    a, b, c = ms[:i], ms[i:j], ms[j:]
    if k < 0.65:
        return f"{text(a)} ({text(undo(b))})' {text(c)}"
    if k < 0.75:
        return f"{text(a)} // a comment\n{text(b)} . {text(c)}"
    if k < 0.85:
        return f"({text(a)} {text(b)} {text(c)})"
    if k < 0.95:
        return f"{text(a)} (Rw2 Rw2) [U: x4] {text(b)} 2R L' M' 2R' L M  {text(c)}"
    return f"x y' (y x')1 {text(a)} [{text(b)}: U2] [{text(b)}: U2]' {text(b)} {text(c)}"


def scramble(rng, most):
    """(text, path, depth): a scramble made of triggers, and a way to undo it."""
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, most])
    slots = [rng.choice(SLOTS)] * n if n > 3 or rng.random() < 0.4 else [rng.choice(SLOTS) for _ in range(n)]
    path = [{"auf": rng.choice([0, 1, 2, -1]), "t": (s, rng.randint(0, 1), rng.choice([1, 2, -1]))} for s in slots]
    out = []
    for st in path:
        out += ([("U", st["auf"])] if st["auf"] else []) + trigger(*st["t"])
    last = rng.choice([0, 0, 1, 2, -1])
    out += [("U", last)] if last else []
    shown = [{"auf": [mv("U", st["auf"])] if st["auf"] else [], "t": [SLOTS.index(st["t"][0]) + 1, st["t"][1] + 1, st["t"][2]]} for st in path]
    return dress(rng, undo(out)), shown, max(1, n) if rng.random() < 0.8 else max(1, n - 1)


def other(rng):
    """A scramble that need not leave the cross, or be one."""
    k = rng.random()
    faces = ["U", "R", "F", "L", "B", "D"]
    if k < 0.35:
        return text([(rng.choice(faces), rng.choice([1, -1, 2])) for _ in range(rng.randint(1, 12))])
    if k < 0.5:      # the cross pieces in place, one or two of them flipped or turned
        return rng.choice(["R' D' F D2 R D F'", "D", "D2", "D'", "F2 U' R' L F2 L' R U' F2", "F U' R U", "R D R' D'", "y", "y2 U", "x2", "z2", "E", "u", "d", "M2 U2 M2 U2",
                           "R2 L2 U2 R2 L2 U2", "F2 B2 D2 F2 B2", "M E M' E'", "R L' F2 R' L D2", "Rw2 F2 Rw2 U Rw2"])
    if k < 0.6:
        s = text([(rng.choice(faces), rng.choice([1, -1, 2])) for _ in range(5)])
        return rng.choice([s + " )", s + " X", "(" + s, s + " R+", s + "  3Uw", "[" + s, s + " ' ", s + " Uv2", s + " Tw"])
    if k < 0.8:      # conjugated back: slot pieces out of place in all ways
        s = rng.choice(SLOTS)
        return text(sum([trigger(rng.choice(SLOTS), rng.randint(0, 1), rng.choice([1, 2, -1])) + [("U", rng.choice([1, 2, -1]))] for _ in range(rng.randint(1, 14))], []))
    # a permutation or twist of what is above or in the slots
    return rng.choice(["R U R' U R U2 R'", "R U R' U' R' F R2 U' R' U' R U R' F'", "[R, U]3", "[R' D' R D, U]", "(R U R' U')6", "(R U R' U')2", "[U: [R, U']2]",
                       "R2 U R U R' U' R' U' R' U R'", "(R U R' U')3 U (R U R' U')3 U'", "(F' U' F U)2", "(L' U' L U)3", "[L, U]3", "[B' U' B, U2]", "M2 U M2 U2 M2 U M2"])


def run(exe, text, args, limit=60):
    try:
        r = subprocess.run([exe, "--scramble=" + text] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit)
        out, rc = r.stdout.decode("utf8"), r.returncode
    except subprocess.TimeoutExpired:
        return None
    sols, slots, cur = [], [], None
    for line in out.split("\n"):
        if line.startswith("Initially solved slot: "):
            slots.append(codes(line[len("Initially solved slot: "):]))
        elif line.startswith("Short: "):
            cur = {"short": codes(line[7:]), "long": [], "setup": [], "alg": []}
            sols.append(cur)
        elif line.startswith("Long: "):
            cur["long"] = codes(line[6:])
        elif line.startswith("https://"):
            q = dict(urllib.parse.parse_qsl(urllib.parse.urlsplit(line).query, keep_blank_values=True))
            cur["setup"], cur["alg"] = codes(q.get("setup-alg", "")), codes(q.get("alg", ""))
    return {"ok": rc == 0, "slots": slots, "sols": sols[:25], "printed": len(sols)}


def sessions(exe, rng, n, most):
    todo = []
    for i in range(n):
        if i % 3 < 2:
            s, path, depth = scramble(rng, most)
        else:
            s, path, depth = other(rng), [], rng.choice([1, 2, 2])
        args = ["--max-depth", str(depth)]
        if rng.random() < 0.5:
            args.append("--no-randomize")
        if rng.random() < 0.3:
            args.append("--no-prefer-immediate-slots")
        if rng.random() < 0.2:
            args += ["--start-depth", str(max(1, depth - 1))]
        todo.append((s, path, depth, args))
    with ThreadPoolExecutor(8) as pool:
        res = list(pool.map(lambda x: run(exe, x[0], x[3]), todo))
    out = []
    for i, ((s, path, depth, args), r) in enumerate(zip(todo, res)):
        if r is not None:
            out.append({"sid": i + 1, "kind": "f2l", "ev": [{"op": "f2l", "scramble": codes(s), "text": s, "args": args, "path": path, "depth": depth, "res": r}]})
    return out
