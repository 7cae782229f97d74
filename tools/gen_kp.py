"""Seeded generators of puzzle sessions (scripts for the real code, later validated by TraceKP)."""
import json, random, re

MAXI = 2**31 - 1
SLASH, USQ, DSQ = "_SLASH_", "U_SQ_", "D_SQ_"


def codes(s):
    return [ord(c) for c in s]


def mv(fam, amt=1, pre=()):
    return {"t": "move", "fam": codes(fam), "pre": [codes(str(p)) for p in pre], "amt": amt}


def grp(alg, amt):
    return {"t": "grp", "alg": alg, "amt": amt}


def comm(a, b):
    return {"t": "comm", "a": a, "b": b}


def conj(a, b):
    return {"t": "conj", "a": a, "b": b}


PAUSE, NL = {"t": "pause"}, {"t": "nl"}


def cmt(s):
    return {"t": "cmt", "txt": codes(s)}


def neg(m):
    return dict(m, amt=-m["amt"])


# --------------------------------------------------------------- plain text of algs (for JSON input)

def amount_text(n):
    return "" if n == 1 else "'" if n == -1 else f"{-n}'" if n < 0 else str(n)


def s_(cs):
    return "".join(chr(c) for c in cs)


def move_text(m):
    pre = "-".join(s_(p) for p in m["pre"])
    if s_(m["fam"]) == SLASH and not pre and m["amt"] == 1:
        return "/"
    return pre + s_(m["fam"]) + amount_text(m["amt"])


def is_tuple(n):
    return (n["t"] == "grp" and n["amt"] == 1 and len(n["alg"]) == 2
            and all(x["t"] == "move" and not x["pre"] for x in n["alg"])
            and s_(n["alg"][0]["fam"]) == USQ and s_(n["alg"][1]["fam"]) == DSQ)


def node_text(n):
    t = n["t"]
    if t == "move":
        return move_text(n)
    if t == "pause":
        return "."
    if t == "nl":
        return "\n"
    if t == "cmt":
        return "//" + s_(n["txt"])
    if t == "grp":
        if is_tuple(n):
            return f"({n['alg'][0]['amt']}, {n['alg'][1]['amt']})"
        return "(" + alg_text(n["alg"], True) + ")" + amount_text(n["amt"])
    sep = ", " if t == "comm" else ": "
    return "[" + alg_text(n["a"], True) + sep + alg_text(n["b"], True) + "]"


def alg_text(alg, enclosed=False):
    out, prev = "", None
    for n in alg:
        if prev is not None:
            if prev["t"] == "cmt":
                out += "" if n["t"] == "nl" else "\n"
            elif prev["t"] != "nl" and n["t"] != "nl":
                out += " "
        out += node_text(n)
        prev = n
    if enclosed and alg and alg[-1]["t"] == "cmt":
        out += "\n"
    return out


# ----------------------------------------------------------------------------------------- puzzles

def rand_perm(rng, n, kind=None):
    p = list(range(n))
    kind = kind or rng.choice(["full", "full", "few", "cycle", "id"])
    if kind == "full":
        rng.shuffle(p)
    elif kind == "few":
        for _ in range(rng.randint(1, 3)):
            if n >= 2:
                i, j = rng.sample(range(n), 2)
                p[i], p[j] = p[j], p[i]
    elif kind == "cycle":
        q = list(range(n))
        rng.shuffle(q)
        for a, b in zip(q, q[1:] + q[:1]):
            p[a] = b
    return p


def rand_tdata(rng, orbits, kind=None):
    out = []
    for o in orbits:
        dk = rng.choice(["rand", "rand", "max", "zero"])
        d = [0 if dk == "zero" else o["no"] - 1 if dk == "max" else rng.randrange(o["no"]) for _ in range(o["np"])]
        out.append({"o": o["n"], "p": rand_perm(rng, o["np"], kind), "d": d})
    return out


def id_tdata(orbits):
    return [{"o": o["n"], "p": list(range(o["np"])), "d": [0] * o["np"]} for o in orbits]


def divisors(n):
    return [m for m in range(1, n + 1) if n % m == 0]


def rand_pdata(rng, orbits, hm=None):
    out = []
    for o in orbits:
        use = rng.random() < 0.6 if hm is None else hm
        ms = [rng.choice([0] + divisors(o["no"])) if use else 0 for _ in range(o["np"])]
        xs = [rng.choice([0, (m or o["no"]) - 1, rng.randrange(m or o["no"])]) for m in ms]
        pk = rng.choice(["id", "perm", "rep", "bytes"])
        n = o["np"]
        p = (list(range(n)) if pk == "id" else rand_perm(rng, n, "full") if pk == "perm"
             else [rng.randrange(max(1, n // 2)) for _ in range(n)] if pk == "rep"
             else [rng.choice([0, 1, 254, 255, rng.randrange(256)]) for _ in range(n)])
        out.append({"o": o["n"], "p": p, "x": xs, "m": ms if use else [], "hm": use})
    return out


def solved_pdata(orbits):
    return [{"o": o["n"], "p": list(range(o["np"])), "x": [0] * o["np"], "m": [], "hm": False} for o in orbits]


ORBIT_NAMES = ["EDGES", "CORNERS", "CENTERS", "A", "", "orbit 4", "ÉTÉ", "x\"y", "o_2", "EDGES2", "Edges", "EDGE", "a",
               " A", "A ", "été"]


def some_keys(rng, n):
    """Keys of a move table: different families, or amounts and prefixes of one family."""
    out = []
    for _ in range(60):
        if len(out) == n:
            break
        k = mv(rng.choice(["R", "R", "R", "U", "_SLASH_", "Rw", "r"]), rng.choice([1, 1, -1, 2, -2, 0, 3]), rng.choice([(), (), (), ("1",), ("2",), ("1", "2")]))
        if rng.random() < 0.3 and out:
            k = dict(out[0], amt=-out[0]["amt"])
        if k not in out and not (k["fam"] == codes("_SLASH_") and k["amt"] != 1):
            out.append(k)
    return out


def similar(rng, k, chars, longest=90):
    """k different texts that are alike: long, with one difference somewhere, or one more or fewer character."""
    base = "".join(rng.choice(chars) for _ in range(rng.randint(2, rng.choice([6, 20, 40, longest]))))
    out = [base]
    while len(out) < k:
        b = list(rng.choice(out))
        i = rng.choice([0, len(b) - 1, len(b) // 2, rng.randrange(len(b))]) if b else 0
        how = rng.random()
        if how < 0.6 and b:
            b[i] = rng.choice(chars)
        elif how < 0.7 and b:
            b[i] = b[i].swapcase()[:1]
        elif how < 0.8:
            b.insert(i, rng.choice(chars))
        elif how < 0.9 and len(b) > 1:
            del b[i]
        else:
            j = rng.randrange(len(b) or 1)
            if b:
                b[i], b[j] = b[j], b[i]
        t = "".join(b)
        if t and t not in out:
            out.append(t)
    rng.shuffle(out)
    return out


NAME_CHARS = "ABCXYZabcxyz_ 0123456789" + "éÜßñ" + "中文字" + "🙂e\u0301"
FAM_CHARS = "ABCDRUFabcdruf_"


def odd_name(rng):
    """A name of some length, with characters of one to four bytes, space around it, or what JSON writes in another way."""
    edge = lambda: rng.choice([" ", "\n", "\t", "\u00a0", "  ", "\r\n", "\ufeff", "\"", "\\", "\0", "/", "'"]) if rng.random() < 0.15 else ""
    return edge() + "".join(rng.choice(NAME_CHARS) for _ in range(rng.choice([0, 1, 5, 30, 100, 300]))) + edge()


LARGE = ("big", "host", "vast")
NP_SMALL = [0, 1, 2, 3, 4, 5]
NO_ALL = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 30, 36, 48, 60, 64, 72, 84, 90, 96, 97, 100, 101, 105, 106, 107]


def rand_orbits(rng, size="small", names=None, no=None):
    k = {"many": rng.randint(6, 10), "crowd": rng.randint(17, 40), "host": rng.choice([256, 257, 300]), "vast": 134}.get(size) or rng.choice([1, 1, 2, 2, 3, 4])
    if names is None and size in ("crowd", "host", "vast"):
        names = ORBIT_NAMES + [f"o{i}" for i in range(k)]
    elif names is None and size != "host" and rng.random() < 0.3:
        names = similar(rng, k, NAME_CHARS) if rng.random() < 0.7 else list(dict.fromkeys(odd_name(rng) for _ in range(k)))
    names = rng.sample(names or ORBIT_NAMES, min(k, len(names or ORBIT_NAMES)))
    out = []
    for n in names:
        np_ = (rng.choice(NP_SMALL) if size in ("small", "many", "crowd", "host") else rng.choice([255, 255, 254, 250]) if size == "vast" else rng.choice([0, 1, 7, 12, 24, 30, 60])
               if size == "medium" else rng.randint(6, 70) if size == "odd" else rng.choice([255, 254, 128, 200, 0, 17]))
        out.append({"n": n, "np": np_, "no": rng.choice(no or (NO_ALL if rng.random() < 0.6 else [1, 2, 3, 4, 6]))})
    return out


FAMS = ["R", "U", "F", "L", "D", "B", "M", "x", "y", "Rw", "r", "BR", "Uv", "UL_b", "_a", "A", "z_", "SLICE",
        "UR_PLUS_", "ALL_PLUS_", "BR_PLUSPLUS_", "R_PLUSPLUS_", "_PLUS_", "U_SQ", "_SLASH"]
PREFIXES = [(), (), (), (), (1,), (2,), (3,), (0,), (4294967295,), (2, 3), (1, 2), (3, 2), (1, 1), (0, 4294967295)]
AMTS = [1, 1, 1, 1, -1, -1, 2, 2, -2, 3, -3, 0, 4, 5, 7, -7, 12, 100, 105, -105, 1260, 65536, 2**30, 2**30 + 1,
        MAXI, MAXI - 1, -MAXI, -(2**30)]


def rand_quanta(rng, n):
    out = []
    fams = similar(rng, rng.randint(2, 5), FAM_CHARS, 60) if rng.random() < 0.15 else FAMS
    while len(out) < n:
        if fams is not FAMS and rng.random() < 0.2:
            fams = fams + FAMS
        q = (rng.choice(fams), rng.choice(PREFIXES))
        if q not in out:
            out.append(q)
    return out


def rand_amt(rng):
    k = rng.random()
    if k < 0.12:
        return rng.choice([-1, 1]) * rng.randrange(MAXI + 1)
    if k < 0.4:
        return rng.randint(-13, 13)
    return rng.choice(AMTS)


def with_texts(d):
    """The spelled keys and algs, for the JSON form of the definition."""
    for m in d["moves"]:
        m.setdefault("kt", codes(move_text(m["k"])))
    for m in d["derived"]:
        m.setdefault("kt", codes(move_text(m["k"])))
        m.setdefault("at", codes(alg_text(m["a"])))
    return d


def make_def(orbits, moves, derived=None, dflt=None, name="custom"):
    return with_texts({"name": name, "orbits": orbits, "dflt": dflt if dflt is not None else solved_pdata(orbits),
                       "moves": moves, "hasd": derived is not None, "derived": derived or []})


def rand_alg(rng, refs, size, depth=3, bad=0.0, amts=True):
    """An alg over the given (family, prefix) references."""
    out = []
    for _ in range(size):
        k = rng.random()
        if depth <= 0 or k < 0.62 or not refs:
            if bad and rng.random() < bad:
                out.append(mv("Undefined" + rng.choice("abc"), rand_amt(rng)))
            elif refs:
                f, p = rng.choice(refs)
                out.append(mv(f, rand_amt(rng) if amts else rng.choice([1, -1, 2]), p))
            else:
                out.append(PAUSE)
        elif k < 0.66:
            out.append(rng.choice([PAUSE, NL, cmt(" note"), cmt("")]))
        elif k < 0.80:
            out.append(grp(rand_alg(rng, refs, rng.randint(0, 3), depth - 1, bad), rand_amt(rng)))
        else:
            one = rand_alg(rng, refs, rng.randint(0, 2), depth - 1, bad)
            two = one if rng.random() < 0.15 else rand_alg(rng, refs, rng.randint(0, 2), depth - 1, bad)
            out.append(comm(one, two) if k < 0.90 else conj(one, two))
    return out


def rand_def(rng, size="small", nmoves=None, nderived=None, once=True, orbits=None, dflt=None, no=None):
    """A definition that is accepted: derived algs use only earlier quanta."""
    orbits = orbits or rand_orbits(rng, size, no=no)
    nmoves = (1 if size == "vast" else rng.randint(1, 4) if rng.random() < 0.95 or size not in ("small", "medium") else rng.randint(20, 45)) if nmoves is None else nmoves
    nderived = rng.choice([0, 0, 1, 2, 3]) if nderived is None else nderived
    nderived = min(nderived, 1) if size == "vast" else nderived
    quanta = rand_quanta(rng, nmoves + nderived)
    moves = [{"k": mv(f, 1, p), "t": rand_tdata(rng, orbits)} for f, p in quanta[:nmoves]]
    if not once:   # further amounts of the same families
        for f, p in quanta[:nmoves]:
            if rng.random() < 0.5:
                moves.append({"k": mv(f, rng.choice([2, -1, 3, -2, 0]), p), "t": rand_tdata(rng, orbits)})
    derived, refs = [], list(quanta[:nmoves])
    for f, p in quanta[nmoves:]:
        derived.append({"k": mv(f, 1, p), "a": [mv(*refs[0][:1], rng.choice([1, -1, 2]), refs[0][1])] if size == "vast" else rand_alg(rng, refs, rng.randint(0, 3), 2)})
        refs.append((f, p))
    order = moves[:]
    rng.shuffle(order)
    rng.shuffle(derived)
    return make_def(orbits, order, derived if derived or rng.random() < 0.5 else None,
                    dflt if dflt is not None else rand_pdata(rng, orbits), rng.choice(["custom", "custom", "", odd_name(rng)])), refs


def cost(d):
    return sum(o["np"] for o in d["orbits"])


class Sess:
    def __init__(self, sid, d, nt=3, np=2, nb=1, frame=None, errs=False, via="data"):
        self.s = {"sid": sid, "kind": "kp", "def": d, "nt": nt, "np": np, "nb": nb,
                  "frame": cost(d) <= 24 if frame is None else frame, "errs": errs, "ev": []}
        if via:
            self.add("puzzle", via=via)

    def add(self, op, **kw):
        self.s["ev"].append(dict(op=op, **kw))
        return self


class Gen:
    def __init__(self, seed, prop):
        self.rng = random.Random(f"{seed}/{prop}")
        self.sid = 0
        self.out = []

    def sess(self, d, **kw):
        self.sid += 1
        s = Sess(self.sid, d, **kw)
        self.out.append(s.s)
        return s

    def via(self):
        return self.rng.choice(["data", "json", "tryfrom", "serde", "arc"])

    def size(self):
        return self.rng.choice(["small"] * 12 + ["medium"] * 3 + ["many"] * 2 + ["odd"] * 4 + ["crowd"])

    # ------------------------------------------------------------------ C08 group laws
    def group_laws(self, n, big):
        rng = self.rng
        for i in range(n + big):
            size = ("host" if i == n else "vast" if i == n + 1 else "big") if i >= n else self.size()
            d, refs = rand_def(rng, size, nderived=0)
            s = self.sess(d, nt=5, np=0, nb=0, via=self.via())
            for r in (1, 2, 3):
                if rng.random() < 0.5 and refs:
                    f, p = rng.choice(refs)
                    s.add("t_move", r=r, mv=mv(f, rng.choice([1, -1, 2]), p))
                else:
                    s.add("t_data", r=r, data=rand_tdata(rng, d["orbits"]), via=rng.choice(["data", "json"]))
            # associativity, identity and inverses, on both sides, returned and written in place
            c = rng.choice(["t_comp", "t_into"])
            s.add("t_comp", r=4, a=1, b=2).add(c, r=4, a=4, b=3)
            s.add("t_comp", r=5, a=2, b=3).add("t_into", r=5, a=1, b=5)
            s.add("t_eq", a=4, b=5)
            s.add("t_id", r=5).add("t_comp", r=5, a=5, b=1).add("t_eq", a=5, b=1)
            s.add("t_id", r=5).add("t_into", r=5, a=1, b=5).add("t_eq", a=5, b=1)
            s.add("t_inv", r=5, a=4).add("t_comp", r=3, a=4, b=5).add("t_comp", r=2, a=5, b=4)
            s.add("t_eq", a=2, b=3).add("t_inv", r=5, a=5).add("t_eq", a=5, b=4)
            for _ in range(rng.randint(0, 6 if size not in LARGE else 2)):
                k = rng.random()
                r, a, b = (rng.randint(1, 5) for _ in range(3))
                if k < 0.6:
                    s.add(rng.choice(["t_comp", "t_into"]), r=r, a=a, b=b)
                elif k < 0.8:
                    s.add("t_inv", r=r, a=a)
                else:
                    s.add("t_id", r=r)
        return self.out

    # -------------------------------------------------------------- C09 pattern action
    def pattern_action(self, n, big):
        rng = self.rng
        for i in range(n + big):
            size = ("host" if i == n else "vast" if i == n + 1 else "big") if i >= n else self.size()
            d, refs = rand_def(rng, size, nderived=0)
            s = self.sess(d, nt=3, np=4, nb=0, via=self.via())
            for r in (1, 2):
                s.add("t_data", r=r, data=rand_tdata(rng, d["orbits"]), via="data")
            s.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via=rng.choice(["data", "json"]))
            s.add("p_apply", r=2, a=1, b=1).add("p_into", r=2, a=2, b=2)
            s.add("t_comp", r=3, a=1, b=2).add(rng.choice(["p_apply", "p_into"]), r=3, a=1, b=3)
            s.add("p_eq", a=2, b=3)
            s.add("t_id", r=3).add("p_into", r=4, a=2, b=3).add("p_eq", a=4, b=2)
            s.add("t_inv", r=3, a=2).add("p_apply", r=3, a=3, b=3)
            s.add("t_inv", r=3, a=1).add("p_into", r=3, a=3, b=3).add("p_eq", a=3, b=1)
            for _ in range(rng.randint(0, 6 if size not in LARGE else 2)):
                s.add(rng.choice(["p_apply", "p_into"]), r=rng.randint(1, 4), a=rng.randint(1, 4), b=rng.randint(1, 3))
        return self.out

    # ------------------------------------------------------------------ C10 repetition
    def repetition(self, n, big):
        rng = self.rng
        for i in range(n + big):
            size = ("host" if i == n else "big") if i >= n else self.size()
            d, refs = rand_def(rng, size, nmoves=rng.randint(1, 2), nderived=rng.choice([0, 1]))
            s = self.sess(d, nt=2, np=1, nb=0, via=self.via())
            for _ in range(10 if size not in LARGE else 4):
                f, p = rng.choice(refs)
                k = rng.random()
                a = rand_amt(rng)
                if k < 0.4:
                    s.add("t_move", r=1, mv=mv(f, a, p))
                elif k < 0.5:
                    s.add("p_move", r=1, a=1, mv=mv(f, a, p))
                elif k < 0.75:
                    s.add("t_alg", r=2, alg=[grp([mv(f, rng.choice([1, 2, -1]), p)], a)])
                else:
                    s.add("t_alg", r=2, alg=[grp(rand_alg(rng, refs, rng.randint(0, 3), 1), a)])
        # every small amount, and the largest ones, of one move
        for no, np_ in ((1, 1), (2, 3), (3, 5), (107, 4), (6, 7)):
            orbits = [{"n": "A", "np": np_, "no": no}]
            d = make_def(orbits, [{"k": mv("R"), "t": rand_tdata(rng, orbits, "cycle")}])
            s = self.sess(d, nt=1, np=0, nb=0)
            for a in list(range(-40, 41)) + [MAXI, MAXI - 1, -MAXI, 2**30, 2**30 - 1, 2**30 + 1, 2**16, 2**16 - 1]:
                s.add("t_move", r=1, mv=mv("R", a))
                s.add("t_alg", r=1, alg=[grp([mv("R", 1)], a)])
        return self.out

    def cost(self, n, big):
        """How much work do amounts of every size make?"""
        rng = self.rng
        huge = [MAXI, MAXI - 1, -MAXI, 2**30, 2**30 - 1, -2**30, 0x55555555, 0x2AAAAAAB, -0x6DB6DB6D, 10**9, 2**24 + 1, 2**20, 2**18 - 1, 2**16]
        for i in range(n + big):
            size = rng.choice(["host", "big"]) if i >= n else rng.choice(["small", "medium", "many", "odd"])
            d, refs = rand_def(rng, size, nmoves=rng.randint(1, 2), nderived=rng.choice([0, 1]))
            s = self.sess(d, nt=1, np=0, nb=0, frame=False, errs=True, via=self.via())
            for _ in range(8 if i < n else 3):
                f, p = rng.choice(refs)
                a = rng.choice(huge) if rng.random() < 0.9 else rand_amt(rng)
                k = rng.random()
                m = mv(f, a, p)
                if k < 0.4:
                    alg = [m]
                elif k < 0.7:
                    alg = [grp([mv(f, rng.choice([1, 2, -1]), p)], a)]
                elif k < 0.8:
                    alg = [grp([mv(f, rng.choice([1, 2, -1]), p)], a), m]
                elif k < 0.9:
                    alg = [rng.choice([comm, conj])([m], [grp([mv(f, -1, p)], rng.choice(huge))])]
                else:
                    alg = [grp([grp([m], rng.choice(huge))], rng.choice(huge))]
                s.add("t_cost", r=1, alg=alg, pat=rng.random() < 0.3)
        return self.out

    # -------------------------------------------------------------------- C11 evaluation
    def evaluation(self, n):
        rng = self.rng
        for i in range(n):
            d, refs = rand_def(rng, rng.choice(["small"] * 7 + ["medium", "odd", "crowd"]), once=rng.random() < 0.7)
            s = self.sess(d, nt=2, np=2, nb=0, errs=True, via=self.via())
            s.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via="data")
            for _ in range(5):
                bad = rng.choice([0, 0, 0.15])
                alg = rand_alg(rng, refs, rng.randint(0, 5), rng.randint(0, 4), bad)
                k = rng.random()
                if k < 0.6:
                    s.add("t_alg", r=1, alg=alg)
                elif k < 0.9:
                    s.add("p_alg", r=2, a=1, alg=alg)
                else:
                    m = next((x for x in alg if x["t"] == "move"), mv("Undefined"))
                    s.add("p_move", r=2, a=1, mv=m)
            if i % 20 == 0:
                long = rand_alg(rng, refs, rng.choice([100, 257, 400]), 1)
                s.add("t_alg", r=1, alg=long).add("p_alg", r=2, a=1, alg=long)
                s.add("t_alg", r=1, alg=long + [mv("Undefined")])
                deep = [mv(*refs[0][:1], 1, refs[0][1])]
                for _ in range(rng.choice([10, 40])):
                    deep = [rng.choice([grp(deep, rng.choice([1, 2, -1])), conj(rand_alg(rng, refs, 1, 0), deep), comm([], deep) if rng.random() < 0.1 else grp(deep + rand_alg(rng, refs, 1, 0), -1)])]
                s.add("t_alg", r=1, alg=deep)
            # an undefined move in every kind of place, also where it would be repeated 0 times
            u = [mv("Undefined", rng.choice([1, 0, -2]))]
            f, p = refs[0]
            g = [mv(f, 1, p)]
            for alg in ([grp(u, 0)], [grp(g, 2), grp(g + u, 0)], [comm(g, u)], [comm(u, [])], [conj(g, u)],
                        [conj(u, g)], [grp([conj(g, [grp(u, -1)])], 3)], g + u, u + g):
                if rng.random() < 0.4:
                    s.add(rng.choice(["t_alg"]), r=1, alg=alg)
                    s.add("p_alg", r=2, a=1, alg=alg)
        return self.out

    def deep_alg(self, refs, depth, undefined=False):
        """The text of an alg of nested brackets over the moves: deeper than JSON can carry."""
        rng = self.rng
        text = lambda: alg_text(rand_alg(rng, refs, 1, 0, amts=False))
        out = "Undefined" if undefined else text()
        for _ in range(depth):
            k = rng.random()
            out = (f"({out}){rng.choice(['', '2', chr(39), '3' + chr(39)])}" if k < 0.4 else f"[{text()}: {out}]" if k < 0.6 else f"[{out}: {text()}]" if k < 0.75
                   else f"[{out}, {text()}]" if k < 0.85 else f"[{text()}, {out}]" if k < 0.9 else f"({out} {text()})'")
        return codes(out)

    def evaluation_scale(self, lengths, depths, op="t_alg"):
        """Long algs, deep algs, and more different questions than anyone would remember, to one puzzle."""
        rng = self.rng
        for n in lengths:
            d, refs = rand_def(rng, "small", nmoves=3, nderived=1)
            s = self.sess(d, nt=2, np=2, nb=0, frame=False, errs=True, via=self.via())
            for _ in range(2):
                alg = rand_alg(rng, refs, n, 1)
                s.add(op, r=1, alg=alg)
                for w in ([grp(alg, rng.choice([-1, 2, 5]))], [conj(alg, [mv(*refs[0][:1], 1, refs[0][1])])], [comm([mv(*refs[1][:1], 1, refs[1][1])], alg)]):
                    s.add(op, r=1, alg=w)
            if op == "t_alg":
                s.add("p_alg", r=2, a=1, alg=alg).add("t_alg", r=1, alg=alg + [mv("Undefined")]).add("t_alg", r=1, alg=[mv("Undefined")] + alg)
        for n in depths:
            d, refs = rand_def(rng, "small", nmoves=3, nderived=1)
            s = self.sess(d, nt=2, np=2, nb=0, frame=False, errs=True, via=self.via())
            for _ in range(3):
                s.add(op, r=1, txt=self.deep_alg(refs, n))
                if op == "t_alg":
                    s.add("p_alg", r=2, a=1, txt=self.deep_alg(refs, n)).add(op, r=1, txt=self.deep_alg(refs, n, True))
        for n in lengths:
            d, refs = rand_def(rng, "small", nmoves=3, nderived=2)
            s = self.sess(d, nt=2, np=2, nb=0, frame=False, errs=True, via=self.via())
            asked = [mv(f, a, p) for f, p in refs for a in rng.sample(range(-20000, 20000), n // 2)]
            rng.shuffle(asked)
            for m in asked[:n]:
                s.add("t_move", r=1, mv=m) if op == "t_alg" and rng.random() < 0.5 else s.add(op, r=1, alg=[m])
            for m in rng.sample(asked[:n], min(n, 60)):
                s.add("t_move", r=1, mv=m).add(op, r=2, alg=[m])
        return self.out

    def variant(self, alg, refs, bad=0.0):
        """An alg of exactly the same shape with other moves and amounts."""
        rng = self.rng
        out = []
        for n in alg:
            n = dict(n)
            if n["t"] == "move":
                f, p = rng.choice(refs)
                n = mv("Undefined" if rng.random() < bad else f, rng.choice([1, -1, 2, 3]), p)
            elif n["t"] == "grp":
                n["alg"], n["amt"] = self.variant(n["alg"], refs, bad), n["amt"] if rng.random() < 0.5 else rng.choice([2, 3, -1])
            elif n["t"] in ("comm", "conj"):
                n["a"], n["b"] = self.variant(n["a"], refs, bad), self.variant(n["b"], refs, bad)
            out.append(n)
        return out

    def succession(self, n):
        """Values of the same shape, each made, used and dropped before the next: their addresses return."""
        rng = self.rng
        for i in range(n):
            orbits = rand_orbits(rng, rng.choice(["small", "small", "medium"]))
            defs = []
            moves = rand_quanta(rng, 3)
            for _ in range(3):      # puzzles alike in everything but what the moves do
                d = make_def(orbits, [{"k": mv(f, 1, p), "t": rand_tdata(rng, orbits, "full")} for f, p in moves[:2]], [{"k": mv(*moves[2][:1], 1, moves[2][1]), "a": rand_alg(rng, moves[:2], 3, 2)}],
                             rand_pdata(rng, orbits))
                defs.append(d)
            s = self.sess(defs[0], nt=1, np=1, nb=0, frame=False, via="data")
            s.add("p_data", r=1, data=rand_pdata(rng, orbits), via="data")
            for _ in range(3):
                shape = rng.choice([lambda: rand_alg(rng, moves, rng.randint(1, 4), 3),
                                    lambda: [grp(rand_alg(rng, moves, rng.randint(1, 8), 0), rng.choice([1, 2, -1]))],
                                    lambda: [rng.choice([comm, conj])(rand_alg(rng, moves, rng.randint(1, 4), 0), rand_alg(rng, moves, rng.randint(1, 4), 0))],
                                    lambda: rand_alg(rng, moves, rng.randint(1, 8), 0)])()
                texts = [codes(alg_text(self.variant(shape, moves, rng.choice([0, 0, 0.05])))) for _ in range(8)]
                s.add("t_many", txts=texts).add("p_many", a=1, txts=texts[::-1])
                s.add("k_many", defs=defs, alive=rng.random() < 0.5, qs=[{"k": rng.randint(1, 3), "txt": rng.choice(texts[j:j + 2])} for j in range(8)])
            s.add("c_many", a=1, pairs=[[rand_tdata(rng, orbits), rand_tdata(rng, orbits)] for _ in range(6)])
        return self.out

    def come_round(self, counts):
        """Puzzles that differ only in what their moves do, with so many others made between them that a counter of
        puzzles comes round."""
        rng = self.rng
        for count in counts:
            orbits = [{"n": "A", "np": rng.randint(3, 5), "no": rng.choice([1, 2, 3])}]
            s = None
            defs = []
            for _ in range(2):
                defs.append(make_def(orbits, [{"k": mv("A"), "t": rand_tdata(rng, orbits, "full")}, {"k": mv("B"), "t": rand_tdata(rng, orbits, "full")}],
                                     [{"k": mv("C"), "a": rand_alg(rng, [("A", ()), ("B", ())], 3, 0)}], rand_pdata(rng, orbits)))
            s = self.sess(defs[0], nt=1, np=1, nb=0, frame=False, via="data")
            for txt in ("C", "A", "A2 B'", "[A, C]", "(A B)3"):
                s.add("k_many", defs=defs, alive=False, qs=[{"k": 1, "txt": codes(txt)}, {"k": 2, "txt": codes(txt), "waste": count}])
        return self.out

    def squares(self, n):
        """Families that have an inverse of their own in the notation, on moves where that is another one than
        the move's, and where what commutes in a Square-1 does not."""
        rng = self.rng
        for i in range(n):
            orbits = [{"n": "A", "np": rng.randint(3, 6), "no": rng.choice([2, 3, 5, 12])}, {"n": "B", "np": 3, "no": 4}][:rng.choice([1, 2])]
            ks = [(SLASH, ()), (USQ, ()), (DSQ, ())] + rand_quanta(rng, 2)
            ks = list(dict.fromkeys((f, tuple(p)) for f, p in ks))
            moves = [{"k": mv(f, a, p), "t": rand_tdata(rng, orbits, "full")} for f, p in ks for a in rng.choice([[1], [1], [1, 2], [1, -1], [1, -2], [2, 1, -1, 3]])]
            derived = [{"k": mv("Der", a), "a": rand_alg(rng, ks, 3, 2)} for a in rng.choice([[1], [1, -1]])]
            d = make_def(orbits, moves, derived)
            refs = ks + [("Der", ())]
            s = self.sess(d, nt=2, np=2, nb=0, errs=True, via=self.via())
            s.add("p_data", r=1, data=rand_pdata(rng, orbits), via="data")
            for _ in range(6):
                sq = lambda: [rng.choice([mv(SLASH, rng.choice([1, 1, -1, 2])), mv(USQ, rng.randint(-7, 7)), mv(DSQ, rng.randint(-7, 7)), mv("Der", rng.choice([1, -1, 2])), grp([mv(USQ, rng.randint(-6, 6)), mv(DSQ, rng.randint(-6, 6))], rng.choice([1, 1, -1, 2]))])
                              for _ in range(rng.randint(1, 3))]
                a, b = sq(), sq()
                alg = rng.choice([[grp(a, -1)], [comm(a, b)], [conj(a, b)], [grp(a + b, rng.choice([-1, -2, 2]))], a + b, [grp([comm(a, b)], -1)],
                                  [conj([grp(a, -1)], b)], [grp([grp(a, -1)], -1)], [comm([mv(SLASH)], b)], [grp([mv(SLASH)], rng.choice([-1, -3]))],
                                  [grp(rand_alg(rng, refs, 3, 2), -1)], [conj(rand_alg(rng, refs, 2, 1), a)]])
                s.add("t_alg", r=1, alg=alg).add("p_alg", r=2, a=1, alg=alg).add("p_apply", r=2, a=1, b=1)
        return self.out

    # --------------------------------------------------------- C12 an alg and its inverse
    def inverse_restores(self, n):
        rng = self.rng
        for i in range(n):
            size = rng.choice(["small"] * 5 + ["medium", "odd", "crowd"])
            d, refs = rand_def(rng, size)
            sq = rng.random() < 0.5
            if sq:
                # a Square-1 like puzzle: commuting layers and a self-inverse slash
                orbits = d["orbits"] + [{"n": "UP", "np": 6, "no": 4}, {"n": "DOWN", "np": 6, "no": 4}]
                rot = [5, 0, 1, 2, 3, 4]
                idt = {o["n"]: x for o, x in zip(orbits, id_tdata(orbits))}
                up = [dict(idt[o["n"]], p=rot) if o["n"] == "UP" else idt[o["n"]] for o in orbits]
                dn = [dict(idt[o["n"]], p=rot) if o["n"] == "DOWN" else idt[o["n"]] for o in orbits]
                sl = [dict(idt[o["n"]], p=[3, 4, 5, 0, 1, 2], d=[2, 1, 0, 2, 3, 0]) if o["n"] in ("UP", "DOWN")
                      else idt[o["n"]] for o in orbits]
                moves = [{"k": m["k"], "t": m["t"] + id_tdata(orbits[-2:])} for m in d["moves"]]
                moves += [{"k": mv(USQ), "t": up}, {"k": mv(DSQ), "t": dn}, {"k": mv(SLASH), "t": sl}]
                d = make_def(orbits, moves, d["derived"] if d["hasd"] else None)
                refs = refs + [(USQ, ()), (DSQ, ())]
            s = self.sess(d, nt=2, np=2, nb=0, via=rng.choice(["data", "json"]))
            for _ in range(4):
                alg = rand_alg(rng, refs, rng.randint(1, 5), rng.randint(0, 4))
                if sq:
                    for _ in range(rng.randint(1, 3)):
                        node = rng.choice([grp([mv(USQ, rng.randint(-6, 6)), mv(DSQ, rng.randint(-6, 6))], 1),
                                           mv(SLASH, 1), grp([mv(USQ, 2), mv(DSQ, -3)], -1)])
                        alg.insert(rng.randint(0, len(alg)), node)
                s.add("t_algs", r=1, alg=alg)
                s.add("p_default", r=1)
                s.add("p_alg", r=2, a=1, alg=alg)
                s.add("t_inv", r=2, a=1).add("p_apply", r=2, a=2, b=2).add("p_eq", a=1, b=2)
        # every kind of family with every small amount, on moves of large and unrelated orders
        fams = [(f, p) for f in ("R", "y", "Rw", "UR_PLUS_", "BR_PLUSPLUS_", "_PLUS_", "SQ_", "U_SQ_", "D_SQ_", "_SLASH_")
                for p in ((), (2,), (1, 3)) if not (f == SLASH and not p)]
        for i in range(0, len(fams), 4):
            orbits = [{"n": "A", "np": 3, "no": 97}, {"n": "B", "np": 5, "no": 4}]
            ks = fams[i:i + 4]
            d = make_def(orbits, [{"k": mv(f, 1, p), "t": rand_tdata(rng, orbits)} for f, p in ks])
            s = self.sess(d, nt=1, np=2, nb=0, via="data")
            s.add("p_default", r=1)
            for f, p in ks:
                for a in list(range(-14, 15)) + [15, 24, 30, 36, 60, 100, MAXI, -MAXI]:
                    m, w = mv(f, a, p), mv(*rng.choice(ks)[:1], rng.randint(-3, 3), p)
                    w["fam"], w["pre"] = (lambda q: (codes(q[0]), [codes(str(x)) for x in q[1]]))(rng.choice(ks))
                    s.add("t_algs", r=1, alg=rng.choice([[m], [m, w], [grp([m, w], rng.randint(-3, 3))], [comm([m], [w])],
                                                         [conj([w], [m])], [w, conj([m], [w])], [grp([m], a)]]))
        return self.out

    # ------------------------------------------------------------------------ C13 lookup
    def lookup(self, n):
        rng = self.rng
        for i in range(n):
            orbits = [{"n": "A", "np": rng.randint(2, 5), "no": rng.choice([1, 2, 3, 5])}]
            fams = [("R", ()), ("R", (2,)), ("R", (1, 2)), ("r", ()), (SLASH, ()), (SLASH, (2,)), ("U", (4294967295,))]
            amts = [1, 2, -1, -2, 3, 0, -3, MAXI, -MAXI]
            keys = [(f, a) for f in rng.sample(fams, rng.randint(1, 3)) for a in amts if rng.random() < 0.4]
            rng.shuffle(keys)
            cut = rng.randint(0, len(keys))
            moves = [{"k": mv(f, a, p), "t": rand_tdata(rng, orbits)} for (f, p), a in keys[:cut]]
            base = ("BASE", ())
            moves.append({"k": mv("BASE"), "t": rand_tdata(rng, orbits)})
            # the same key may be defined in both tables; derived algs use only BASE
            dkeys = keys[cut:] + rng.sample(keys[:cut], rng.randint(0, cut))
            derived = [{"k": mv(f, a, p), "a": [mv("BASE", rng.randint(-9, 9)), grp([mv("BASE")], rng.randint(-3, 3))]}
                       for (f, p), a in dkeys]
            d = make_def(orbits, moves, derived if rng.random() < 0.9 or derived else None)
            # other spellings of the same keys
            for m in d["moves"] + d["derived"]:
                if rng.random() < 0.3:
                    m["kt"] = codes(respell(rng, m["k"]))
            s = self.sess(d, nt=1, np=1, nb=0, errs=True, via=rng.choice(["data", "json", "json", "serde"]))
            qs = [(f, p, a) for f, p in fams for a in amts + [4, 5]]
            for f, p, a in rng.sample(qs, 26):
                s.add("t_move", r=1, mv=mv(f, a, p))
            k = rng.choice(d["moves"] + d["derived"])["k"]
            for m in near_keys(rng, k["fam"], k["pre"], k["amt"]):
                s.add("t_move", r=1, mv=m)
            s.add("reload")
            for f, p, a in rng.sample(qs, 6):
                s.add("t_move", r=1, mv=mv(f, a, p))
        return self.out

    def lookup_scale(self, sizes):
        """Tables of many keys: many families, many prefixes, many amounts of one family."""
        rng = self.rng
        for n in sizes:
            for how in ("fams", "pres", "amts"):
                orbits = [{"n": "A", "np": 4, "no": 3}]
                keys = {"fams": [("F" + "".join(rng.choice("abc_") for _ in range(7)), (), 1) for _ in range(n)],
                        "pres": [("R", rng.choice([(i,), (i, i + 1), (1, i), (i + 4294960000,)]), rng.choice([1, 1, 1, 2, -1])) for i in range(n)],
                        "amts": [("R", (), a) for a in rng.sample([a for a in range(-n, n + 3) if a != 1], n)]}[how]
                keys = list(dict.fromkeys(keys))
                rng.shuffle(keys)
                cut = len(keys) // 2
                base = mv("BASE")
                moves = [{"k": base, "t": rand_tdata(rng, orbits)}] + [{"k": mv(f, a, p), "t": rand_tdata(rng, orbits)} for f, p, a in keys[:cut]]
                derived = [{"k": mv(f, a, p), "a": [mv("BASE", rng.randint(-9, 9))]} for f, p, a in keys[cut:]]
                d = make_def(orbits, moves, derived)
                s = self.sess(d, nt=1, np=1, nb=0, errs=True, frame=False, via=rng.choice(["data", "json", "serde"]))
                for f, p, a in rng.sample(keys, min(len(keys), 60)):
                    s.add("t_move", r=1, mv=mv(f, rng.choice([a, a, -a, 1, 2, -1, n + 7]), p))
                s.add("reload")
                for f, p, a in rng.sample(keys, 10):
                    s.add("t_move", r=1, mv=mv(f, rng.choice([a, a, -a, 1, 2, -1, n + 7]), p))
        return self.out

    # -------------------------------------------------------------------- C14 acceptance
    def acceptance(self, n, lengths=(2, 3, 10, 60, 200)):
        rng = self.rng
        for i in range(n):
            orbits = [{"n": "A", "np": 3, "no": rng.choice([1, 2])}]
            names = ["A", "B", "C", "D", "E", "G", "H"][: rng.randint(1, 7)]
            direct = [{"k": mv("R"), "t": rand_tdata(rng, orbits)}]
            if rng.random() < 0.3:
                direct.append({"k": mv(rng.choice(names), rng.choice([1, 2, -1])), "t": rand_tdata(rng, orbits)})
            if rng.random() < 0.2:
                direct = direct[1:]
            p_back = rng.choice([0.0, 0.05, 0.2])
            derived, seen = [], []
            for j, nm in enumerate(names):
                for a in rng.choice([[1], [1], [1], [2], [1, 2], [-1], [2, -2], [0], [1, -1]]):
                    def pick():
                        u = rng.random()
                        if u < 0.08:
                            tgt = nm
                        elif u < p_back:
                            tgt = rng.choice(names)
                        elif u < 0.6 and j > 0:
                            tgt = rng.choice(names[:j])
                        elif u < 0.62:
                            tgt = "Nowhere"
                        else:
                            tgt = "R"
                        return mv(tgt, rng.choice([1, -1, 2, -2, 3, 0]), rng.choice([()] * 12 + [(2,)]))
                    alg = []
                    for _ in range(rng.randint(0, 2)):
                        m = pick()
                        alg.append(rng.choice([m, m, grp([m], rng.choice([0, 2, -1])), comm([pick()], [m]),
                                               conj([m], [pick()]), conj([], [grp([comm([], [m])], 1)]), PAUSE]))
                    derived.append({"k": mv(nm, a), "a": alg})
            rng.shuffle(derived)
            rng.shuffle(direct)
            d = make_def(orbits, direct, derived)
            for via in ("data", "json"):
                s = self.sess(d, nt=1, np=0, nb=0, errs=True, via=via)
                if accepted(d):
                    for m in d["derived"]:
                        for a in {m["k"]["amt"], -m["k"]["amt"], 1, 2}:
                            s.add("t_move", r=1, mv=dict(m["k"], amt=a))
                    s.add("t_move", r=1, mv=mv("R", -2))
        # amounts of one family defined one through another: a cycle only if the lookup says so
        for i in range(n // 2):
            orbits = [{"n": "A", "np": 3, "no": rng.choice([1, 2])}]
            amts = rng.sample([2, 3, 4, -2, 5, -3, 7, 0], rng.randint(2, 4))
            pre = rng.choice([()] * 5 + [(2,), (1, 3)])
            derived = []
            for j, a in enumerate(amts):
                later = amts[j + 1:] if rng.random() < 0.9 else amts
                alg = [mv("C", rng.choice([b, b, b, -b]), rng.choice([pre] * 9 + [(2,)])) for b in rng.sample(later, min(len(later), rng.randint(1, 2)))]
                alg = alg or [mv("R", rng.choice([1, -1, 2]))]
                w = rng.randrange(5)
                derived.append({"k": mv("C", a, pre), "a": [alg, [grp(alg, rng.choice([1, 0, -2]))], [conj([mv("R")], alg)], [comm(alg, [mv("R")])],
                                                            alg + [mv("R")]][w]})
            if rng.random() < 0.2:
                derived.append({"k": mv("C", 1, pre), "a": [mv("C", rng.choice(amts), rng.choice([pre, (4,)]))]})
            rng.shuffle(derived)
            d = make_def(orbits, [{"k": mv("R"), "t": rand_tdata(rng, orbits)}], derived)
            for via in ("data", "json"):
                s = self.sess(d, nt=1, np=0, nb=0, errs=True, via=via)
                if accepted(d):
                    for a in amts:
                        s.add("t_move", r=1, mv=mv("C", rng.choice([a, a, -a]), pre))
                    s.add("t_move", r=1, mv=mv("C", 1, pre))
        # long chains and long cycles, and references hidden deep inside an alg
        for length in lengths:
            for closed in (False, True):
                orbits = [{"n": "A", "np": 3, "no": 2}]
                derived = []
                for j in range(length):
                    nxt = mv(f"D_{chr(97 + (j + 1) % 26)}{'x' * ((j + 1) // 26)}") if j + 1 < length else (
                        mv("D_a") if closed else mv("R"))
                    wrap = rng.choice([lambda m: [m], lambda m: [conj([], [m])], lambda m: [comm([m], [])],
                                       lambda m: [grp([m], 0)], lambda m: [grp([grp([conj([m], [])], -1)], 1)]])
                    derived.append({"k": mv(f"D_{chr(97 + j % 26)}{'x' * (j // 26)}"), "a": wrap(nxt)})
                rng.shuffle(derived)
                d = make_def(orbits, [{"k": mv("R"), "t": rand_tdata(rng, orbits)}], derived)
                s = self.sess(d, nt=1, np=0, nb=0, errs=True, via="data")
                if not closed and length <= 60:
                    s.add("t_move", r=1, mv=mv("D_a"))
        return self.out

    # --------------------------------------------------------- C15 orientation modulus
    def orientation_mod(self, ns, deltas, hows=("default",), sizes=(250,)):
        """Every (modulus, orientation) pair of every number of orientations, under the given deltas."""
        rng = self.rng
        for no in ns:
            pairs = [(m, o) for m in [0] + divisors(no) for o in range(m or no)]
            if sizes != (250,):     # a choice of the pairs, the rare ones first
                rng.shuffle(pairs)
                pairs = sorted(pairs, key=lambda x: x[0] not in (1, no))[:12] if len(sizes) < 4 else pairs[:60]
            size = rng.choice(sizes)
            for at in range(0, len(pairs), size):
                part = pairs[at:at + size]
                orbits = [{"n": "A", "np": len(part), "no": no}]
                n = len(part)
                data = [{"o": "A", "p": list(range(n)), "x": [o for _, o in part], "m": [m for m, _ in part], "hm": True}]
                # the moduli come with the default pattern, with other data, or slot by slot
                how = rng.choice(hows)
                d = make_def(orbits, [], dflt=data if how == "default" else rng.choice([
                    None, [dict(data[0], x=[0] * n, m=[0] * n)], [dict(data[0], x=[0] * n, m=[1] * n)], [dict(data[0], x=[0] * n, m=rng.sample(data[0]["m"], n))]]))
                s = self.sess(d, nt=1, np=2, nb=0, frame=False, via=rng.choice(["data", "json"]))
                if how == "data":
                    s.add("p_data", r=1, data=data, via=rng.choice(["data", "json"]))
                elif how == "slots":
                    for i, (m, o) in enumerate(part):
                        s.add("p_set_o", r=1, o=1, i=i, v=o, m=m)
                ds = sorted({x % no for x in ([0, 1, no - 1, no // 2, no // 3] if deltas == "some" else range(no))})
                for delta in ds:
                    s.add("t_data", r=1, data=[{"o": "A", "p": rand_perm(rng, len(part), "full"),
                                                "d": [delta] * len(part)}], via="data")
                    s.add("p_apply", r=2, a=1, b=1)
                s.add("t_data", r=1, data=rand_tdata(rng, orbits, "full"), via="data")
                s.add("p_into", r=2, a=2, b=1).add("p_back", r=2, a=2, via="json")
        return self.out

    def orientation_bounds(self):
        for no in list(range(100, 256)) + [0, 1]:
            orbits = [{"n": "A", "np": 1, "no": no}]
            d = make_def(orbits, [], dflt=[{"o": "A", "p": [0], "x": [0], "m": [], "hm": False}])
            for via in ("data", "json"):
                self.sess(d, nt=1, np=1, nb=0, errs=True, via=via)
            orbits2 = [{"n": "OK", "np": 2, "no": 2}] + orbits
            self.sess(make_def(orbits2, []), nt=1, np=1, nb=0, errs=True, via="data")
        return self.out

    # ---------------------------------------------------------------- C16 data round trip
    def data_round_trip(self, n, big):
        rng = self.rng
        for i in range(n + big):
            size = ("host" if i == n else "vast" if i == n + 1 else "big") if i >= n else self.size()
            d, refs = rand_def(rng, size, once=rng.random() < 0.5)
            s = self.sess(d, nt=2, np=2, nb=0, via=self.via())
            for _ in range(3 if size not in LARGE else 1):
                s.add("t_data", r=1, data=rand_tdata(rng, d["orbits"]), via=rng.choice(["data", "json", "serde"]))
                s.add("t_back", r=2, a=1, via=rng.choice(["data", "json"]))
                s.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via=rng.choice(["data", "json", "serde"]))
                s.add("p_back", r=2, a=1, via=rng.choice(["data", "json"]))
                s.add("p_apply", r=1, a=2, b=2).add("p_back", r=2, a=1, via="json")
            s.add("p_default", r=1).add("info")
            s.add("reload").add("info").add("p_default", r=1)
            for m in d["moves"] + (d["derived"] if d["hasd"] else []):
                if size == "vast":
                    s.add("t_move", r=1, mv=m["k"])
                elif size not in LARGE or rng.random() < 0.3:
                    s.add("t_move", r=1, mv=dict(m["k"], amt=rng.choice([m["k"]["amt"], 1, -1, 2])) if
                          any(x["k"]["amt"] == 1 and x["k"]["fam"] == m["k"]["fam"] and x["k"]["pre"] == m["k"]["pre"]
                              for x in d["moves"] + d["derived"]) else m["k"])
        return self.out

    # ------------------------------------------------------------------- C17 malformed data
    def malformed(self, n):
        rng = self.rng
        for i in range(n):
            orbits = rand_orbits(rng, rng.choice(["small"] * 4 + ["many", "many", "medium", "odd", "crowd"]))
            d = make_def(orbits, [{"k": mv("R"), "t": rand_tdata(rng, orbits)}], dflt=rand_pdata(rng, orbits))
            s = self.sess(d, nt=1, np=1, nb=0, errs=True, via="data")
            for _ in range(8):
                if rng.random() < 0.5:
                    data = rand_tdata(rng, orbits)
                    for _ in range(rng.choice([1, 1, 1, 2, 0])):
                        data = break_tdata(rng, orbits, data)
                    s.add("t_data", r=1, data=data, via=rng.choice(["data", "json"]))
                else:
                    data = rand_pdata(rng, orbits)
                    for _ in range(rng.choice([1, 1, 1, 2, 0])):
                        data = break_pdata(rng, orbits, data)
                    s.add("p_data", r=1, data=data, via=rng.choice(["data", "json"]))
            # registers are still usable
            s.add("p_apply", r=1, a=1, b=1).add("t_inv", r=1, a=1)
            # definitions whose move tables are malformed
            moves = [{"k": k, "t": rand_tdata(rng, orbits)} for k in some_keys(rng, rng.randint(1, 4))]
            j = rng.randrange(len(moves))
            if rng.random() < 0.85:
                moves[j]["t"] = break_tdata(rng, orbits, moves[j]["t"])
            o2 = [dict(o) for o in orbits]
            if rng.random() < 0.15 and o2:
                o2[rng.randrange(len(o2))]["no"] = rng.choice([0, 108, 200, 255])
            derived = [{"k": rng.choice([mv("Z"), moves[j]["k"], mv("R", -1), mv("R", 2), mv("R", 1, ("2",))]), "a": [dict(moves[0]["k"])]}]
            if moves[0]["k"]["fam"] == derived[0]["k"]["fam"]:
                derived[0]["a"] = []
            s2 = self.sess(make_def(o2, moves, derived if rng.random() < 0.4 else None), nt=1, np=0, nb=0, errs=True,
                           via=rng.choice(["data", "json", "tryfrom", "arc"]))
        return self.out

    def every_flaw(self):
        """One flaw of each kind, at every place of some layouts, in values and in moves of definitions."""
        rng = self.rng
        for sizes in ([1], [2, 3], [4, 0, 1], [5, 5], [9, 2], [66], [1] * 18, [255]):
            orbits = [{"n": f"o{k}", "np": n, "no": rng.choice([1, 2, 3, 4, 6, 12, 100, 107])} for k, n in enumerate(sizes)]
            good_t, good_p = rand_tdata(rng, orbits, "full"), rand_pdata(rng, orbits, hm=True)
            d = make_def(orbits, [{"k": mv("R"), "t": good_t}])
            ts, ps = [], []
            def edit(data, k, **kw):
                out = [dict(x) for x in data]
                out[k].update(kw)
                return out
            put = lambda xs, j, v: xs[:j] + [v] + xs[j + 1:]
            for k, o in enumerate(orbits):
                n, no, t, p = o["np"], o["no"], good_t[k], good_p[k]
                ts += [good_t[:k] + good_t[k + 1:], edit(good_t, k, p=t["p"] + [n % 256]), edit(good_t, k, d=t["d"] + [0]), edit(good_t, k, p=[], d=[]) if n else good_t,
                       edit(good_t, k, p=t["p"] + [n % 256], d=t["d"] + [0])]
                ps += [good_p[:k] + good_p[k + 1:], edit(good_p, k, p=p["p"] + [0]), edit(good_p, k, x=p["x"] + [0]), edit(good_p, k, m=p["m"] + [0]),
                       edit(good_p, k, p=p["p"] + [0], x=p["x"] + [0], m=p["m"] + [0])]
                ts += [edit(good_t, k, p=q) for q in balanced(t["p"])]
                if n:
                    ts += [edit(good_t, k, p=t["p"][:-1]), edit(good_t, k, d=t["d"][:-1]), edit(good_t, k, p=t["p"][:-1], d=t["d"][:-1])]
                    ps += [edit(good_p, k, p=p["p"][:-1]), edit(good_p, k, x=p["x"][:-1]), edit(good_p, k, m=p["m"][:-1]), edit(good_p, k, m=[], hm=True),
                           edit(good_p, k, p=p["p"][:-1], x=p["x"][:-1], m=p["m"][:-1])]
                for j in range(n) if n < 70 else sorted({0, 1, 63, 64, 127, 128, n - 2, n - 1, rng.randrange(n)}):
                    i = rng.choice([q for q in range(n) if q != j] or [0])
                    if i != j:
                        ts.append(edit(good_t, k, p=put(t["p"], j, t["p"][i])))
                    for far in (64, 128):
                        if t["p"][j] >= far:
                            ts.append(edit(good_t, k, p=put(t["p"], j, t["p"][j] - far)))
                    if n < 256:
                        ts.append(edit(good_t, k, p=put(t["p"], j, rng.choice([n, 255] if n < 255 else [255]))))
                    ts.append(edit(good_t, k, d=put(t["d"], j, rng.choice([no, no, 255]))))
                    ts.append(edit(good_t, k, d=put(t["d"], j, no - 1)))      # no flaw
                    bad = [q for q in range(1, 256) if no % q]
                    ps.append(edit(good_p, k, m=put(p["m"], j, rng.choice(bad)), x=put(p["x"], j, 0)))
                    ps.append(edit(good_p, k, m=put(p["m"], j, rng.choice([q for q in bad if q < no] or bad)), x=put(p["x"], j, 0)))
                    ps.append(edit(good_p, k, m=put(p["m"], j, rng.choice([0, no])), x=put(p["x"], j, rng.choice([no, 255]))))
                    m = rng.choice(divisors(no))
                    ps.append(edit(good_p, k, m=put(p["m"], j, m), x=put(p["x"], j, m)))
                    ps.append(edit(good_p, k, m=put(p["m"], j, m), x=put(p["x"], j, m - 1)))      # no flaw
            for at in range(0, max(len(ts), len(ps)), 50):
                s = self.sess(d, nt=1, np=1, nb=0, frame=False, errs=True, via="data")
                for t in ts[at:at + 50]:
                    s.add("t_data", r=1, data=t, via=rng.choice(["data", "data", "json"]))
                for p in ps[at:at + 50]:
                    s.add("p_data", r=1, data=p, via=rng.choice(["data", "data", "json"]))
            for t in rng.sample(ts, min(len(ts), 60 if sum(sizes) < 60 else 12)):
                at = rng.randint(0, 2)
                moves = [{"k": k, "t": good_t} for k in some_keys(rng, 3)]
                moves[at]["t"] = t
                self.sess(make_def(orbits, moves), nt=1, np=0, nb=0, errs=True, frame=False, via=rng.choice(["data", "json", "tryfrom", "arc"]))
        return self.out

    def malformed_text(self, n):
        """JSON that is not of the right form at all: refused by construction."""
        rng = self.rng
        orbits = [{"n": "A", "np": 2, "no": 3}, {"n": "B", "np": 1, "no": 2}]
        d = make_def(orbits, [{"k": mv("R"), "t": id_tdata(orbits)}])
        good_t = {"A": {"permutation": [1, 0], "orientationDelta": [2, 0]}, "B": {"permutation": [0], "orientationDelta": [1]}}
        good_p = {"A": {"pieces": [1, 0], "orientation": [2, 0]}, "B": {"pieces": [0], "orientation": [1], "orientationMod": [0]}}
        good_d = {"name": "n", "orbits": [{"orbitName": "A", "numPieces": 2, "numOrientations": 3}],
                  "defaultPattern": {"A": {"pieces": [0, 1], "orientation": [0, 0]}},
                  "moves": {"R": {"A": {"permutation": [1, 0], "orientationDelta": [2, 0]}}}}

        def mutate(doc):
            text = json.dumps(doc)
            k = rng.randrange(6)
            if k == 0:
                return text[: rng.randrange(len(text))]           # cut short
            if k == 1:
                return text + rng.choice(["x", "{}", "]", ",", "null"])
            if k == 2:
                return rng.choice(["", "null", "[]x", "1", "\"R\"", "true", "[", "\ufeff{}"])
            doc = json.loads(text)
            path, node = [], doc
            while isinstance(node, (dict, list)) and len(node) and (rng.random() < 0.75 or not path):
                key = rng.choice(list(node)) if isinstance(node, dict) else rng.randrange(len(node))
                path.append(key)
                node = node[key]
            # keys of these objects may be anything; their values may not
            parent = doc
            for key in path[:-1]:
                parent = parent[key]
            old = parent[path[-1]]
            if isinstance(old, int):
                parent[path[-1]] = rng.choice([-1, 256, 1.5, "0", None, [], {}, True, 2**64, 1e300])
            elif isinstance(old, list):
                parent[path[-1]] = rng.choice([None, 0, "01", {}, [[0]], ["0"], [None], [256], [-1]]) \
                    if path[-1] != "orientationMod" else rng.choice([0, "01", {}, [[0]], ["0"], [256], [-1]])
            elif isinstance(old, str):
                parent[path[-1]] = rng.choice([None, 0, [], {}])
            else:
                if path[-1] == "moves":
                    parent[path[-1]] = rng.choice([None, 0, [], "R", {"R R": {}}, {"": {}}, {"2": {}}, {"(R)": {}}])
                else:
                    parent[path[-1]] = rng.choice([None, 0, "x", 5])
            return json.dumps(doc)

        s = self.sess(d, nt=1, np=1, nb=0, errs=True, via="data")
        for _ in range(n):
            which = rng.choice(["t_text", "p_text", "puzzle_text"])
            good = {"t_text": good_t, "p_text": good_p, "puzzle_text": good_d}[which]
            if rng.random() < 0.1:      # bytes that are no text, also in names and keys
                raw = list(json.dumps(good).encode())
                raw[rng.randrange(len(raw)):0] = rng.choice([[0x80], [0xff], [0xc0, 0x80], [0xe2, 0x82], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xc3]])
                s.add(which, raw=raw)
                continue
            s.add(which, txt=codes(mutate(good)))
        return self.out

    # --------------------------------------------------------------- C18 equality, hash, clone
    def equality(self, n):
        rng = self.rng
        for i in range(n):
            d, refs = rand_def(rng, "vast" if i == 0 else self.size(), nderived=0)
            orbits = d["orbits"]
            s = self.sess(d, nt=4, np=4, nb=2, via=self.via())
            base_t, base_p = rand_tdata(rng, orbits), rand_pdata(rng, orbits)
            s.add("t_data", r=1, data=base_t, via="data")
            s.add("p_data", r=1, data=base_p, via="data")
            # the same value of an equal puzzle
            s.add("twin", via=rng.choice(["data", "json"]))
            s.add("t_data", r=2, data=base_t, via="data").add("t_eq", a=1, b=2)
            s.add("p_data", r=2, data=base_p, via="data").add("p_eq", a=1, b=2)
            # the same value reached another way
            s.add("t_inv", r=2, a=1).add("t_inv", r=2, a=2).add("t_eq", a=1, b=2)
            s.add("p_apply", r=2, a=1, b=1).add("t_inv", r=3, a=1).add("p_into", r=2, a=2, b=3).add("p_eq", a=1, b=2)
            s.add("p_clone", r=3, a=1, via=rng.choice(["clone", "clone_from"])).add("p_eq", a=3, b=1).add("p_clone", r=4, a=1, via="from")
            s.add("t_clone", r=4, a=1, via=rng.choice(["clone", "clone_from"])).add("t_eq", a=4, b=1)
            # over values of other puzzles, of the same size or another
            for _ in range(2 if cost(d) < 300 else 1):
                a = rng.randint(1, 3)
                s.add("p_clone", r=4, a=a, via="clone_into").add("p_eq", a=4, b=a).add("p_apply", r=4, a=4, b=1)
                s.add("t_clone", r=4, a=a, via="clone_into").add("t_eq", a=4, b=a).add("t_comp", r=4, a=4, b=a)
            # buffers: what they show now decides, whatever they showed before and however they came to it
            # (t2 = t1, t3 = its inverse, p2 = p1)
            for kind, a in (("p", 1), ("t", 1)):
                b = kind + "b_"
                s.add(b + "new", r=1, a=a).add(b + "new", r=2, a=2).add(b + "eq", a=1, b=2)
                s.add(b + "apply", r=1, b=1).add(b + "eq", a=1, b=2).add(b + "eq", a=2, b=1)
                s.add(b + "apply", r=1, b=3).add(b + "eq", a=1, b=2)                  # back again
                s.add("t_comp", r=4, a=3, b=3)
                s.add(b + "apply", r=2, b=1).add(b + "apply", r=2, b=1).add(b + "apply", r=2, b=4)
                s.add(b + "eq", a=1, b=2).add(b + "eq", a=2, b=1)                     # another parity
                s.add(b + "apply", r=1, b=1).add(b + "eq", a=1, b=2)
                s.add(b + "apply", r=2, b=1).add(b + "eq", a=1, b=2)
            s.add("t_clone", r=4, a=1, via=rng.choice(["clone", "clone_from"]))
            # values differing in exactly one place, in any orbit and position
            places = [(k, j) for k, o in enumerate(orbits) for j in range(o["np"])]
            for k, j in rng.sample(places, min(4, len(places))):
                o = orbits[k]
                pd = json.loads(json.dumps(base_p))
                m = pd[k]["m"][j] if pd[k]["hm"] else 0
                if rng.random() < 0.5 or (m or o["no"]) == 1:
                    pd[k]["p"][j] = (pd[k]["p"][j] + 1) % 256
                else:
                    pd[k]["x"][j] = (pd[k]["x"][j] + 1) % (m or o["no"])
                s.add("p_data", r=2, data=pd, via="data").add("p_eq", a=1, b=2)
                if pd[k]["hm"] and o["no"] > 1:
                    pd = json.loads(json.dumps(base_p))
                    x = pd[k]["x"][j]
                    pd[k]["m"][j] = rng.choice([0] + [q for q in divisors(o["no"]) if q > x])
                    s.add("p_data", r=2, data=pd, via="data").add("p_eq", a=1, b=2)
                td = json.loads(json.dumps(base_t))
                if o["no"] > 1:
                    td[k]["d"][j] = (td[k]["d"][j] + 1) % o["no"]
                    s.add("t_data", r=2, data=td, via="data").add("t_eq", a=1, b=2)
                if o["np"] > 1:
                    td = json.loads(json.dumps(base_t))
                    j2 = rng.choice([q for q in range(o["np"]) if q != j])
                    td[k]["p"][j], td[k]["p"][j2] = td[k]["p"][j2], td[k]["p"][j]
                    s.add("t_data", r=2, data=td, via="data").add("t_eq", a=1, b=2)
            # later operations on one do not change the other
            if places:
                k, j = rng.choice(places)
                s.add("p_set_p", r=3, o=k + 1, i=j, v=rng.randrange(256)).add("p_eq", a=3, b=1).add("p_eq", a=4, b=1)
                s.add("t_set_d", r=4, o=k + 1, i=j, v=rng.randrange(orbits[k]["no"])).add("t_eq", a=4, b=1)
            s.add("p_apply", r=1, a=1, b=1).add("p_eq", a=4, b=1).add("p_eq", a=3, b=4)
        return self.out

    def differences(self):
        """Values that differ in exactly one place: every place of some layouts."""
        rng = self.rng
        for sizes in ([3], [1, 2, 5], [0, 7, 1, 4], [8, 8], [16, 3], [9, 17, 33], [64, 65], [255], [2] * 40, [130, 0, 127]):
            orbits = [{"n": f"o{k}", "np": n, "no": rng.choice([2, 3, 4, 6, 12, 107])} for k, n in enumerate(sizes)]
            d = make_def(orbits, [])
            base_t, base_p = rand_tdata(rng, orbits), rand_pdata(rng, orbits, hm=True)
            places = [(k, j) for k, n in enumerate(sizes) for j in range(n)]
            for at in range(0, len(places), 60):
                s = self.sess(d, nt=2, np=2, nb=0, frame=False, via="data")
                s.add("t_data", r=1, data=base_t, via="data").add("p_data", r=1, data=base_p, via="data")
                for k, j in places[at:at + 60]:
                    no, td = orbits[k]["no"], base_t[k]
                    s.add("p_clone", r=2, a=1, via=rng.choice(["clone", "clone_from"]))
                    e = base_p[k]
                    what = rng.randrange(3)
                    if what == 0:
                        s.add("p_set_p", r=2, o=k + 1, i=j, v=e["p"][j] ^ (1 << rng.randrange(8)))
                    else:
                        m, x = e["m"][j], e["x"][j]
                        pairs = [(m2, x2) for m2 in [0] + divisors(no) for x2 in range(m2 or no) if (m2 % no, x2) != (m % no, x)]
                        same = [q for q in pairs if (q[0] % no == m % no if what == 1 else q[1] == x)]
                        m2, x2 = rng.choice(same or pairs)
                        s.add("p_set_o", r=2, o=k + 1, i=j, v=x2, m=m2)
                    s.add("p_eq", a=1, b=2).add("p_eq", a=2, b=1)
                    s.add("t_clone", r=2, a=1, via=rng.choice(["clone", "clone_from"]))
                    s.add("t_set_d", r=2, o=k + 1, i=j, v=(td["d"][j] + rng.randrange(1, no)) % no)
                    s.add("t_eq", a=1, b=2)
                    if orbits[k]["np"] > 1:
                        j2 = rng.choice([q for q in range(orbits[k]["np"]) if q != j])
                        s.add("t_clone", r=2, a=1, via=rng.choice(["clone", "clone_from"])).add("t_set_p", r=2, o=k + 1, i=j, v=td["p"][j2]).add("t_set_p", r=2, o=k + 1, i=j2, v=td["p"][j])
                        s.add("t_eq", a=2, b=1)
        return self.out

    def balanced_differences(self, n):
        """Values that differ in two or three places so that sums, exclusive ors, multisets or ranks of their numbers agree."""
        rng = self.rng
        for i in range(n):
            sizes = [[3], [8, 8], [2, 5, 3], [12, 8, 6], [16, 3], [9, 17, 33], [24], [64, 65], [255], [2] * 20, [4, 0, 4]][i % 11]
            orbits = [{"n": f"o{k}", "np": m, "no": rng.choice([2, 3, 4, 6, 12, 107])} for k, m in enumerate(sizes)]
            d = make_def(orbits, [])
            base_t, base_p = rand_tdata(rng, orbits), rand_pdata(rng, orbits, hm=bool(i % 2))
            if i % 3 == 0:
                for e in base_p:
                    e["p"] = list(range(len(e["p"])))
            s = self.sess(d, nt=2, np=2, nb=0, frame=False, via="data")
            s.add("t_data", r=1, data=base_t, via="data").add("p_data", r=1, data=base_p, via="data")
            flat = [(k, j) for k, m in enumerate(sizes) for j in range(m)]
            for _ in range(24):
                cnt = min(rng.choice([2, 2, 2, 3, 4]), len(flat))
                how = rng.random()
                if how < 0.4:                               # neighbours in one orbit
                    ks = [k for k, m in enumerate(sizes) if m >= cnt]
                    if not ks:
                        continue
                    k = rng.choice(ks)
                    j = rng.randrange(sizes[k] - cnt + 1)
                    at = [(k, j + q) for q in range(cnt)]
                elif how < 0.8:                             # anywhere in one orbit
                    ks = [k for k, m in enumerate(sizes) if m >= cnt]
                    if not ks:
                        continue
                    k = rng.choice(ks)
                    at = [(k, j) for j in rng.sample(range(sizes[k]), cnt)]
                else:
                    at = rng.sample(flat, cnt)
                deltas = rng.choice({2: [[1, -1], [-1, 1], [2, -2], [128, 128], [16, -16]], 3: [[1, -2, 1], [1, 1, -2], [-1, 2, -1], [64, 64, 128]],
                                     4: [[1, -1, -1, 1], [1, -1, 1, -1], [64, 64, 64, 64], [-1, 1, 1, -1]]}[cnt]) if cnt in (2, 3, 4) else [1] * cnt
                turn = rng.random() < 0.5                   # exchange the values instead of shifting them
                # pieces of a pattern
                old = [base_p[k]["p"][j] for k, j in at]
                new = old[1:] + old[:1] if turn else [(v + q) % 256 for v, q in zip(old, deltas)]
                s.add("p_clone", r=2, a=1, via="clone")
                for (k, j), v in zip(at, new):
                    s.add("p_set_p", r=2, o=k + 1, i=j, v=v)
                s.add("p_eq", a=1, b=2).add("p_eq", a=2, b=1)
                # orientations of a pattern
                old = [(base_p[k]["x"][j], base_p[k]["m"][j] if base_p[k]["hm"] else 0) for k, j in at]
                new = old[1:] + old[:1] if turn and len({k for k, _ in at}) == 1 else \
                    [((x + q) % (m or orbits[k]["no"]), m) for (k, _), (x, m), q in zip(at, old, deltas)]
                s.add("p_clone", r=2, a=1, via="clone")
                for (k, j), (x, m) in zip(at, new):
                    s.add("p_set_o", r=2, o=k + 1, i=j, v=x, m=m)
                s.add("p_eq", a=1, b=2).add("p_eq", a=2, b=1)
                # orientation deltas of a transformation
                old = [base_t[k]["d"][j] for k, j in at]
                if turn and len({k for k, _ in at}) == 1:
                    new = old[1:] + old[:1]
                else:
                    new = [(v + q) % orbits[k]["no"] for (k, _), v, q in zip(at, old, deltas)]
                s.add("t_clone", r=2, a=1, via="clone")
                for (k, j), v in zip(at, new):
                    s.add("t_set_d", r=2, o=k + 1, i=j, v=v)
                s.add("t_eq", a=1, b=2).add("t_eq", a=2, b=1)
                # permutation of a transformation: exchanged within an orbit
                if len({k for k, _ in at}) == 1:
                    old = [base_t[k]["p"][j] for k, j in at]
                    s.add("t_clone", r=2, a=1, via="clone")
                    for (k, j), v in zip(at, old[1:] + old[:1]):
                        s.add("t_set_p", r=2, o=k + 1, i=j, v=v)
                    s.add("t_eq", a=1, b=2).add("t_eq", a=2, b=1)
        return self.out

    # -------------------------------------------------------------------------- C19 buffers
    def buffers(self, n):
        rng = self.rng
        for i in range(n):
            d, refs = rand_def(rng, rng.choice(["small"] * 5 + ["medium", "many", "odd", "crowd"]), nderived=0)
            s = self.sess(d, nt=3, np=2, nb=3, via="data")
            for r in (1, 2):
                s.add("t_data", r=r, data=rand_tdata(rng, d["orbits"]), via="data")
            s.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via="data")
            for _ in range(rng.choice([6, 12, 25])):
                k = rng.random()
                kind = rng.choice("tp")
                if k < 0.5:
                    s.add(kind + "b_apply", r=rng.randint(1, 3), b=rng.randint(1, 3))
                elif k < 0.62:
                    s.add(kind + "b_new", r=rng.randint(1, 3), a=rng.randint(1, 3 if kind == "t" else 2))
                elif k < 0.72:
                    s.add(kind + "b_cur", r=rng.randint(1, 3 if kind == "t" else 2), a=rng.randint(1, 3))
                elif k < 0.88:
                    s.add(kind + "b_eq", a=rng.randint(1, 3), b=rng.randint(1, 3))
                elif k < 0.94:
                    s.add("t_comp", r=rng.randint(1, 3), a=rng.randint(1, 3), b=rng.randint(1, 3))
                else:
                    s.add("p_apply", r=rng.randint(1, 2), a=rng.randint(1, 2), b=rng.randint(1, 3))
            # equal values with different histories
            s.add("tb_new", r=1, a=1).add("tb_apply", r=1, b=2)
            s.add("t_comp", r=3, a=1, b=2).add("tb_new", r=2, a=3).add("tb_eq", a=1, b=2)
            s.add("t_id", r=3).add("tb_apply", r=2, b=3).add("tb_eq", a=1, b=2).add("tb_eq", a=1, b=3)
            s.add("pb_new", r=1, a=1).add("pb_apply", r=1, b=1).add("p_apply", r=2, a=1, b=1)
            s.add("pb_new", r=2, a=2).add("pb_eq", a=1, b=2).add("pb_apply", r=1, b=3).add("pb_eq", a=2, b=1)
            s.add("pb_apply", r=2, b=1).add("pb_eq", a=1, b=2)
        return self.out

    def buffers_scale(self, lengths, counts):
        """Many applications, one by one and in bursts; what the buffer shows is read and compared on the way."""
        rng = self.rng
        for n in lengths:
            for kinds in ("t", "p", "tp"):
                d, refs = rand_def(rng, "small", nderived=0)
                s = self.sess(d, nt=3, np=2, nb=2, frame=False, via="data")
                for r in (1, 2, 3):
                    s.add("t_data", r=r, data=rand_tdata(rng, d["orbits"]), via="data")
                s.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via="data")
                for kind in kinds:
                    s.add(kind + "b_new", r=1, a=1).add(kind + "b_new", r=2, a=1)
                for i in range(n):
                    kind = rng.choice(kinds)
                    s.add(kind + "b_apply", r=rng.choice([1, 1, 1, 2]), b=rng.randint(1, 3))
                    if rng.random() < 0.02:
                        s.add(kind + "b_eq", a=1, b=2)
                    if rng.random() < 0.02:
                        s.add(kind + "b_cur", r=2, a=1)
        for i in range(4):
            d, refs = rand_def(rng, "small" if i else "medium", nderived=0)
            s = self.sess(d, nt=3, np=2, nb=2, frame=False, via="data")
            for r in (1, 2, 3):
                s.add("t_data", r=r, data=rand_tdata(rng, d["orbits"]), via="data")
            s.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via="data")
            for kind in "tp":
                s.add(kind + "b_new", r=1, a=1).add(kind + "b_new", r=2, a=1)
                for n in rng.sample(counts, min(3, len(counts))) + [1, 2, 3]:
                    s.add(kind + "b_apply", r=1, b=rng.randint(1, 3), times=n).add(kind + "b_apply", r=rng.randint(1, 2), b=rng.randint(1, 3))
                    s.add(kind + "b_eq", a=1, b=2).add(kind + "b_cur", r=2, a=1)
                # forth and back again
                n = rng.choice(counts)
                s.add(kind + "b_new", r=2, a=2).add(kind + "b_new", r=1, a=2).add("t_inv", r=3, a=1)
                s.add(kind + "b_apply", r=1, b=1, times=n).add(kind + "b_apply", r=1, b=3, times=n).add(kind + "b_eq", a=1, b=2)
        return self.out

    # ------------------------------------------------------------------- C24 slot accessors
    def slots(self, n, big):
        rng = self.rng
        for i in range(n + big):
            size = ("host" if i == n else "vast" if i == n + 1 else "big") if i >= n else rng.choice(["small"] * 4 + ["many"] * 3 + ["medium", "odd", "crowd"])
            d, refs = rand_def(rng, size, nderived=0)
            orbits = d["orbits"]
            s = self.sess(d, nt=2, np=2, nb=0, frame=True if size not in LARGE else False, via=self.via())
            s.add("info")
            s.add("t_data", r=1, data=rand_tdata(rng, orbits), via="data")
            s.add("p_data", r=1, data=rand_pdata(rng, orbits), via="data")
            for _ in range(18):
                k = rng.randrange(len(orbits))
                o = orbits[k]
                i_ = rng.choice([0, max(0, o["np"] - 1), o["np"], min(255, o["np"] + 1), 255, rng.randrange(256)]
                                + [rng.randrange(max(1, o["np"]))] * 6)
                op = rng.choice(["t_set_p", "t_set_d", "t_get", "p_set_p", "p_set_o", "p_get"])
                kw = dict(r=rng.randint(1, 2), o=k + 1, i=i_)
                if op in ("t_get", "p_get"):
                    s.add(op, what=rng.choice("px"), **kw)
                elif op == "t_set_p":
                    s.add(op, v=rng.choice([0, max(0, o["np"] - 1), o["np"], 255, rng.randrange(max(1, o["np"]))]), **kw)
                elif op == "t_set_d":
                    s.add(op, v=rng.choice([0, o["no"] - 1, o["no"], 255, rng.randrange(o["no"])]), **kw)
                elif op == "p_set_p":
                    s.add(op, v=rng.randrange(256), **kw)
                else:
                    m = rng.choice([0, 0] + divisors(o["no"]) + [rng.randrange(256)])
                    lim = (m or o["no"])
                    s.add(op, m=m, v=rng.choice([0, lim - 1, min(255, lim), 255, rng.randrange(lim)]), **kw)
                if rng.random() < 0.5 and o["np"]:
                    j = rng.randrange(o["np"])
                    s.add(rng.choice(["t_get", "p_get"]), r=kw["r"], o=k + 1, i=j, what=rng.choice("px"))
            if size in LARGE:   # read everything back through data
                s.add("p_clone", r=2, a=1, via=rng.choice(["clone", "clone_from"])).add("t_clone", r=2, a=1, via=rng.choice(["clone", "clone_from"]))
        return self.out

    def every_slot(self):
        """Every slot of some layouts written once in some order with telling values, then every slot read."""
        rng = self.rng
        for sizes in ([1], [3, 4], [5, 0, 2], [7, 9], [8, 16, 3], [24, 8, 12], [65, 31], [2] * 20, [255], [129, 127, 1]):
            orbits = [{"n": f"o{k}", "np": n, "no": rng.choice([2, 3, 4, 6, 12, 101, 107])} for k, n in enumerate(sizes)]
            d = make_def(orbits, [], dflt=rand_pdata(rng, orbits))
            places = [(k, j) for k, n in enumerate(sizes) for j in range(n)]
            s = self.sess(d, nt=1, np=1, nb=0, frame=False, via=self.via()).add("info")
            rng.shuffle(places)
            perms = [rand_perm(rng, n, "full") for n in sizes]
            for k, j in places:
                no = orbits[k]["no"]
                m = rng.choice([0] + divisors(no))
                todo = [("p_set_p", dict(v=rng.randrange(256))), ("p_set_o", dict(m=m, v=rng.randrange(m or no))),
                        ("t_set_p", dict(v=perms[k][j])), ("t_set_d", dict(v=rng.randrange(no)))]
                rng.shuffle(todo)
                for op, kw in todo:
                    s.add(op, r=1, o=k + 1, i=j, **kw)
            places.sort()
            for k, j in places:
                for op in ("t_get", "p_get"):
                    for w in "px":
                        s.add(op, r=1, o=k + 1, i=j, what=w)
            for k, n in enumerate(sizes):      # the first place that is not one
                if n < 256:
                    s.add("p_set_p", r=1, o=k + 1, i=n, v=0).add("p_set_o", r=1, o=k + 1, i=n, v=0, m=0).add("t_set_p", r=1, o=k + 1, i=n, v=0)
                    s.add("t_set_d", r=1, o=k + 1, i=n, v=0).add("t_get", r=1, o=k + 1, i=n, what="p").add("p_get", r=1, o=k + 1, i=n, what="x")
            s.add("p_back", r=1, a=1, via="data").add("t_back", r=1, a=1, via="data")
        return self.out

    # ----------------------------------------------------------------------- C21 threads
    # T 1, 2 and P 1 are never written by the programs, so that every thread may read the shared ones
    def threads(self, n, length=14, programs=6, rep=1):
        rng = self.rng
        for i in range(n):
            d, refs = rand_def(rng, rng.choice(["small", "small", "medium", "many", "odd", "crowd", "big" if i % 3 == 0 else "odd"]), nderived=rng.choice([0, 1, 2]))
            self.sid += 1
            start = Sess(0, d, via=rng.choice(["data", "json"]))
            for r in (1, 2, 3, 4):
                if refs and rng.random() < 0.3:
                    f, p = rng.choice(refs)
                    start.add("t_move", r=r, mv=mv(f, rand_amt(rng), p))
                else:
                    start.add("t_data", r=r, data=rand_tdata(rng, d["orbits"]), via=rng.choice(["data", "json"]))
            start.add("p_data", r=1, data=rand_pdata(rng, d["orbits"]), via="data")
            common = self.program(refs, length, rep)
            self.out.append({"sid": self.sid, "kind": "th", "def": d, "nt": 4, "np": 3, "nb": 2, "via": "shared", "frame": False,
                             "errs": False, "init": start.s["ev"],
                             "programs": [common if t < 2 else self.program(refs, length, rep) for t in range(programs)]})
        return self.out

    def threads_deep(self, shapes):
        """All threads are inside deep and long algs, and long chains of derived moves, at the same time."""
        rng = self.rng
        for depth, length, chain, rep in shapes:
            orbits = [{"n": "A", "np": 3, "no": 2}]
            name = lambda j: "D_" + "".join(chr(97 + int(x)) for x in str(j))
            derived = [{"k": mv(name(j)), "a": rng.choice([lambda m: [m], lambda m: [grp([m], -1)], lambda m: [conj([mv("R")], [m])]])(mv(name(j + 1) if j + 1 < chain else "R"))}
                       for j in range(chain)]
            d = make_def(orbits, [{"k": mv(x), "t": rand_tdata(rng, orbits, "full")} for x in ("R", "U")], derived)
            refs = [("R", ()), ("U", ())]
            self.sid += 1

            def program():
                s = Sess(0, make_def([], []), via=None)
                for _ in range(3):
                    if depth:
                        s.add("t_alg", r=3, txt=self.deep_alg(refs, depth), rep=rep)
                    if length:
                        s.add("t_alg", r=3, alg=rand_alg(rng, refs, length, 1), rep=rep)
                        s.add("p_alg", r=2, a=1, alg=rand_alg(rng, refs, length, 1), sh=1, rep=rep)
                    if chain:
                        s.add("t_move", r=3, mv=mv(name(rng.randrange(3)), rng.choice([1, -1, 3])), rep=rep)
                return s.s["ev"]
            common = program()
            start = Sess(0, d, via="data").add("p_default", r=1)
            self.out.append({"sid": self.sid, "kind": "th", "def": d, "nt": 4, "np": 3, "nb": 0, "via": "shared", "frame": False,
                             "errs": False, "init": start.s["ev"],
                             "programs": [common if t < 2 else program() for t in range(8)]})
        return self.out

    def threads_tiny(self, n, length=4, programs=3):
        """Small enough to be interpreted instruction by instruction."""
        rng = self.rng
        for i in range(n):
            orbits = [{"n": x, "np": rng.randint(1, 3), "no": rng.choice([1, 2, 3, 4])} for x in rng.sample(["A", "B"], rng.choice([1, 1, 2]))]
            d, refs = rand_def(rng, nmoves=2, nderived=rng.choice([0, 1]), orbits=orbits)
            self.sid += 1
            start = Sess(0, d, via="data")
            for r in (1, 2):
                start.add("t_data", r=r, data=rand_tdata(rng, orbits), via="data")
            start.add("p_data", r=1, data=rand_pdata(rng, orbits), via="data")
            # the first operation of all threads is the same, so what is made or cached on first use meets
            common = self.program(refs, 1, 1)
            self.out.append({"sid": self.sid, "kind": "th", "def": d, "nt": 4, "np": 3, "nb": 2, "via": "shared", "frame": False,
                             "errs": False, "init": start.s["ev"],
                             "programs": [common + self.program(refs, length - 1, 1) for t in range(programs)]})
        return self.out

    def first_use(self, puz, d, refs, programs=6):
        self.sid += 1
        common = self.program(refs, 8, 1)
        self.out.append({"sid": self.sid, "kind": "th", "def": d, "puz": puz, "nt": 4, "np": 3, "nb": 2, "via": "first-use",
                         "frame": False, "errs": False, "init": [],
                         "programs": [common if t < 3 else self.program(refs, 8, 1) for t in range(programs)]})
        return self.out

    def makers(self, rep):
        """Puzzles with derived moves in several layers are made, evaluated and dropped, one by one or side by side."""
        rng = self.rng
        orbits = [{"n": rng.choice(["A", "B"]), "np": rng.randint(1, 4), "no": rng.choice([1, 2, 3, 12])}]
        defs = [make_def(orbits, [{"k": mv("A"), "t": rand_tdata(rng, orbits, "full")}],
                         [{"k": mv(x), "a": [mv(y), mv(y, rng.choice([1, -1])), mv(y)]} for x, y in ("BA", "CB", "DC")]) for _ in range(rng.choice([1, 2]))]
        qs = [{"k": rng.randint(1, len(defs)), "txt": codes(rng.choice(["D", "D C' D2 B", "[D, C]", "A", "Q", "(B C)3"]))} for _ in range(4)]
        return {"op": "k_many", "defs": defs, "alive": rng.random() < 0.6, "qs": qs, "rep": rng.randint(1, rep)}

    def program(self, refs, n, rep):
        rng = self.rng
        s = Sess(0, make_def([], []), via=None)
        alg = lambda k: rand_alg(rng, refs, rng.randint(1, k), 2)
        for _ in range(n):
            k = rng.random()
            r, q = rng.choice([3, 4]), rng.choice([2, 3])
            any_t, sh_t = rng.randint(1, 4), rng.choice([1, 2])
            again = {"rep": rng.randint(1, rep)} if rep > 1 else {}
            if k < 0.08 and rep > 1:
                s.s["ev"].append(self.makers(rep))
                if rng.random() < 0.5:
                    s.add("misuse", k=rng.choice([2 ** rng.randrange(16), rng.getrandbits(16)]))
                    s.add("twin", via=rng.choice(["data", "json"]))
            elif k < 0.14 and rep > 1 and refs:
                shape = alg(4)
                s.add("t_many", txts=[codes(alg_text(self.variant(shape, refs, rng.choice([0, 0.05])))) for _ in range(4)], **again)
            elif k < 0.2:
                s.add("t_alg", r=r, alg=alg(4), **again)
            elif k < 0.3 and refs:
                f, p = rng.choice(refs)
                s.add("t_move", r=r, mv=mv(f, rand_amt(rng), p), **again)
            elif k < 0.42:
                s.add("t_comp", r=r, a=sh_t, b=rng.choice([1, 2]), sh=1, **again)
            elif k < 0.48:
                s.add(rng.choice(["t_comp", "t_into"]), r=r, a=any_t, b=rng.randint(1, 4))
            elif k < 0.58:
                s.add("p_apply", r=q, a=1, b=sh_t, sh=1, **again)
            elif k < 0.64:
                s.add(rng.choice(["p_apply", "p_into"]), r=q, a=rng.randint(1, 3), b=any_t)
            elif k < 0.72:
                s.add("p_alg", r=q, a=1, alg=alg(3), sh=1, **again)
            elif k < 0.8:
                s.add(rng.choice(["tb_apply", "pb_apply"]), r=rng.randint(1, 2), b=any_t)
            elif k < 0.86:
                s.add("t_inv", r=r, a=sh_t, sh=1, **again)
            elif k < 0.9:
                s.add("p_eq", a=rng.randint(1, 3), b=rng.randint(1, 3), **again)
            elif k < 0.94:
                s.add("p_clone", r=q, a=1, sh=1, via=rng.choice(["clone", "clone_from"]), **again)
            else:
                s.add("t_clone", r=r, a=sh_t, sh=1, via=rng.choice(["clone", "clone_from"]), **again)
        return s.s["ev"]

    # ------------------------------------------------------------------------- C23 errors
    def errors(self, n):
        rng = self.rng
        for i in range(n):
            # names of every length, with characters of several bytes, that messages may repeat or shorten
            orbits = rand_orbits(rng, rng.choice(["small", "small", "many", "medium"]),
                                 names=list(dict.fromkeys(odd_name(rng) for _ in range(10))) if rng.random() < 0.6 else None)
            d, refs = rand_def(rng, "small", orbits=orbits)
            s = self.sess(d, nt=1, np=1, nb=0, errs=True, via="data")
            long = "".join(rng.choice(FAM_CHARS) for _ in range(rng.choice([1, 40, 130, 300])))
            s.add("t_move", r=1, mv=mv(long + "q", rand_amt(rng), rng.choice(PREFIXES)))
            s.add("t_move", r=1, mv=mv(rng.choice(["Q", "Undefined", "_PLUS_", "_SLASH_", "X_PLUS_", "U_PLUSPLUS_"]),
                                      rand_amt(rng), rng.choice(PREFIXES)))
            s.add("p_move", r=1, a=1, mv=mv("Undefined", rand_amt(rng)))
            s.add("t_alg", r=1, alg=[grp([comm([mv("Undefined", 3)], [])], 2)])
            s.add("p_alg", r=1, a=1, alg=[mv("_SLASH_", -2)])
            s.add("t_data", r=1, data=break_tdata(rng, orbits, rand_tdata(rng, orbits)), via=rng.choice(["data", "json"]))
            s.add("p_data", r=1, data=break_pdata(rng, orbits, rand_pdata(rng, orbits)), via=rng.choice(["data", "json"]))
            s.add("t_text", txt=codes(rng.choice(["", "{", "[]", "null", "{\"A\":1}"])))
            s.add("p_text", txt=codes(rng.choice(["", "{", "[]", "null", "{\"A\":1}"])))
            s.add("puzzle_text", txt=codes(rng.choice(["", "{", "[]", "null", "{\"name\":1}"])))
            s.add("t_text", txt=codes(json.dumps({odd_name(rng): odd_name(rng)}, ensure_ascii=rng.random() < 0.5)))
            s.add("p_text", txt=codes(json.dumps(odd_name(rng), ensure_ascii=rng.random() < 0.5)))
            s.add("puzzle_text", txt=codes(json.dumps({"name": odd_name(rng), "moves": {odd_name(rng) + "(": {}}}, ensure_ascii=False)))
            zz = rng.choice(["Zz", long + "z"])
            bad = make_def(orbits, d["moves"], [{"k": mv(zz), "a": [mv(rng.choice([zz, "Undefined", long + "u"]), 2)]}], None, odd_name(rng))
            self.sess(bad, nt=1, np=0, nb=0, errs=True, via=rng.choice(["data", "json"]))
        return self.out


def respell(rng, m):
    pre = "-".join(("0" * rng.randint(0, 2)) + s_(p) for p in m["pre"])
    a = m["amt"]
    if s_(m["fam"]) == SLASH and not pre and a == 1 and rng.random() < 0.5:
        return "/"
    num = ("0" * rng.randint(0, 2)) + str(abs(a))
    if abs(a) == 1 and rng.random() < 0.5:
        num = ""
    return pre + s_(m["fam"]) + num + ("'" if a < 0 else rng.choice(["", "'"]) if a == 0 else "")


FAM = re.compile(r"[A-Za-z_]+")


def near_keys(rng, fam, pre, amt=1, n=6):
    """Moves whose family or prefix is only like the given one: the same layers in other words, another case."""
    t, p = s_(fam), [int(s_(x)) for x in pre]
    fams = [t.swapcase(), t.lower(), t.upper(), t + "w", t + "v", t[:-1], t[1:], t + "_PLUS_", t + "_PLUSPLUS_", t + "_", "_" + t,
            t.replace("_PLUS_", ""), t.replace("_PLUS_", "_PLUSPLUS_"), t.replace("_PLUSPLUS_", "_PLUS_"), t + t, t[::-1], t[:-3], "_SLASH_"]
    last = p[-1] if p else 1
    pres = [[], [0], [1], [2], [last], [1, last], [last, last], [1, 1], [1, 2], [0, last], [0, 1], [last, 1], [2, 1], p[::-1], [last + 1], p[:1]]
    near = [(f, p) for f in fams] + [(t, q) for q in pres] + [(f, q) for f in fams[:5] for q in pres]
    near = [(f, q) for f, q in near if (f, q) != (t, p) and FAM.fullmatch(f) and all(x < 2**32 for x in q)]
    return [mv(f, rng.choice([amt, amt, 1, -1, 2]), q) for f, q in rng.sample(near, min(n, len(near)))]


def balanced(p):
    """Lists that are no permutations but have the sum (and for wider blocks the sums of powers) and the
    exclusive or of one: in a block of values half are replaced by the others (Thue and Morse)."""
    out = []
    n = len(p)
    for width in (4, 8, 16):
        for at in sorted({0, (n // 2) // width * width, (n - width) // width * width} if n >= width else ()):
            if at + width > n:
                continue
            odd = [at + v for v in range(width) if bin(v).count("1") % 2]
            even = [at + v for v in range(width) if not bin(v).count("1") % 2]
            out.append([even[odd.index(v)] if v in odd else v for v in p])
            out.append([odd[even.index(v)] if v in even else v for v in p])
    return out


def break_tdata(rng, orbits, data):
    data = json.loads(json.dumps(data))
    cand = [k for k, o in enumerate(orbits)]
    k = rng.choice(cand)
    o = orbits[k]
    e = next((x for x in data if x["o"] == o["n"]), None)
    if e is None:
        return data
    how = rng.choice(["missing", "short_p", "long_p", "short_d", "long_d", "dup", "range_p", "range_d", "balanced"])
    if how == "missing":
        data.remove(e)
    elif how == "balanced" and len(e["p"]) >= 4:
        e["p"] = rng.choice(balanced(e["p"]))
    elif how == "short_p" and e["p"]:
        e["p"].pop()
    elif how == "long_p":
        e["p"].append(rng.choice([len(e["p"]) % 256, 0]))
    elif how == "short_d" and e["d"]:
        e["d"].pop()
    elif how == "long_d":
        e["d"].append(0)
    elif how == "dup" and len(e["p"]) >= 2:
        i, j = rng.sample(range(len(e["p"])), 2)
        e["p"][i] = e["p"][j]
    elif how == "range_p" and e["p"]:
        e["p"][rng.randrange(len(e["p"]))] = rng.choice([min(255, o["np"]), 255, min(255, o["np"] + 1)])
    elif how == "range_d" and e["d"]:
        e["d"][rng.randrange(len(e["d"]))] = rng.choice([min(255, o["no"]), 255, min(255, o["no"] + 1), 128])
    return data


def break_pdata(rng, orbits, data):
    data = json.loads(json.dumps(data))
    k = rng.randrange(len(orbits))
    o = orbits[k]
    e = next((x for x in data if x["o"] == o["n"]), None)
    if e is None:
        return data
    how = rng.choice(["missing", "short_p", "long_p", "short_x", "long_x", "short_m", "long_m", "range_x", "range_m",
                      "mod", "mod", "range_xm"])
    n = len(e["x"])
    if how == "missing":
        data.remove(e)
    elif how == "short_p" and e["p"]:
        e["p"].pop()
    elif how == "long_p":
        e["p"].append(0)
    elif how == "short_x" and e["x"]:
        e["x"].pop()
    elif how == "long_x":
        e["x"].append(0)
    elif how == "short_m" and n:
        e["hm"], e["m"] = True, (e["m"] or [0] * n)[:-1]
    elif how == "long_m":
        e["hm"], e["m"] = True, (e["m"] or [0] * n) + [0]
    elif how == "range_x" and n:
        e["x"][rng.randrange(n)] = rng.choice([min(255, o["no"]), 255, min(255, o["no"] + 1)])
    elif n:
        i = rng.randrange(n)
        e["hm"] = True
        if len(e["m"]) != n:
            e["m"] = [0] * n
        if how == "range_xm":
            m = rng.choice(divisors(o["no"]))
            e["m"][i], e["x"][i] = m, min(255, m + rng.choice([0, 0, 1]))
        else:
            e["m"][i] = rng.choice([q for q in range(1, 256) if o["no"] % q] or [255]) if rng.random() < 0.7 else \
                rng.choice([255, 254, 128, min(255, 2 * o["no"])])
            e["x"][i] = rng.choice([0, e["x"][i]])
    return data


# ---- the acceptance rule once more, for scripting only (what may be evaluated after creation)

def key(m):
    return (tuple(m["fam"]), tuple(tuple(p) for p in m["pre"]), m["amt"])


def inv_move(m):
    return m if s_(m["fam"]) == SLASH and not m["pre"] else neg(m)


def resolve(d, m):
    mt = {key(x["k"]) for x in d["moves"]}
    dt = {key(x["k"]): x for x in d["derived"]} if d["hasd"] else {}
    for c in (dict(m, amt=1), m, inv_move(m)):
        if key(c) in mt:
            return "direct"
        if key(c) in dt:
            return dt[key(c)]
    return None


def moves_in(alg):
    for n in alg:
        if n["t"] == "move":
            yield n
        elif n["t"] == "grp":
            yield from moves_in(n["alg"])
        elif n["t"] in ("comm", "conj"):
            yield from moves_in(n["a"])
            yield from moves_in(n["b"])


def accepted(d):
    state = {}

    def ok(m):
        r = resolve(d, m)
        if r is None:
            return False
        if r == "direct":
            return True
        k = key(r["k"])
        if k in state:
            return state[k]
        state[k] = False
        state[k] = all(ok(x) for x in moves_in(r["a"]))
        return state[k]
    return all(ok(x["k"]) for x in d["derived"])
