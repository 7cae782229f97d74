"""Seeded generators of notation sessions (scripts for the real code, later validated by TraceAlg)."""
import json, random
from gen_kp import codes, s_, mv, grp, comm, conj, cmt, PAUSE, NL, SLASH, USQ, DSQ, MAXI, alg_text, is_tuple, move_text

U32 = 2**32 - 1
FAMILIES = ["R", "U", "Rw", "r", "x", "_", "__", "BL", "Uv", "M", "z_a", "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
            "_SLASH_", "_SLASH", "SLASH_", "R_SLASH_", "_PLUS_", "X_PLUS_", "_PLUSPLUS_", "X_PLUSPLUS_", "_PLUS__PLUS_",
            "_PLUSPLUS__PLUS_", "_PLUS__PLUSPLUS_", "R_PLUS", "PLUS_", "U_SQ_", "D_SQ_", "U_SQ", "_SQ_", "UU_SQ_", "UD_SQ_"]
AMOUNTS = [1, 1, 1, -1, -1, 2, 2, -2, 3, -3, 0, 10, -10, 99, 1000, 2**16, MAXI, -MAXI, MAXI - 1, -(MAXI - 1)]
LAYERS = [1, 2, 3, 0, 10, 37, U32, U32 - 1, 2**31, 2**31 - 1]
# characters that a wrong character class, trimming or normalisation would let through
STRANGE = list("\t\r\0\x0b\x0c\x7f!\"#$%&*;<=>?@\\^`{|}~") + [
    "\u00a0", "\u2019", "\u2018", "\u2032", "\u02bc", "\u0660", "\uff11", "\u00b2", "\u00e9", "\u00df", "\u0130", "\u212a",
    "\uff32", "\u2028", "\u2029", "\u0085", "\u200b", "\ufeff", "\u2212", "\u2013", "\uff0c", "\uff08", "\U0001f600", "\U0010ffff", "\u0301"]
NORMAL = list("RUFLDBrufldbxyzMES_w0123456789'()[],:/ .+-\n")


class NGen:
    def __init__(self, seed, prop):
        self.rng = random.Random(f"{seed}/{prop}/nt")
        self.sid = 0
        self.out = []
        self.ev = []

    # events are packed into sessions of a bounded size
    def add(self, op, **kw):
        self.ev.append(dict(op=op, **kw))
        if len(self.ev) >= 200:
            self.flush()

    def flush(self):
        if self.ev:
            self.sid += 1
            self.out.append({"sid": self.sid, "kind": "nt", "ev": self.ev})
            self.ev = []

    def done(self):
        self.flush()
        return self.out

    # --------------------------------------------------------------- structures
    def fam(self):
        rng = self.rng
        if rng.random() < 0.8:
            return rng.choice(FAMILIES if rng.random() < 0.4 else FAMILIES[:6])
        if rng.random() < 0.4:
            return (rng.choice(["R", "UR", "ALL", "BR", "_", "u", "U_SQ_", "_PLUS_", "_SLASH_", ""])
                    + rng.choice(["_PLUS_", "_PLUSPLUS_", "_SLASH_", "_SQ_", "_MINUS_", "_PLUS", "_plus_"]))
        return "".join(rng.choice("ABRSTUXYZabrstuxyz_") for _ in range(rng.choice([1, 2, 3, 8, 40] * 4 + [63, 64, 65, 130, 300])))

    def amt(self):
        rng = self.rng
        k = rng.random()
        return rng.choice(AMOUNTS) if k < 0.7 else rng.randint(-13, 13) if k < 0.9 else rng.choice([-1, 1]) * rng.randrange(MAXI + 1)

    def pre(self):
        rng = self.rng
        lay = lambda: rng.choice(LAYERS) if rng.random() < 0.9 else rng.randrange(U32 + 1)
        k = rng.random()
        return () if k < 0.6 else (lay(),) if k < 0.8 else (lay(), lay())

    def move(self):
        return mv(self.fam(), self.amt(), self.pre())

    def comment(self):
        rng = self.rng
        n = rng.choice([0, 1, 3, 12])
        return cmt("".join(rng.choice(NORMAL[:-1] + STRANGE + ["//", "]", ")", ", "]) for _ in range(n)))

    def tuple_(self):
        return grp([mv(USQ, self.rng.choice([-6, -5, -1, 0, 1, 2, 6, self.amt()])), mv(DSQ, self.rng.choice([-5, -1, 0, 1, 3, 6, self.amt()]))], 1)

    def node(self, depth):
        rng = self.rng
        k = rng.random()
        if depth <= 0 or k < 0.5:
            k = rng.random()
            if k < 0.62:
                return self.move()
            if k < 0.68:
                return mv(SLASH, rng.choice([1, 1, 1, -1, 2]))
            if k < 0.76:
                return PAUSE
            if k < 0.86:
                return NL
            if k < 0.93:
                return self.comment()
            return self.tuple_()
        size = lambda: rng.choice([0, 1, 1, 2, 3])
        if k < 0.7:
            if rng.random() < 0.12:      # nearly a tuple
                m = self.tuple_()
                t = rng.randrange(5)
                if t == 0:
                    m["amt"] = rng.choice([-1, 2, 0])
                elif t == 1:
                    m["alg"].append(rng.choice([NL, PAUSE, mv("R")]))
                elif t == 2:
                    m["alg"].reverse()
                elif t == 3:
                    m["alg"][rng.randrange(2)]["pre"] = [codes("2")]
                else:
                    m["alg"].pop()
                return m
            return grp(self.alg(size(), depth - 1), self.amt())
        one = self.alg(size(), depth - 1)
        two = one if self.rng.random() < 0.15 else self.alg(size(), depth - 1)
        return comm(one, two) if k < 0.85 else conj(one, two)

    def alg(self, size, depth):
        return [self.node(depth) for _ in range(size)]

    def any_alg(self):
        rng = self.rng
        k = rng.random()
        if k < 0.06:      # a chain of brackets
            alg = self.alg(1, 0)
            for _ in range(rng.randint(5, 22)):
                x = self.alg(rng.choice([0, 1]), 0)
                alg = [rng.choice([lambda: grp(alg, self.amt()), lambda: grp(alg, 1), lambda: comm(alg, x), lambda: comm(x, alg), lambda: conj(alg, x),
                                   lambda: conj(x, alg)])()] + (self.alg(1, 0) if rng.random() < 0.3 else [])
            return alg
        return self.alg(rng.choice([0, 1, 1, 2, 3, 5, 8, 20 if k < 0.12 else 4]), rng.choice([0, 1, 2, 3, 4]))

    def sweep(self):
        """Every kind of family with every kind of prefix and every small amount (and some others)."""
        for f in FAMILIES:
            for a in list(range(-13, 14)) + [self.amt() for _ in range(6)]:
                yield mv(f, a, ())
                yield mv(f, a, self.rng.choice([(0,), (1,), (2,), (U32,), (1, 1), (1, 2), (3, 2), (0, 0), (U32, U32), (2, U32)]))

    # -------------------------------------------------------------------- scale
    SIZES = [33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 513, 700, 1000, 1025]

    def one(self, op, **kw):
        """A session of its own."""
        self.flush()
        self.add(op, **kw)
        self.flush()

    def long_algs(self, sizes=None):
        """Algs of many nodes: side by side, and inside of each kind of bracket."""
        for n in sizes or self.SIZES + [2000, 4100]:
            alg = self.alg(n, 1)
            for wrap in (lambda a: a, lambda a: [grp(a, self.amt())], lambda a: [comm(a, [mv("R")])], lambda a: [comm([mv("R")], a)],
                         lambda a: [conj(a, [mv("R")])], lambda a: [conj([mv("R")], a)]) if n < 1100 else (lambda a: a,):
                yield wrap(alg)

    def nested_algs(self, n):
        """Brackets in brackets, as deep as the scripts can carry."""
        rng = self.rng
        for _ in range(n):
            alg = self.alg(rng.choice([0, 1, 2]), 0)
            for _ in range(rng.randint(20, 54)):
                x = self.alg(rng.choice([0, 1]), 0)
                alg = [rng.choice([lambda: grp(alg, self.amt()), lambda: grp(alg, 1), lambda: comm(alg, x), lambda: comm(x, alg), lambda: conj(alg, x),
                                   lambda: conj(x, alg)])()] + (self.alg(1, 0) if rng.random() < 0.3 else [])
            yield alg

    def deep_texts(self, depths):
        """Deeper still, as texts: every kind of bracket on its own, and mixed."""
        rng = self.rng
        pairs = [("(", ")"), ("(", ")2"), ("(", ")'"), ("(U ", " F)3'"), ("[", ": U]"), ("[R: ", "]"), ("[R, ", "]"), ("[", ", D2]"), ("[", ", D2]'"), ("[,", "]2")]
        for d in depths:
            for o, e in pairs:
                yield o * d + "R" + e * d
            for _ in range(4):
                use = [rng.choice(pairs) for _ in range(d)]
                yield "".join(o for o, _ in use) + self.spelled(self.alg(2, 0)) + "".join(e for _, e in reversed(use))
            yield "(" * d + "R" + ")" * (d - 1)
            yield "(" * d + "R" + ")" * (d + 1)
            yield "(" * d + "R" + ")" * (d - 1) + "]"

    def long_texts(self):
        """One thing of a text that is much longer than usual."""
        rng = self.rng
        ns = self.SIZES + [2000, 4095, 4096, 4097]
        for n in ns:
            fam = "".join(rng.choice("ABRSTUXYZabrstuxyz_") for _ in range(n))
            yield from (fam, fam + "2'", "2-3" + fam + "'", fam[:-6] + "_PLUS_3", fam + "++", fam + "3-", f"({fam} U)2", f"[{fam}, {fam}']")
            for f in ("R{}U", "{}R", "R{}", "(R{}U)", "({}R)", "[R{},{}U]", "[R:{}U]"):
                for fill in (" ", "\n", " \n"):
                    yield f.replace("{}", fill * n)
            z = "0" * n
            yield from (f"R{z}", f"R{z}3", f"{z}2R", f"{z}1-{z}2R'", f"({z}3, -{z}2)", f"(R){z}7'", f"[R: U]{z}1", f"R{z}2147483648", f"{z}4294967295R", f"{z}4294967296R",
                        f"R{z}2+", f"R2{z}")
            c = "".join(rng.choice("ab /[](),:'2\u00e9\u2019\U0001f600") for _ in range(n))
            yield from ("//" + c, "R //" + c + "\nU", "(//" + c + "\n)2", "[R, //" + c + "\n]", "//" + c + "]")
            for f in ("R ", ". ", "/ ", "R' (U) ", "//c\n", "\n", "(1, -2) / ", "[R, U]2 ", "[R: U] \n", "2-3Rw2' "):
                t = (f * n)[:-1]
                yield t
                if n < 600:
                    yield "(" + f * n + ")2"
                    yield "[" + f * n + "," + f * n + "]"
                    yield t + rng.choice([")", "]", ",", " U)", "R R", "x2x", "@"])

    # -------------------------------------------------------------------- texts
    def spelled(self, alg):
        """A random spelling of the alg: other spacings and amounts (not always a valid one)."""
        rng = self.rng

        def num(n):
            return ("0" * rng.choice([0, 0, 0, 1, 3])) + str(abs(n))

        def amount(n):
            if n == 1 and rng.random() < 0.8:
                return ""
            if n == -1 and rng.random() < 0.8:
                return "'"
            return num(n) + ("'" if n < 0 or (n == 0 and rng.random() < 0.3) else "")

        def sp():
            return " " * rng.choice([0, 0, 0, 1, 2])

        def text(alg):
            out, prev = sp(), None
            for n in alg:
                if prev is not None:
                    if prev["t"] == "cmt" and n["t"] != "nl":
                        out += "\n"
                    elif prev["t"] != "nl" and n["t"] != "nl" and rng.random() < 0.995:
                        out += " "
                    if prev["t"] != "cmt":
                        out += sp()
                out += node(n)
                prev = n
            return out + ("\n" if prev and prev["t"] == "cmt" else sp())

        def node(n):
            t = n["t"]
            if t == "move":
                f, pre = s_(n["fam"]), "-".join(("0" * rng.choice([0, 0, 0, 2])) + s_(p) for p in n["pre"])
                if f == SLASH and not pre and n["amt"] == 1 and rng.random() < 0.8:
                    return "/"
                for suf, one, two in (("_PLUS_", "+", "-"), ):
                    if f.endswith(suf) and len(f) > len(suf) and rng.random() < 0.7:
                        return pre + f[: -len(suf)] + num(n["amt"]) + (two if n["amt"] < 0 else one)
                if f.endswith("_PLUSPLUS_") and len(f) > 10 and abs(n["amt"]) == 1 and rng.random() < 0.7:
                    return pre + f[:-10] + ("--" if n["amt"] < 0 else "++")
                return pre + f + amount(n["amt"])
            if t == "pause":
                return "."
            if t == "nl":
                return "\n"
            if t == "cmt":
                return "//" + s_(n["txt"])
            if t == "grp":
                if is_tuple(n) and rng.random() < 0.8:
                    z = lambda q: ("-" if q < 0 or (q == 0 and rng.random() < 0.1) else "") + num(q)
                    return f"({z(n['alg'][0]['amt'])}, {z(n['alg'][1]['amt'])})"
                return "(" + text(n["alg"]) + ")" + amount(n["amt"])
            sep = "," if t == "comm" else ":"
            return "[" + text(n["a"]) + sep + text(n["b"]) + "]" + ("1" if rng.random() < 0.05 else "")
        return text(alg)

    def mutate(self, text, times):
        rng = self.rng
        t = list(text)
        for _ in range(times):
            k = rng.randrange(7)
            i = rng.randrange(len(t) + 1)
            pool = NORMAL if rng.random() < 0.75 else STRANGE
            if k <= 1:
                t.insert(i, rng.choice(pool))
            elif k == 2 and t:
                del t[min(i, len(t) - 1)]
            elif k == 3 and t:
                t[min(i, len(t) - 1)] = rng.choice(pool)
            elif k == 4 and len(t) > 1:
                i = min(i, len(t) - 2)
                t[i], t[i + 1] = t[i + 1], t[i]
            elif k == 5 and t:
                j = rng.randrange(len(t))
                a, b = min(i, j), max(i, j)
                t[a:a] = t[a:b][:12]
            elif t:
                a = min(i, len(t) - 1)
                del t[a:a + rng.randint(1, 3)]
        return "".join(t)

    def parse(self, text, kind="alg"):
        self.add("parse", kind=kind, via=self.rng.choice(["parse", "from_str", "try_from"]), txt=codes(text))

    # ------------------------------------------------------- C01 what is accepted
    def numbers(self):
        ns = ["0", "1", "2", "00", "01", "001", "2147483646", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295",
              "4294967296", "9999999999", "02147483647", "02147483648", "00000000000000000002147483647", "18446744073709551616",
              "340282366920938463463374607431768211456", "1" * 60, "0" * 60, "0" * 59 + "5", "", "+1", "-1", "--1", "1_0", "0x1", "1.", "1e3"]
        forms = ["R{}", "R{}'", "R{}+", "R{}-", "{}R", "{}-2R", "2-{}R", "{}-{}R'", "(R){}", "(R){}'", "[R, U]{}", "[R: U]{}'",
                 "({}, 1)", "(-{}, 1)", "(1, {})", "(1, -{})", "/{}", ".{}", "{}", "R'{}", "R++{}", "({})", "({}R)", "{}-{}", "({}-2R)"]
        for f in forms:
            for n in ns:
                self.parse(f.replace("{}", n))
                if self.rng.random() < 0.5:
                    self.parse(f.replace("{}", n), "move")
        for f in ("{}R", "{}-3R", "3-{}R", "{}", "R{}"):
            for n in ns:
                self.parse(f.replace("{}", n), "quantum")

    def crowding(self):
        parts = ["R", "R2'", "2R", "R++", "R--", "R2+", "R2-", "/", ".", "\n", "//c\n", "//c", "(R)", "(R)2", "(R)'", "(1, 2)", "[R, U]", "[R: U]3'",
                 "[R,U]", "_", "()", "[,]", "[:]"]
        seps = ["", " ", "  ", "\n", " \n ", "\t", "\r\n", ",", ":", "'", "/", "."]
        for a in parts:
            for b in parts:
                for s in seps:
                    self.parse(a + s + b)
        for a in parts:
            for o, c in (("(", ")"), ("[", "]"), ("[R, ", "]"), ("[", ": R]"), (" ", " "), ("(", ""), ("", ")"), ("[", ""), ("", "]")):
                self.parse(o + a + c)
                self.parse(o + " " + a + " " + c)
        tup = ["({a},{s}{b})", "({s}{a}, {b})", "({a}, {b}{s})", "({a}{s}, {b})"]
        for f in tup:
            for s in ("", " ", "  ", "\n"):
                for a in ("1", "-1", "'1", "1'", "+1", "R", "0", "-0", "1-2"):
                    for b in ("2", "-3", "2'", "", "R", "-0"):
                        self.parse(f.format(a=a, b=b, s=s))
        for b in ("[R,U,F]", "[R:U:F]", "[R,U:F]", "[R]", "[R U]", "[]", "(R, U)", "(R: U)", "[(R, U)]", "[R, [U: F]]", "[[R, U], [F: L]]", "((R)2)3",
                  "R, U", "R: U", ",", ":", "(,)", "( )", "[ , ]", "[ : ]", "[\n,\n]", "[//a\n, //b\n]", "[//a, b]", "(//)", "(//\n)"):
            self.parse(b)

    DE = ["plain", "escaped", "value", "reader", "slice", "ref", "list", "key"]

    def strange(self, op="parse"):
        def ask(t, kind="alg"):
            if op == "parse":
                return self.parse(t, kind)
            for via in self.DE if kind != "alg" else self.rng.sample(self.DE, 2):
                self.add("de", kind=kind, via=via, txt=codes(t))
        for ch in STRANGE + NORMAL:
            for f in ("{}", "R{}", "{}R", "R {} U", "R{}U", "({})", "[{}, R]", "[R: U{}]", "2{}R", "R2{}", "//{}", "//a{}b\nR", "1-2R{}", "(1,{}2)"):
                ask(f.replace("{}", ch))
            ask("R" + ch, "move")
            ask("R2" + ch, "move")
            ask(ch + "R", "move")
            ask(ch, "move")
            ask(ch, "quantum")
            ask("R" + ch, "quantum")
            ask(ch + "R", "quantum")

    def accepted_texts(self, n):
        rng = self.rng
        for m in self.sweep():
            self.parse(self.spelled([m]), rng.choice(["alg", "move"]))
        for _ in range(n):
            alg = self.any_alg()
            text = self.spelled(alg) if rng.random() < 0.7 else alg_text(alg)
            self.parse(text)
            for _ in range(3):
                self.parse(self.mutate(text, rng.choice([1, 1, 1, 2, 4])))
            m = self.spelled([self.move()]).strip(" ")
            self.parse(m if rng.random() < 0.7 else self.mutate(m, 1), rng.choice(["move", "move", "quantum", "alg"]))
        for _ in range(n // 4):
            self.parse("".join(rng.choice(NORMAL) for _ in range(rng.choice([1, 2, 3, 6, 12, 30]))))
            self.parse("".join(chr(rng.choice([rng.randrange(0xd800), rng.randrange(128)])) for _ in range(rng.choice([1, 3, 8]))))
        return self

    # ----------------------------------------------------------- C02, C03, C04, C07
    def prints(self, n):
        for m in self.sweep():
            self.add("print_move", mv=m)
            self.add("prefix", alg=[m])
            self.add("print", alg=self.rng.choice([[m, mv("R")], [grp([m], m["amt"])], [grp([mv(USQ), m], 1)], [grp([m, mv(DSQ, 2)], 1)],
                                                   [comm([m], [mv("R")])], [conj([mv("R")], [m])]]))
        for _ in range(n):
            alg = self.any_alg()
            self.add("print", alg=alg)
            self.add("print_move", mv=self.move())
            self.add("prefix", alg=[self.move()])
            self.add("parts", alg=self.any_alg())
            self.add("round", txt=codes(self.spelled(alg)))
            # what inversion produces is printed too
            self.add("invert", alg=self.any_alg())
        return self

    def inversions(self, n):
        for m in self.sweep():
            self.add("invert_move", mv=m)
            self.add("invert", alg=self.rng.choice([[m], [mv("R"), m], [grp([m], m["amt"])], [grp([mv(USQ), m], 1)], [grp([m, mv(DSQ, 2)], 1)],
                                                    [comm([m], [mv("R")])], [conj([mv("R")], [m])]]))
        for _ in range(n):
            self.add("invert", alg=self.any_alg())
            self.add("parts", alg=self.any_alg())
            self.add("invert_move", mv=self.move())
        return self

    def serde(self, n):
        rng = self.rng
        for m in self.sweep():
            kind = rng.choice(["alg", "move", "quantum"])
            self.add("ser", kind=kind, alg=[m])
            self.add("de", kind=kind, via=rng.choice(self.DE),
                     txt=codes(self.spelled([m if kind != "quantum" else mv(s_(m["fam"]), 1, [s_(x) for x in m["pre"]])]).strip(" ")))
        for _ in range(n):
            alg = self.any_alg()
            self.add("ser", kind="alg", alg=alg)
            self.add("ser", kind=rng.choice(["move", "quantum"]), alg=[self.move()])
            text = self.spelled(alg)
            for _ in range(2):
                kind = rng.choice(["alg", "alg", "move", "quantum"])
                t = text if kind == "alg" else self.spelled([self.move()])
                t = t if rng.random() < 0.6 else self.mutate(t, 1)
                self.add("de", kind=kind, via=rng.choice(self.DE), txt=codes(t))
            q = s_(self.move()["fam"])
            self.add("de", kind="quantum", via="plain", txt=codes(rng.choice(["", "2", "1-3", "0"]) + q))
        for raw in ("null", "1", "1.5", "true", "[]", "[\"R\"]", "{}", "{\"R\":1}", "{\"nodes\":[]}", "\"R", "R", "'R'", "", "\"R\"\"U\"", "\"R\" 1",
                    "[1]", "-1", "\"\\ud800\"", "\"\\x\"", "\"\n\"", "2", "0", "false", "[\"R\",\"U\"]", "[[\"R\"]]", "[82]", "[\"R\",1]", "[\"R\",null,1]",
                    "{\"family\":\"R\"}", "{\"family\":\"R\",\"amount\":2}", "{\"amount\":2,\"family\":\"R\",\"prefix\":null}",
                    "{\"quantum\":\"R\",\"amount\":1}", "{\"quantum\":{\"family\":\"R\",\"prefix\":null},\"amount\":1}", "{\"type\":\"Move\",\"family\":\"R\"}",
                    "{\"alg\":\"R\"}", "{\"nodes\":[\"R\"]}", "{\"move\":\"R\"}", "{\"Move\":\"R\"}", "{\"text\":\"R\"}", "{\"units\":[]}", "{\"R\":null}", "{\"\":\"R\"}"):
            for kind in ("alg", "move", "quantum"):
                self.add("de_raw", kind=kind, txt=codes(raw))
        return self

    def comments(self):
        for text in ["", " ", "a", "a\n", "\n", "a\nb", "\r", "\r\n", "a\rb", "//", "]", "\u2028", "\u0085", "\U0001f600", "\0"]:
            self.add("cmt_new", txt=codes(text))
        return self

    def builders(self, n):
        rng = self.rng
        for _ in range(n):
            open_ = []
            for _ in range(rng.randint(3, 25)):
                k = rng.random()
                if not open_ or k < 0.2:
                    r = rng.randint(1, 4)
                    via = rng.choice(["default", "none", "alg", "node"])
                    alg = [] if via in ("default", "none") else self.alg(1, 2) if via == "node" else self.alg(rng.choice([0, 1, 2, 5]), 2)
                    self.ev.append(dict(op="b_new", r=r, via=via, alg=alg))
                    if r not in open_:
                        open_.append(r)
                elif k < 0.9:
                    via = rng.choice(["alg", "node"])
                    alg = self.alg(1, 2) if via == "node" else self.alg(rng.choice([0, 0, 1, 2, 5]), 2)
                    self.ev.append(dict(op="b_push", r=rng.choice(open_), via=via, alg=alg))
                else:
                    r = rng.choice(open_)
                    open_.remove(r)
                    self.ev.append(dict(op="b_done", r=r))
            for r in open_:
                self.ev.append(dict(op="b_done", r=r))
            self.flush()
        return self

    def repeated_pushes(self, n):
        """What is pushed is what was pushed before, or undoes it."""
        rng = self.rng
        for _ in range(n):
            self.flush()
            block = self.alg(rng.choice([1, 2, 3, 4, 8]), 1)
            back = [dict(x, amt=-x["amt"]) if x["t"] in ("move", "grp") else x for x in reversed(block)]
            self.ev.append(dict(op="b_new", r=1, via=rng.choice(["default", "none", "alg"]), alg=[]))
            if self.ev[-1]["via"] == "alg":
                self.ev[-1]["alg"] = block
            for _ in range(rng.randint(1, 4)):
                part = rng.choice([block, block, block, back, [grp(block, rng.choice([1, 2, -1]))], block * 2])
                if rng.random() < 0.6:
                    self.ev.append(dict(op="b_push", r=1, via="alg", alg=part))
                else:
                    self.ev += [dict(op="b_push", r=1, via="node", alg=[x]) for x in part]
            self.ev.append(dict(op="b_done", r=1))
        self.flush()
        return self

    def many_pushes(self, n):
        """Two builders and n pushes each, of nodes and of algs of all lengths."""
        rng = self.rng
        self.flush()
        for r, via in ((1, rng.choice(["default", "none"])), (2, "alg")):
            self.ev.append(dict(op="b_new", r=r, via=via, alg=[] if r == 1 else self.alg(rng.choice([0, 3, 40]), 1)))
        for i in range(n):
            for r in (1, 2):
                long = rng.random() < 3 / n
                if rng.random() < 0.5 and not long:
                    self.ev.append(dict(op="b_push", r=r, via="node", alg=self.alg(1, 1)))
                else:
                    self.ev.append(dict(op="b_push", r=r, via="alg", alg=self.alg(rng.choice([40, 70, 300]) if long else rng.choice([0, 1, 2]), 1)))
        self.ev += [dict(op="b_done", r=2), dict(op="b_done", r=1)]
        self.flush()

    # ------------------------------------------------------------------------ C23
    def refusals(self, n):
        """Texts that are (mostly) not accepted, of every kind, and errors that users make from a description."""
        rng = self.rng
        for kind in ("alg", "move", "quantum"):
            for t in ("", " ", "\n", "'", "2", "R'2", "(", ")", "R)", "R ", "R U", "R2", "2R2", "R+", "[R", "[R,", "(1", "(1,", "R\t", "\u2019", "R\u2019",
                      "99999999999R", "R99999999999", "1-99999999999R", "0-", "-R", "/ /", "//", "\0", "R\0", "\U0001f600", "\ud7ff", "(1, 2", "_SLASH_", "R_PLUS_"):
                for via in ("parse", "from_str", "try_from"):
                    self.add("parse", kind=kind, via=via, txt=codes(t))
                self.add("de", kind=kind, via=rng.choice(self.DE), txt=codes(t))
        for _ in range(n):
            text = self.mutate(self.spelled(self.any_alg()), rng.choice([1, 2, 3]))
            text = text[:rng.choice([len(text), rng.randint(0, len(text))])]
            kind = rng.choice(["alg", "alg", "move", "quantum"])
            self.add("parse", kind=kind, via=rng.choice(["parse", "from_str", "try_from"]), txt=codes(text))
            if rng.random() < 0.3:
                self.add("de", kind=kind, via=rng.choice(self.DE), txt=codes(text))
            if rng.random() < 0.2:
                t = "".join(rng.choice("R'2 (),[:]/.+-@\n\u2019\u00e9") for _ in range(rng.choice([1, 2, 5, 40, 300])))
                self.add("err_new", err=rng.choice(["notation", "move", "definition", "pattern", "transformation"]),
                         via=rng.choice(["str", "string"]), txt=codes(t.strip() or "x"))
        for t in ("a\nb", "\n", "a\n"):
            self.add("cmt_new", txt=codes(t))
        return self

    # ------------------------------------------------------------------------ C06
    def cli(self, n):
        rng = self.rng
        for t in ("", "-", "--", "---", "-R", "--stdin", "-h", "--help", "@f", "@", "%s", "\\n", "R\\nU", "$(echo R)", "`echo R`", "/dev/stdin", "*", "~", "R;U", "R|U", "R&",
                  "R #U", "$R", "${R}", "\"R\"", "'R'", "invert", "parse", "R=U", "=R", "R\r", "\tR"):
            for cmd in ("invert", "parse"):
                self.add("cli", cmd=cmd, via="arg", txt=codes(t))
                self.add("cli", cmd=cmd, via="stdin", txt=codes(t))
                if not t.startswith("--") and not t.startswith("-h") and not t.startswith("-R"):
                    self.add("cli", cmd=cmd, via="plain", txt=codes(t))
        for _ in range(n):
            text = self.spelled(self.any_alg()) if rng.random() < 0.8 else alg_text(self.any_alg())
            if rng.random() < 0.35:
                text = self.mutate(text, rng.choice([1, 2]))
            self.cli_text(text)
        return self

    def cli_text(self, text):
        rng = self.rng
        text = text.replace("\0", "")
        via = rng.choice(["stdin", "stdin", "arg", "plain"])
        if via == "plain" and text.startswith("-"):
            via = "arg"
        self.add("cli", cmd=rng.choice(["invert", "invert", "parse"]), via=via, txt=codes(text))

    def cli_bytes(self, n):
        """Bytes that may or may not be text, and a standard input that cannot be read."""
        rng = self.rng
        broken = [b"\x80", b"\xbf", b"\xc0\xaf", b"\xc1\xbf", b"\xc2", b"\xe0\x9f\xbf", b"\xe0\xa0", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef\xbf",
                  b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xff\xfeR\0"]
        whole = ["\u00e9", "\u2019", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\ufeff"]
        for cmd in ("invert", "parse"):
            self.add("cli", cmd=cmd, via="dir")
        for i in range(n):
            text = alg_text(self.any_alg()).replace("\0", "").encode()
            k = rng.random()
            if i < 2 * len(broken):
                bad = broken[i // 2]
                text = [b"// " + bad + b"\nR", b"R " + bad + b" U"][i % 2]
            elif k < 0.5:
                at = rng.choice([0, len(text), rng.randint(0, len(text))])
                text = text[:at] + rng.choice(broken) + text[at:]
            elif k < 0.75:
                c = rng.choice(whole).encode()
                text = rng.choice([b"R //", b"", b"// "]) + (c if rng.random() < 0.5 else c[:-1] if len(c) > 1 else c) + rng.choice([b"\nU", b"", b" R2'"])
            else:
                text = b"//" + bytes(rng.randrange(1, 256) for _ in range(rng.randint(1, 12)))
            for cmd in ("invert", "parse"):
                self.add("cli", cmd=cmd, via=rng.choice(["stdin", "stdin", "arg"]) if b"\0" not in text else "stdin", raw=list(text))
        return self

    # ------------------------------------------------------------------ C21 threads
    def threads(self, n, length=12, programs=6, rep=1):
        rng = self.rng
        for i in range(n):
            self.sid += 1
            shared = [self.any_alg() for _ in range(3)] + [[mv("U_SQ_", 3), mv("D_SQ_", -2)]]
            progs = []
            for t in range(programs):
                ev = []
                for _ in range(length):
                    again = {"rep": rng.randint(1, rep)} if rep > 1 else {}
                    k = rng.random()
                    i = rng.randrange(len(shared))
                    if k < 0.3:
                        ev.append(dict(op="print", alg=shared[i], sh=i, **again))
                    elif k < 0.6:
                        ev.append(dict(op="invert", alg=shared[i], sh=i, **again))
                    elif k < 0.8:
                        a = self.any_alg() if rng.random() < 0.5 else [mv("U_SQ_", rng.randint(-6, 6)), mv("D_SQ_", rng.randint(-6, 6)), mv(SLASH)]
                        ev.append(dict(op="parse", kind="alg", via="parse", txt=codes(alg_text(a)), **again))
                    elif k < 0.9:
                        ev.append(dict(op="round", txt=codes(rng.choice(["(1, -2) / (0, 3)", "(3, 0)/", "R U' (R2)2 // c", "[R: U", "(1,2)"])), **again))
                    else:
                        ev.append(dict(op="invert", alg=self.any_alg(), **again))
                progs.append(ev)
            progs[1] = [dict(e) for e in progs[0]]
            self.out.append({"sid": self.sid, "kind": "nth", "shared": shared, "programs": progs})
        return self.out
