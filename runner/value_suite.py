"""Suite G: C13-C17, C19-C21. Content enumerated by TLC from MC_Value.tla and
random content is put into values, maps and arrays over every route; every
accessor of the real code is asked about it and Trace_Value.tla judges."""

import json
import hj
from nodegen import NodeGen, cps, INTS

NUL = {"t": "null"}
EMPTY = {"ok": [], "err": [], "nil": [], "true": [], "false": [], "panic": [], "odd": []}


def dead(c, what):
    return {"id": c["id"], "route": c["route"], "set": NUL, "r": what}


hj.DEAD["G"] = dead

MC = """SPECIFICATION Spec
CONSTANTS Which = "%s"
INVARIANTS OwnLaw FormLaw IntLaw KindLaw NullLaw TextLaw BulkLaw TimeLaw
CHECK_DEADLOCK FALSE
"""

NULL_KINDS = ["String", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64",
              "Float32", "Float64", "Time", "Func", "Map", "Array", "Error", "Errors"]

# which universes of MC_Value are enumerated, how many of its cases are taken
# (all of them in the thorough tier), and weights of the random families
#   i integers, s integer texts, f floats, x text of floats, t times, T time
#   texts, n nulls, k kinds (anything), a arrays, m containers, g strings
PLAN = {
    "C13": (["int", "text"], 5000, "iiiissssssf", 2500),
    "C14": (["rest", "int", "text"], 900, "iffffxxxxttkkkmmgggg", 3200),
    "C15": (["rest"], 400, "nnnnnnkkgs", 2600),
    "C16": (["rest", "int"], 800, "iffknttmmggkkk", 3200),
    "C17": (["rest"], 100, "aaaaaaaaaam", 2600),
    "C20": (["time"], 1700, "ttttttTTTTTTTg", 2600),
    "C21": (["int", "rest"], 700, "iiffffgggtkkee", 3600),
    "C22": ([], 0, "kkeeemmatTsxg", 1200),
    "C19": (["rest"], 100, "kkkkkkaammntf", 2000),
}
THOROUGH_RANDOM = 20000


def from_tla(x):
    """a content printed by TLC as a node of a case"""
    if x["t"] == "int":
        d = "".join(map(str, x["d"])) or "0"
        return {"t": "int", "k": x["k"], "lit": ("-" if x["n"] else "") + d}
    if x["t"] == "other":
        return {"t": "other"}
    return x


class Values(NodeGen):
    def int_text(self):
        r = self.r
        m = r.random()
        lit = self.int_node()["lit"]
        if m < 0.45:
            return lit
        if m < 0.6:
            return str(r.choice([1, -1]) * r.randint(0, 10 ** r.randint(1, 40)))
        if m < 0.7:
            return r.choice(["0", "00", "-0", "-", "+"]) + lit.lstrip("-")
        return self.mutate(lit, "0123456789-+. eE_xX,٠")

    def mutate(self, s, alphabet):
        r = self.r
        s = list(s)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randint(0, len(s))
            m = r.random()
            if m < 0.4:
                s.insert(i, r.choice(alphabet))
            elif s and m < 0.7:
                s[min(i, len(s) - 1)] = r.choice(alphabet)
            elif s:
                del s[min(i, len(s) - 1)]
        return "".join(s)

    def float_text(self):
        r = self.r
        m = r.random()
        s = self.decimal() if m < 0.6 else self.flt_node()["lit"] if m < 0.9 else self.int_text()
        return s if r.random() < 0.75 else self.mutate(s, "0123456789-+. eE_xXinf")

    def time_text(self):
        r = self.r
        m = r.random()
        y = r.choice([1, 999, 1000, 1677, 1678, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2100, 2262, 2263, 9999])
        s = "%04d-%02d-%02d %02d:%02d:%02d" % (y, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        p = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9])
        if p:
            f = "".join(r.choice("0123456789") for _ in range(p))
            if r.random() < 0.3:
                f = r.choice(["0" * p, "9" * p, "0" * (p - 1) + "1", "1" + "0" * (p - 1), "5" * p])
            s += "." + f
        if m < 0.55:
            return s
        if m < 0.7:   # one field out of range
            k = r.choice([(5, ["00", "13", "99"]), (8, ["00", "32", "31", "30", "29"]), (11, ["24", "25", "99"]), (14, ["60", "99"]), (17, ["60", "61"])])
            return s[:k[0]] + r.choice(k[1]) + s[k[0] + 2:]
        if m < 0.95:
            return self.mutate(s, "0123456789-+:. TZ")
        return self.content(12)

    def str_of(self, s):
        return {"t": "str", "s": cps(s)}

    def word(self):
        return self.r.choice(["true", "false", "null", "nil", "0", "1", "", "True", "FALSE", "NULL", "<nil>", "-", "{}", "[]", "now", "zero", "NaN", "yes", "t", " ", "00", "01", "1.0",
                              "0.0", "%", "%s", "%!s(MISSING)", "nil ", " null", "\x00", "\n", "1\x00", "00000000", "undefined", "map[]"])

    def text(self):
        m = self.r.random()
        if m < 0.3:
            return self.word()
        if m < 0.45:
            return self.int_text()
        if m < 0.6:
            return self.float_text()
        if m < 0.64:
            return self.long_text()
        return self.content(self.r.choice([3, 10, 30]))

    def long_text(self):
        """one that something special is in the middle of"""
        n = self.r.choice([33, 65, 66, 130, 257, 300, 1030, 1030, 4100, 5000])
        return self.r.choice(["a", "0", "é", " ", "ab"]) * self.r.randint(1, n) + self.content(3) + self.r.choice(["a", "1", "日", "\n"]) * self.r.randint(1, n)

    def mixed_array(self):
        """mostly one kind, with nulls, neighbours and sometimes one element out of place"""
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 16, 17, 33])
        if r.random() < 0.02:
            n = r.choice([64, 65, 100, 128, 129, 257, 520, 1025])
        k = r.choice(INTS)
        kind = r.choice(["int", "int", "int", "anyint", "small", "inttext", "float", "float32", "bool", "booltext", "string", "num"])
        mk = {"int": lambda: self.int_node(k), "anyint": self.int_node,
              "small": lambda: {"t": "int", "k": r.choice(INTS), "lit": str(r.randint(0, 130))},
              "inttext": lambda: self.str_of(str(r.randint(-200, 70000))) if r.random() < 0.6 else self.int_node(k),
              "float": self.flt_node, "float32": lambda: self.flt_node("float32"),
              "bool": lambda: {"t": "bool", "b": r.randint(0, 1)},
              "booltext": lambda: self.str_of(r.choice(["true", "false", "0", "1"])) if r.random() < 0.7 else {"t": "bool", "b": r.randint(0, 1)},
              "string": lambda: self.str_node(6),
              "num": lambda: r.choice([self.int_node, self.flt_node])()}[kind]
        vs = [mk() for _ in range(n)]
        for i in range(n):
            if r.random() < r.choice([0, 0, 0.1, 0.5]):
                vs[i] = {"t": "null"}
        if n and r.random() < 0.45:
            vs[r.choice([0, n - 1, r.randrange(n)])] = self.one("ifxstnkmgs"[r.randrange(10)])
        return {"t": "arr", "vs": vs}

    def bad_utf8(self):
        s = self.text()
        i = self.r.randint(0, len(s))
        return {"t": "str", "s": cps(s[:i]) + [1114112 + self.r.choice([0x80, 0xff, 0xc3, 0xed])] + cps(s[i:])}

    def one(self, fam):
        r = self.r
        if fam == "i":
            return self.int_node()
        if fam == "s":
            return self.str_of(self.int_text())
        if fam == "f":
            return self.flt_node()
        if fam == "x":
            return self.str_of(self.float_text())
        if fam == "t":
            return self.time_node()
        if fam == "T":
            return self.str_of(self.time_text())
        if fam == "n":
            return {"t": "null", "K": r.choice(NULL_KINDS)} if r.random() < 0.7 else {"t": "null"}
        if fam == "k":
            return self.scalar("nbsifxteESFo")
        if fam == "e":
            return self.scalar("eEESo")
        if fam == "a":
            return self.mixed_array()
        if fam == "m":
            return self.map_node(2, "nbsif", 3) if r.random() < 0.5 else self.arr_node(2, "nbsifxteESF", 3)
        if fam == "g":
            return self.str_of(self.text()) if r.random() < 0.95 else self.bad_utf8()
        raise hj.Broken("no family " + fam)


def plain(d):
    """has a JSON form"""
    t = d["t"]
    if t in ("func", "other"):
        return False
    if t == "flt":
        return d["lit"] not in ("NaN", "Inf", "-Inf")
    if t == "str":
        return all(x < 1114112 for x in d["s"])
    if t == "map":
        return all(map(plain, d["vs"])) and all(x < 1114112 for k in d["ks"] for x in k)
    if t == "arr":
        return all(map(plain, d["vs"]))
    return True


def clonable(d):
    t = d["t"]
    if t in ("func", "other", "strs"):
        return False
    if t in ("map", "arr"):
        return all(map(clonable, d["vs"]))
    return True


def siblings(g, fam):
    """contents that agree nearly everywhere, asked in one process"""
    n = g.r.choice([3, 5])
    if fam in "iftke":
        return g.sib_lits({"k": "s"}.get(fam, fam), n)
    if fam == "T":
        t = g.time_text()
        return [g.str_of(t)] + [g.str_of(g.near(t, "0123456789", lambda p: not t[p].isdigit())) for _ in range(n)]
    if fam == "a":
        return [{"t": "arr", "vs": g.sib_lits(g.r.choice("ifs"), n)}] + [g.sib_node("ifs") for _ in range(2)]
    if fam == "m":
        return [g.sib_node("ifsk") for _ in range(3)]
    return [g.str_of(t) for t in (g.siblings("i", n) if fam == "s" else g.siblings("d", n) if fam == "x" else g.siblings_raw(n))]


def before(g, d, fams, docs):
    """what an object held before it holds d"""
    r = g.r
    if d["t"] == "arr" and d["vs"] and r.random() < 0.7:
        w = dict(d, vs=list(d["vs"]))
        for _ in range(r.choice([1, 1, 2, len(w["vs"])])):
            k = r.randrange(len(w["vs"]))
            same = [x for x in w["vs"] if x["t"] == w["vs"][k]["t"]]
            w["vs"][k] = r.choice(same + w["vs"][:3] + [g.scalar("nbsif")])
        return w
    same = [x for x in r.sample(docs, min(40, len(docs))) if x["t"] == d["t"]]
    if same and r.random() < 0.5:
        return r.choice(same)
    return r.choice(docs) if r.random() < 0.5 else g.one(r.choice(fams))


def cases_for(ctx, prop, rnd, universe):
    g = Values("%s-%d-%d" % (prop, ctx.seed, rnd))
    r = g.r
    which, take, fams, n = PLAN[prop]
    docs = []
    if rnd == 0:
        docs = universe if ctx.thorough or len(universe) <= take else r.sample(universe, take)
        docs = [json.loads(json.dumps(d)) for d in docs]
        if prop in ("C15", "C16", "C19", "C21"):
            docs += [{"t": "null", "K": k} for k in NULL_KINDS for _ in range(8)]
        if prop == "C20":
            docs += [g.time_node() for _ in range(300)]
    for _ in range(THOROUGH_RANDOM if ctx.thorough else n):
        docs.append(g.one(r.choice(fams)))
    for _ in range(120 if ctx.thorough else 30):
        docs += siblings(g, r.choice(fams))
    out = []
    for i, d in enumerate(docs):
        route = r.choice(["set", "set", "parse", "clone"])
        if prop == "C15" and r.random() < 0.12:
            route = "absent"
        if route == "parse" and not plain(d) or route == "clone" and not clonable(d):
            route = "set"
        args = []
        if d["t"] == "str":
            args.append(d["s"])
            if d["s"]:
                h = len(d["s"]) // 2
                args.append(d["s"][:h] + [d["s"][h] ^ 1] + d["s"][h + 1:])
                if h:
                    args.append(d["s"][:h] + d["s"][h - 1:h] + d["s"][h + 1:])
                args += [d["s"][:-1], d["s"] + [r.choice([0, 32, 97])], d["s"][:-1] + [d["s"][-1] ^ 1]]
        elif d["t"] == "int":
            args.append(cps(d["lit"]))
        if d["t"] == "null":
            args += [cps(x) for x in ["", "null", "nil", "NULL", "<nil>"]]
        elif d["t"] == "bool":
            args += [cps(x) for x in (["true", "1"] if d["b"] else ["false", "0"])]
        elif d["t"] == "flt":
            args += [cps(d["lit"])]
        elif d["t"] == "err":
            args += [d["s"]]
        elif d["t"] in ("map", "arr", "strs", "errs"):
            args += [cps(x) for x in ["{}", "[]"]]
        args += r.sample([cps(x) for x in ["", "null", "nil", "true", "0", "{}", "a"]], 2)
        args = [a for a in args if all(x < 0xd800 or 0xdfff < x < 1114112 for x in a)]
        c = {"rs": r.randint(1, 10**9), "route": route, "doc": d, "args": args}
        if route == "set" and r.random() < 0.15 or route != "absent" and r.random() < 0.04:
            c["was"] = before(g, d, fams, docs)
        out.append(c)
    r.shuffle(out)
    for i, c in enumerate(out):
        c["id"] = i
    return out


def universe_for(ctx, prop):
    out = []
    for w in PLAN[prop][0]:
        for x in hj.gen_cases(ctx, "MC_Value", MC % w):
            out.append(from_tla(x))
    return out


def describe(c, r):
    return "%s %s: %s" % (c["route"], json.dumps(c["doc"], ensure_ascii=False)[:400], "")


def run(ctx, prop, replay=None):
    universe = [] if replay else universe_for(ctx, prop)
    rounds = 3 if ctx.thorough else 1
    bad = hj.judge_rounds(ctx, prop, "G", "Trace_Value", lambda rnd: cases_for(ctx, prop, rnd, universe), rounds, replay, describe)
    for b in bad:
        b["what"] += " wrong: %s" % ", ".join(b["want"])[:600]
    return bad
