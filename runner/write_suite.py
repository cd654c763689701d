"""Suite W: C07, C08. Documents are built (or parsed), written, parsed and
written again by the real code and judged by Trace_Write.tla."""

import json
import hj
from nodegen import NodeGen, cps

NONE = {"t": "none"}


def dead(c, what):
    return {"id": c["id"], "kind": c["kind"], "pre": c.get("pre", []), "rc": "none", "cn": NONE, "full": [], "node": NONE, "after": NONE, "r": what,
            "rp": "none", "rpn": NONE, "full2": [], "r2": "none", "dep": 1}


hj.DEAD["W"] = dead

MC = """SPECIFICATION Spec
CONSTANTS MaxSize = %d StrLen = %d
INVARIANTS RoundTrip Stable Lexical
CHECK_DEADLOCK FALSE
"""

PLAN = {"C07": 4200, "C08": 3400}


def systematic(g):
    """one document per kind of content and place, over several routes"""
    out = []
    leaves = [{"t": "null"}, {"t": "bool", "b": 0}, {"t": "bool", "b": 1}, {"t": "str", "s": []}, {"t": "str", "s": cps("x")},
              {"t": "map", "ks": [], "vs": []}, {"t": "arr", "vs": []}]
    from nodegen import INT_RANGE
    for k, (lo, hi) in INT_RANGE.items():
        for v in {lo, hi, 0, 1, 10, 100, hi // 2}:
            leaves.append({"t": "int", "k": k, "lit": str(v)})
    for k in ("float32", "float64"):
        for l in ["0", "-0.0", "1", "-1.5", "0.1", "1e-7", "123456.789", "1e21", "3.4028235e38", "1e-45", "16777217", "0.3333333333333333"]:
            leaves.append({"t": "flt", "k": k, "lit": l})
    for c in list(range(0, 33)) + [34, 47, 92, 127, 128, 0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        leaves.append({"t": "str", "s": [c]})
        leaves.append({"t": "str", "s": [97, c, c, 98]})
        out.append({"t": "map", "ks": [[c], [c, 107, c]], "vs": [{"t": "null"}, {"t": "str", "s": [c]}]})
    for k in ["", "fmt", "wrap", "url", "exit", "plain", "pointer", "join", "join1"]:
        leaves.append({"t": "err", "s": cps("a \"b\"\n%d"), "k": k})
        leaves.append({"t": "errs", "l": [cps("x"), cps("")], "k": k})
        leaves.append({"t": "errs", "l": [[-1], cps("x"), [-1]], "k": k})
    for l in [[], [""], ["", ""], ["a"], ["a", "", "b"], ["\"", "\\", "\n"], ["", "a"], ["null"]]:
        leaves.append({"t": "strs", "l": [cps(x) for x in l]})
    for l in leaves:
        out.append({"t": "map", "ks": [cps("a")], "vs": [l]})
        out.append({"t": "arr", "vs": [l, l]})
        out.append({"t": "map", "ks": [cps("a"), cps("b")], "vs": [{"t": "arr", "vs": [l]}, {"t": "map", "ks": [cps("c")], "vs": [l]}]})
        out.append(l)
    return out


def large(g, n):
    """wide arrays, maps and lists, long strings and keys"""
    r = g.r
    out = []
    for _ in range(n):
        for w in [r.randint(200, 700), r.choice([1023, 1024, 1025]), r.randint(1026, 2100)]:
            small = {"t": "int", "k": "uint8", "lit": str(r.randint(0, 9))}
            a = {"t": "arr", "vs": [g.scalar("nbif") if r.random() < 0.1 else small for _ in range(w)]}
            out += [a, {"t": "map", "ks": [cps("a"), cps("b")], "vs": [a, small]},
                    {"t": "map", "ks": [cps("k%x" % i) for i in range(w // 2)], "vs": a["vs"][:w // 2]},
                    {"t": "map", "ks": [cps("l")], "vs": [{"t": "strs", "l": [cps(r.choice(["", "x", "\""])) for _ in range(w)]}]},
                    {"t": "map", "ks": [cps("e")], "vs": [{"t": "errs", "l": [cps(r.choice(["", "x", "\""])) for _ in range(w)], "k": ""}]}]
        for w in [r.randint(200, 700), r.choice([1023, 1024, 1025, 4095, 4096, 4097]), r.randint(1026, 5000)]:
            s = [ord(r.choice('aé\n"\\😀 ')) if r.random() < 0.1 else 97 for _ in range(w)]
            out += [{"t": "map", "ks": [cps("a")], "vs": [{"t": "str", "s": s}]}, {"t": "map", "ks": [s], "vs": [{"t": "null"}]}, {"t": "arr", "vs": [{"t": "str", "s": s}]}]
    return out


def chain(g, n):
    """a chain of containers, with neighbours here and there"""
    r = g.r
    d = g.scalar("nbsif") if r.random() < 0.7 else {"t": "arr", "vs": []} if r.random() < 0.5 else {"t": "map", "ks": [], "vs": []}
    mix = r.choice(["m", "a", "ma", "ma"])
    for i in range(n):
        vs = [d]
        if r.random() < 0.1:
            vs.insert(0, g.scalar("nbsif"))
        if r.random() < 0.1:
            vs.append(g.scalar("nbsif"))
        d = {"t": "arr", "vs": vs} if r.choice(mix) == "a" else {"t": "map", "ks": [cps(c) for c in r.sample("abcd", len(vs))], "vs": vs}
    return d if d["t"] == "map" or r.random() < 0.3 else {"t": "map", "ks": [cps("d")], "vs": [d]}


def deep(g, n, big):
    return [chain(g, w) for _ in range(n) for w in [g.r.randint(90, 140), g.r.choice([126, 127, 128, 129, 254, 255, 256, 257, 258]), g.r.randint(200, 900 if big else 500), 1000 if big else 511]]


def before(r):
    """what the builder holds already"""
    k = r.random()
    if k < 0.5:
        return []
    if k < 0.95:
        return cps(r.choice(["x", '{"a":', 'é"', "[1,", "[", "{", '{"a":1,', " ", ",", '"', "\\", "{}", "[]", "null", "\n", "[{},", ",,", "\"\"", ":", "1", "\x00"]))
    w = r.choice([63, 64, 255, 256, 1000, 1024, 4096, 5000])
    return (cps('[{"k":"é"},1,') * w)[:w]


def cases_for(ctx, prop, rnd):
    g = NodeGen("%s-%d-%d" % (prop, ctx.seed, rnd))
    r = g.r
    out = []

    def add(doc=None, txt=None, kind=None):
        if kind is None:
            kind = doc["t"] if doc["t"] in ("map", "arr") and r.random() < 0.9 else "val"
        c = {"kind": kind, "rs": r.randint(1, 10**9), "pre": before(r)}
        if doc is not None:
            c["doc"] = doc
        else:
            c["txt"] = txt
        out.append(c)

    if rnd == 0:
        for d in systematic(g):
            if prop == "C07" or d["t"] == "map":
                add(d)
    for d in large(g, 6 if ctx.thorough else 1):
        if prop == "C07" or d["t"] == "map":
            add(d)
    for d in deep(g, 4 if ctx.thorough else 2, ctx.thorough):
        if prop == "C07" or d["t"] == "map":
            add(d)
    for _ in range(400 if ctx.thorough else 60):
        t = {"t": "str", "s": cps(g.bland())}
        k = r.random()
        add({"t": "map", "ks": [cps("a")], "vs": [t if k < 0.5 else {"t": "arr", "vs": [t]} if k < 0.65 else {"t": "strs", "l": [t["s"]]} if k < 0.75 else
             {"t": "err", "s": t["s"], "k": ""} if k < 0.85 else {"t": "errs", "l": [t["s"]], "k": ""}]} if k < 0.9 else {"t": "map", "ks": [t["s"]], "vs": [{"t": "null"}]})
    for _ in range(400 if ctx.thorough else 120):
        d = g.sib_node("ifskte")
        add(d if prop == "C07" or d["t"] == "map" else {"t": "map", "ks": [cps("a")], "vs": [d]})
    n = PLAN[prop]
    for _ in range(n):
        k = r.random()
        if prop == "C07":
            if k < 0.45:
                add(g.map_node(r.randint(1, 4), "nbsif"))
            elif k < 0.6:
                add(g.arr_node(r.randint(1, 3), "nbsif"))
            elif k < 0.75:
                add(g.map_node(2, "nbsifteESFxo"))
            elif k < 0.8:
                add(g.arr_node(2, "nbsifteESFx"))
            elif k < 0.92:
                add(g.scalar("nbsifteESx"), kind="val")
            else:
                add(txt=cps(g.tree()), kind="map")
        else:
            if k < 0.72:
                add(g.map_node(r.randint(1, 4), r.choice(["nbsif", "s", "f", "i", "nbsif", "nbsifteES", "eESt"]), width=r.choice([2, 4, 4, 7])))
            elif k < 0.76:
                w = r.choice([17, 33, 65, 130])
                ks = [cps("k%d" % i) for i in range(w)]
                add({"t": "map", "ks": ks, "vs": [g.scalar() for _ in ks]})
            elif k < 0.8:
                add({"t": "map", "ks": [cps("a")], "vs": [{"t": "arr", "vs": [g.scalar() for _ in range(r.choice([17, 65, 130, 260]))]}]})
            elif k < 0.84:
                d = g.scalar()
                for _ in range(r.choice([10, 20, 40, 70])):
                    d = {"t": "arr", "vs": [d]} if r.random() < 0.5 else {"t": "map", "ks": [cps(r.choice("ab"))], "vs": [d]}
                add({"t": "map", "ks": [cps("d")], "vs": [d]})
            else:
                add(txt=cps(r.choice([g.tree, g.str_doc, g.dec_doc, g.int_doc])()), kind="map")
    r.shuffle(out)
    for i, c in enumerate(out):
        c["id"] = i
    return out


def describe(c, r):
    return "%s %s was written as %r (%s; parsed again: %s, written again: %r)" % (
        c["kind"], json.dumps(c.get("doc", hj.txt(c.get("txt", []))), ensure_ascii=False)[:400], hj.txt(r["full"])[:300], r["r"], r["rp"], hj.txt(r["full2"])[:200])


def run(ctx, prop, replay=None):
    if not replay:
        for a in ([(4, 1)] if not ctx.thorough else [(4, 1), (4, 2), (5, 0)]):
            ctx.tlc("MC_Write", cfg_text=MC % a)
    rounds = 10 if ctx.thorough else 1
    return hj.judge_rounds(ctx, prop, "W", "Trace_Write", lambda rnd: cases_for(ctx, prop, rnd), rounds, replay, describe)


def clones_for(ctx, prop, rnd):
    """long and deep content, cloned"""
    g = NodeGen("clones-%s-%d-%d" % (prop, ctx.seed, rnd))
    docs = [d for d in large(g, 2) if d["t"] != "map" or all(v["t"] not in ("strs", "errs") for v in d["vs"])]
    docs += deep(g, 6 if ctx.thorough else 3, ctx.thorough)
    docs += [g.sib_node("ifskt") for _ in range(40)]
    g.r.shuffle(docs)
    return [{"id": i, "kind": d["t"], "doc": d, "rs": g.r.randint(1, 10**9), "pre": [], "cl": 1} for i, d in enumerate(docs) if d["t"] in ("map", "arr")]


def run_clones(ctx, prop, replay=None):
    return hj.judge_rounds(ctx, prop, "W", "Trace_Write", lambda rnd: clones_for(ctx, prop, rnd), 6 if ctx.thorough else 1, replay, describe)


CLONES = ("C12",)
