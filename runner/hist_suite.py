"""Suite H: C09, C10, C11, C12, C22. Histories generated by TLC from
HJContainer.tla are executed by the real code and judged step by step."""

import json
import random
from concurrent.futures import ThreadPoolExecutor
import hj
from nodegen import NodeGen, cps


def dead(c, what):
    return {"id": c["id"], "ns": c["ns"], "cs": [], "tab": [], "steps": [], "nk": len(c["keys"]), "late": 0, "dead": what}


hj.DEAD["H"] = dead

MC = """SPECIFICATION Spec
CONSTANTS NS = %d NK = %d NC = %d MaxOps = %d Emit = %s
Kinds <- %s
INVARIANT WF
VIEW View
ACTION_CONSTRAINT Laws
CHECK_DEADLOCK FALSE
"""

GEN = """SPECIFICATION Spec
CONSTANTS NS = %d NK = %d NC = %d NJ = %d Depth = %d Cap = %d Weights = "%s" Lo = %d Hi = %d
CHECK_DEADLOCK FALSE
"""

# property -> (kinds of the exhaustive part, its sizes NS NK NC MaxOps in quick and thorough),
#             [(weights, NS, NK, Depth, Cap, histories)]
PLAN = {
    "C09": (("MapKinds", (1, 3, 1, 5), (1, 3, 2, 6)),
            [("dict", 3, 4, 40, 60, 500), ("dict", 2, 12, 90, 60, 250), ("dict", 2, 40, 160, 90, 60), ("even", 5, 6, 50, 40, 200)]),
    "C10": (("ArrKinds", (1, 1, 1, 5), (2, 1, 1, 5)),
            [("seq", 3, 4, 40, 60, 600), ("seq", 2, 2, 120, 120, 200), ("even", 5, 6, 50, 40, 200)]),
    "C11": (("AllKinds", (2, 2, 1, 4), (2, 2, 1, 5)),
            [("tree", 5, 4, 60, 50, 600), ("even", 6, 6, 60, 50, 300), ("dict", 3, 9, 60, 60, 150)]),
    "C12": (("CloneKinds", (2, 1, 1, 5), (2, 2, 1, 5)),
            [("tree", 5, 4, 60, 50, 500), ("even", 6, 6, 60, 50, 300), ("dict", 3, 9, 60, 60, 100), ("seq", 3, 4, 60, 60, 100)]),
    "C22": (("AllKinds", (2, 1, 1, 4), (2, 2, 1, 5)),
            [("even", 6, 6, 60, 50, 600), ("tree", 5, 4, 60, 50, 300), ("dict", 3, 9, 60, 60, 150), ("seq", 3, 4, 60, 60, 150)]),
}

# large histories per round
LARGE = {"C09": 40, "C10": 24, "C11": 0, "C12": 16, "C22": 10}
SHARED = {"C09": 0, "C10": 0, "C11": 150, "C12": 100, "C22": 150}
NESTED = {"C11": 60, "C12": 40, "C22": 10}
NJ, NC = 9, 14
KEYS = ["a", "b", "c", "", " ", "A", "a ", "aa", "é", "e\u0301", "日本", "\U0001f600", "\"", "\\", "\n", "\t", "k1", "k10", "k", "null", "nil", "0", "true", "a.b",
        "a/b", "[]", "{}", "x" * 40, "[1]", "\u2028", "<", "&", "key", "Key", "KEY", "ke", "y", "z", "zz", "a\"b", "\\n", "\u0001", "%s", "%d", "'", ":", ","]


def contents(r):
    """NJ contents with a JSON form, then others; all kinds over the runs"""
    g = NodeGen(r.randint(0, 1 << 40))
    cs = []
    for k in ["str", "str", "bool", "int", "int", "int", "flt", "str", "bool"]:
        if k == "str":
            cs.append({"t": "str", "s": cps(r.choice(["", "x", "null", "nil", "true", "é", "\"", "line\nline", "[1,2]", "{\"a\":1}", "0", "-5", "%s", "a" * 30, "日本", "b" * r.choice([65, 130, 300, 300, 1100])]))})
        elif k == "bool":
            cs.append({"t": "bool", "b": r.randint(0, 1)})
        else:
            cs.append(g.scalar("i" if k == "int" else "f"))
    for k in range(NC - NJ):
        cs.append([{"t": "time", "lit": r.choice(["2024-02-29T23:59:59.123456Z", "1999-12-31T00:00:00Z", "2024-06-01T12:00:00.5+02:00", "2024-06-01T12:00:00.123456789Z"])},
                   {"t": "err", "s": cps(r.choice(["boom", "", "100%d", "a\nb"])), "k": g.err_kind()},
                   {"t": "errs", "l": [cps(x) for x in r.choice([["one"], ["one", "two %s"], [], ["e%d" % i for i in range(r.choice([9, 17, 40]))]])] + r.choice([[], [], [[-1]], [[-1], cps("z")]])},
                   {"t": "func"},
                   {"t": "time", "lit": "2001-01-01T01:01:01.000001-05:30"}][k])
    return cs


def lookalikes(r, n):
    """different keys that agree in most of their characters"""
    base = r.choice(["ab", "key", "identity_a1", "a.very.long.path.to.some.member", "0123456789abcdef", "日本語の鍵です", "x" * 70, " ", "item"])
    base = base[:r.choice([1, 2, 3, 8, 9, 10, 17, 80])]
    out = [base]
    while len(out) < n:
        k = list(r.choice([base, base, r.choice(out)]))
        m = r.random()
        i = r.choice([0, len(k) - 1, r.randint(0, max(0, len(k) - 1))]) if k else 0
        if k and m < 0.5:
            k[i] = r.choice("ab01_ Zé")
        elif k and m < 0.6:
            k[i] = k[i].swapcase()
        elif k and m < 0.7:
            j = r.randrange(len(k))
            k[i], k[j] = k[j], k[i]
        elif k and m < 0.8:
            del k[i]
        else:
            k.insert(i, r.choice("ab01_ Zé\u0301"))
        k = "".join(k)
        if k not in out:
            out.append(k)
    r.shuffle(out)
    return out


def clothe(ops, r, ns, nk, nc, nj):
    keys = r.sample(KEYS, nk) if nk <= len(KEYS) - 5 and r.random() < 0.7 else lookalikes(r, nk)
    if r.random() < 0.15:
        keys = ["k%d" % i for i in range(nk)]
    if nc <= 2:
        cs = contents(r)[:NJ]
        r.shuffle(cs)
        cs = cs[:nc]
    else:
        cs = contents(r)
    # the client writes through pointers, at the end and now and then after a copy
    # or changes all the objects of one slot (y = 1), and undoes it
    poke = lambda s, y=0: {"op": "poke", "d": 0, "s": s, "k": 0, "x": 0, "y": y}
    full = []
    for o in ops:
        full.append(o)
        if o["op"] in ("clone", "reparse") and r.random() < 0.4:
            full.append(poke(o["d"], r.randint(0, 1)))
    ops = full + [poke(s + 1) for s in range(ns)] + [poke(s + 1, 1) for s in range(ns)]
    return {"rs": r.randint(1, 10**9), "ns": ns, "keys": [cps(k) for k in keys], "cs": cs, "ops": ops}


OP = lambda o, d=0, s=0, k=0, x=0: {"op": o, "d": d, "s": s, "k": k, "x": x, "y": 0}


def large_dict(r, size, grow):
    """one map with many keys (slot 1): filled, thinned in many ways, filled again; copies in slot 2"""
    keys = list(range(1, size + 1))
    have, ops = [], [OP("newmap", 1)]

    def put(k, s=1):
        ops.append(OP("mset", 0, s, k, r.randint(0, NJ)))
        if s == 1 and k not in have:
            have.append(k)

    def rem(k, s=1):
        ops.append(OP("mrem", 0, s, k))
        if s == 1 and k in have:
            have.remove(k)

    order = keys[:]
    if r.random() < 0.5:
        r.shuffle(order)
    for k in order[:r.choice([size, size, size // 2])]:
        put(k)
    while len(ops) < grow:
        m = r.choice(["front", "back", "some", "again", "slide", "set", "copy", "absent", "all", "read"])
        n = min(r.choice([3, 20, size // 3]), grow - len(ops))
        if m == "front":
            for k in have[:n]:
                rem(k)
        elif m == "back":
            for k in have[::-1][:n]:
                rem(k)
        elif m == "some":
            for k in r.sample(have, min(n, len(have))):
                rem(k)
        elif m == "again":
            for k in r.sample(keys, min(n, size)):
                put(k)
        elif m == "slide":
            for _ in range(n):
                if have:
                    rem(have[0])
                put(r.choice(keys))
        elif m == "set":
            for k in r.sample(have, min(n, len(have))):
                put(k)
        elif m == "copy":
            cells = r.sample(have, min(6, len(have)))
            ops += [OP("mset", 0, 1, k, r.randint(1, NJ)) for k in cells] + [OP("clone", 2, 1)]
            for k in cells:
                ops += [OP("mgetv", 3, r.choice([1, 2]), k), OP("vset", 0, 3, 0, r.randint(0, NJ))]
            for k in r.sample(keys, min(10, size)):
                r.choice([put, rem])(k, r.choice([1, 2, 2]))
        elif m == "absent":
            for k in r.sample(keys, min(n, size)):
                if k not in have:
                    rem(k)
        elif m == "read":
            ops.append(OP("query", 0, 1))
        elif r.random() < 0.3:
            for k in r.choice([have[:], have[::-1]]):
                rem(k)
    return ops


def large_seq(r, size, grow):
    """one array with many elements (slot 1), copies in slot 2"""
    n, ops = 0, [OP("newarr", 1)]
    for _ in range(size):
        ops.append(OP("aapp", 0, 1, 0, r.randint(0, NJ)))
    n = size
    while len(ops) < grow:
        m = r.choice(["front", "back", "some", "again", "slide", "set", "copy", "beyond", "all"])
        c = min(r.choice([3, 20, size // 3]), grow - len(ops))
        if m == "copy":
            cells = r.sample(range(n), min(6, n))
            ops += [OP("asetc", 0, 1, k, r.randint(1, NJ)) for k in cells] + [OP("clone", 2, 1)]
            for k in cells:
                ops += [OP("agetv", 3, r.choice([1, 2]), k), OP("vset", 0, 3, 0, r.randint(0, NJ))]
            for _ in range(8):
                ops.append(r.choice([OP("aapp", 0, 2, 0, r.randint(0, NJ)), OP("arem", 0, 2, r.randint(0, n)), OP("asetc", 0, 2, r.randint(0, n), r.randint(0, NJ))]))
        for _ in range(n if m == "all" and r.random() < 0.3 else c):
            if m == "again" or m == "slide":
                ops.append(OP("aapp", 0, 1, 0, r.randint(0, NJ)))
                n += 1
            if m in ("front", "back", "some", "slide") and n:
                ops.append(OP("arem", 0, 1, 0 if m in ("front", "slide") else n - 1 if m == "back" else r.randrange(n)))
                n -= 1
            if m == "set" and n:
                ops.append(OP("asetc", 0, 1, r.randrange(n), r.randint(0, NJ)))
            if m == "beyond":
                ops.append(OP(r.choice(["arem", "asetc"]), 0, 1, r.choice([-1, n, n + 1, -n]), 1))
            if m == "all" and n:
                ops.append(OP("arem", 0, 1, r.choice([0, n - 1])))
                n -= 1
    return ops


def nested(r):
    """a chain of containers (slot 2) around one container (slot 1), changed inside"""
    inner = r.choice(["map", "arr"])
    ops = [OP("new" + inner, 1)]

    def change(s):
        k = r.randrange(4)
        if inner == "map":
            ops.append([OP("mset", 0, s, r.randint(1, 4), r.randint(0, NJ)), OP("mrem", 0, s, r.randint(1, 4)), OP("mset", 0, s, 1, 1), OP("mset", 0, s, 2, 2)][k])
        else:
            ops.append([OP("aapp", 0, s, 0, r.randint(0, NJ)), OP("arem", 0, s, 0), OP("asetc", 0, s, r.randint(0, 1), r.randint(0, NJ)), OP("aapp", 0, s, 0, 1)][k])

    for _ in range(r.randint(0, 2)):
        change(1)
    mix = r.choice(["m", "a", "ma", "ma"])
    depth = r.choice([3, 5, 8, 12, 17, 33, 65, 90])
    for d in range(depth):
        ops.append(OP("mapof" if r.choice(mix) == "m" else "arrof", 2, 0, r.randint(1, 4), 2 if d else 1))
        if r.random() < 0.1:
            change(1)
    for _ in range(r.randint(4, 12)):
        k = r.random()
        if k < 0.5:
            change(1)
        elif k < 0.8:
            ops.append(OP("clone", r.choice([3, 4]), 2))
        elif k < 0.9:
            ops.append(OP("query", 0, 2))
        else:
            ops += [OP("clone", 3, 1), OP("clone", 4, 2)]
            change(3)
    change(1)
    return ops


def shared(r):
    """values and containers of one map (slot 1) that also stand in another (2)
    and in an array (3), while what the keys hold is replaced in every way"""
    n1, n2 = r.choice([1, 2, 4, 8]), r.choice([0, 2, 5])
    ops = [OP("newmap", 1), OP("newmap", 2), OP("newarr", 3)]
    kind = {}      # key of slot 1 -> what is known of its cell
    six = None     # the container in slot 6

    def leaf():
        nonlocal six
        six = r.choice(["map", "arr"])
        ops.append(OP("new" + six, 6))
        for _ in range(r.choice([0, 1, 3, 5, 9])):
            grow()

    def grow():
        if six == "map":
            ops.append(OP(r.choice(["mset", "mset", "mset", "mrem"]), 0, 6, r.randint(1, 10), r.randint(0, NJ)))
        elif six:
            ops.append(OP("aapp", 0, 6, 0, r.randint(0, NJ)))

    def put(k):
        if r.random() < 0.45:
            x = r.randint(0, NJ)
            ops.append(OP("mset", 0, 1, k, x))
            kind[k] = "val" if x else None
        else:
            if six is None or r.random() < 0.8:
                leaf()
            ops.append(OP("mref", 0, 1, k, 6))
            kind[k] = six

    for k in range(1, n1 + 1):
        put(k)
    for k in range(1, n2 + 1):
        ops.append(OP("mset", 0, 2, k, r.randint(0, NJ)))
    handle = None
    for _ in range(r.randint(8, 24)):
        m = r.random()
        k = r.randint(1, n1)
        if m < 0.25 and kind.get(k):
            ops.append(OP("mgetv", 4, 1, k))
            handle = k
            for _ in range(r.choice([1, 1, 2])):
                ops.append(OP("aref", 0, 3, 0, 4) if r.random() < 0.4 else OP("mref", 0, 2, r.randint(1, 6), 4))
        elif m < 0.35 and kind.get(k) in ("map", "arr"):
            six = kind[k]
            ops.append(OP("mgetm" if six == "map" else "mgeta", 6, 1, k))
            grow()
        elif m < 0.65:
            put(k)
            if r.random() < 0.5:
                grow()
        elif m < 0.72 and kind.get(k):
            ops.append(OP("mrem", 0, 1, k))
            kind[k] = None
        elif m < 0.84 and handle:
            if r.random() < 0.6:
                ops.append(OP("vset", 0, 4, 0, r.randint(1, NJ)))
                now = "val"
            else:
                leaf()
                ops.append(OP("vref", 0, 4, 0, 6))
                now = six
            if kind.get(handle):
                kind[handle] = "changed"
        elif m < 0.92:
            ops.append(OP("clone", 5, r.choice([1, 2, 3])))
        elif m < 0.96:
            ops.append(OP("query", 0, r.choice([1, 2, 3])))
        else:
            grow()
    return ops


def large(prop, r, n, big):
    out = []
    if prop in ("C11", "C12", "C22"):
        for _ in range(NESTED[prop] * (4 if big else 1)):
            ops = nested(r)
            out.append({"rs": r.randint(1, 10**9), "ns": 4, "keys": [cps(k) for k in r.sample(KEYS, 4)], "cs": contents(r), "ops": ops, "look": r.choice([0, 0, 4])})
    for _ in range(SHARED[prop] * (4 if big else 1)):
        out.append(clothe(shared(r), r, 6, 10, NC, NJ))
    for _ in range(n):
        size = r.choice([70, 130, 257, 300] + ([520, 700] if big else []))
        grow = size + r.choice([100, 400, 900])
        nk = 1
        if prop == "C10" or (prop in ("C12", "C22") and r.random() < 0.4):
            ops = large_seq(r, size * r.choice([1, 2, 4]), grow)
        else:
            nk, ops = size, large_dict(r, size, grow)
        m = r.random()
        keys = lookalikes(r, nk) if m < 0.3 else ["k%d" % i for i in range(nk)] if m < 0.6 else [str(i) for i in range(nk)] if m < 0.8 else ["%x" % (i * 2654435761 % (1 << 32)) for i in range(nk)]
        out.append({"rs": r.randint(1, 10**9), "ns": 3, "keys": [cps(k) for k in keys], "cs": contents(r), "ops": ops, "look": max(1, len(ops) // r.choice([3, 5, 8]))})
    return out


def generate(ctx, prop, rnd):
    (kinds, quick, thorough), sims = PLAN[prop]
    r = random.Random("%s-%d-%d" % (prop, ctx.seed, rnd))
    cases = []
    jobs = []

    def sim(j):
        w, ns, nk, depth, cap, num, seed = j
        lines = ctx.tlc("Gen_Hist", cfg_text=GEN % (ns, nk, NC, NJ, depth, cap, w, seed, seed + num - 1), workers=2, mem="3g")
        # printed in the order of TLC's workers
        return j, sorted((json.loads(json.loads(l)[5:]) for l in lines if l.startswith('"CASE ')), key=json.dumps)

    mult = 4 if ctx.thorough else 1
    for k, (w, ns, nk, depth, cap, num) in enumerate(sims):
        jobs.append((w, ns, nk, depth, cap, num * mult, random.Random("%s-%d-%d-%d" % (prop, ctx.seed, rnd, k)).randint(1, 200000)))
    with ThreadPoolExecutor(4) as ex:
        sims_done = list(ex.map(sim, jobs))
    if rnd == 0:
        a = thorough if ctx.thorough else quick
        ns, nk, nc, mo = a
        for h in hj.gen_cases(ctx, "MC_Container", MC % (ns, nk, nc, mo, "TRUE", kinds), timeout=2400, workers=1):
            cases.append(clothe(h, r, ns, nk, nc, nc))
    for (w, ns, nk, depth, cap, num, seed), hs in sims_done:
        for h in hs:
            if h:
                cases.append(clothe(h, r, ns, nk, NC, NJ))
    cases += large(prop, r, LARGE[prop] * mult, ctx.thorough)
    r.shuffle(cases)
    for i, c in enumerate(cases):
        c["id"] = i
    return cases


def describe(c, rec):
    return "history %s over keys %s" % (json.dumps([[o["op"], o["d"], o["s"], o["k"], o["x"], o["y"]] for o in c["ops"]])[:500],
                                        json.dumps([hj.txt(k) for k in c["keys"]], ensure_ascii=False)[:200])


def run(ctx, prop, replay=None):
    rounds = 6 if ctx.thorough else 1
    return hj.judge_rounds(ctx, prop, "H", "Trace_Container", lambda rnd: generate(ctx, prop, rnd), rounds, replay, describe,
                           sample=lambda c: " ".join("%s(d%d s%d k%d x%d)" % (o["op"], o["d"], o["s"], o["k"], o["x"]) for o in c["ops"])[:300])
