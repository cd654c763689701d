"""Suite P: C01-C06. Texts are parsed by the real code and judged by
Trace_Parse.tla."""

import json
import hj
from textgen import Gen


def dead(c, what):
    return {"id": c["id"], "fam": c["fam"], "txt": c["txt"], "r": what, "again": 1, "ind": 1, "node": {"t": "none"}, "flat": []}


hj.DEAD["P"] = dead

GEN = """SPECIFICATION Spec
CONSTANTS Alphabet = "%s" MaxToks = %d
INVARIANTS TypeOK Completable Replays
CHECK_DEADLOCK FALSE
"""
GENINT = """SPECIFICATION Spec
INVARIANTS ArithOK NarrowOK LitOK
CHECK_DEADLOCK FALSE
"""

GENSOUP = """SPECIFICATION Spec
CONSTANTS Chars = {%s} MaxLen = %d Context = "%s"
INVARIANTS OneVerdict DeadStays
CHECK_DEADLOCK FALSE
"""
# every text of these characters: (context, length in quick, length in thorough)
SOUPCHARS = '{}[],:"\\1n- '
SOUP = {
    "C01": [("value", 4, 5), ("map", 3, 4), ("array", 3, 4), ("second", 3, 4), ("after", 3, 4), ("string", 3, 4), ("key", 3, 4), ("bare", 4, 5)],
    "C03": [("value", 3, 4), ("map", 3, 4), ("array", 3, 4), ("second", 3, 4), ("after", 3, 4), ("bare", 3, 4)],
}

GENMEMBERS = """SPECIFICATION Spec
CONSTANTS MaxMembers = %d Context = "%s"
INVARIANTS LastWins
CHECK_DEADLOCK FALSE
"""
MEMBERS = {"C02": [("top", 2, 4), ("inner", 2, 3)], "C01": [("top", 2, 2)]}

# per property: (alphabet, length in quick, length in thorough) enumerated by
# TLC, and the random families with their number in quick
PLAN = {
    "C01": ([("struct", 7, 10), ("string", 2, 3), ("number", 3, 5), ("escape", 2, 3), ("word", 3, 5)],
            [("bad", 1500), ("garbage", 800), ("tree", 300), ("str", 300), ("dec", 200), ("int", 200), ("deep", 12), ("long", 12), ("huge", 8), ("twins", 150), ("sib-skid", 60)]),
    "C02": ([("struct", 8, 12), ("white", 5, 7), ("word", 4, 5)],
            [("tree", 1500), ("ws", 900), ("int", 150), ("dec", 150), ("str", 300), ("deep", 16), ("long", 12), ("huge", 10), ("twins", 150), ("sib-k", 60)]),
    "C03": ([("struct", 9, 12), ("white", 5, 7), ("number", 4, 6), ("word", 5, 6)],
            [("bad", 2200), ("garbage", 700), ("deepbad", 20), ("longbad", 12), ("twins", 100)]),
    "C04": ([("number", 4, 6)], [("int", 3000), ("long", 6), ("twins", 60), ("sib-i", 250)]),
    "C05": ([("number", 4, 6)], [("dec", 3200), ("long", 6), ("twins", 60), ("sib-d", 250)]),
    "C06": ([("string", 2, 3), ("escape", 3, 4)], [("str", 2200), ("long", 20), ("huge", 16), ("twins", 60), ("sib-sk", 300)]),
}


def rand(fam, g):
    if fam == "bad":
        k = g.r.random()
        base = g.tree() if k < 0.1 else g.spaced() if k < 0.2 else g.obj(g.r.randint(1, 3), width=3)
        if len(base) > 500:
            base = g.obj(2, width=3)
        return g.mutate(base)
    if fam in ("deep", "deepbad"):
        return deep(g, fam == "deepbad")
    if fam == "huge":
        return huge_doc(g)
    if fam == "twins":
        return twin(g)
    if fam[:4] == "sib-":
        return g.sib_doc(fam[4:])
    if fam in ("long", "longbad"):
        return long_doc(g, fam == "longbad")
    return {"garbage": g.garbage, "tree": g.tree, "ws": g.spaced, "int": g.int_doc, "dec": g.dec_doc, "str": g.str_doc}[fam]()


TEMPLATES = ['{"a":1}', '{"a":"s"}', '{"a":[]}', '{"a":{}}', '{}', '{"a":true,"b":null}', '{"a":-1.5e+20}', '{"":[1,2]}', '{"a":[[],{}],"b":{"c":[0]}}',
             '{"k":"\\u00e9\\n"}', '{"a":[{"b":"x"},"y",false]}', '{ "a" : [ 1 , { } ] , "b" : { "c" : "d" } }', '{"\\"k":[-0,10]}', '{"a":[1,[2,[3]]]}']
CHARS = list(range(128)) + [hj.BAD + b for b in range(128, 256)] + [0x85, 0xa0, 0x2028, 0x2029, 0x3000, 0xfeff, 0xff0c, 0xff1a, 0x661, 0xff11, 0x201c, 0x1f600,
                                                                 0x200b, 0x130, 0x212a, 0xd7, 0xe9, 0x10ffff, 0xffff]


def system(r, share):
    """every character inserted and substituted at every position of every
    template, and every deletion; ASCII always, the rest by share"""
    out = []
    for t in TEMPLATES:
        t = hj.cps(t)
        for p in range(len(t) + 1):
            for c in CHARS:
                w = share if c < 128 and c not in (0x0b, 0x0c) else share * 0.3 if c >= 128 else 3 * share
                if r.random() < w:
                    out.append(t[:p] + [c] + t[p:])
                if p < len(t) and c != t[p] and r.random() < w * 0.7:
                    out.append(t[:p] + [c] + t[p + 1:])
            for n in (1, 2, 3):
                if r.random() < share * 4:
                    out.append(t[:p] + t[p + n:])
            if r.random() < share * 4:
                out.append(t[:p] + t[p:p + 1] * 2 + t[p + 1:])
    return out


def deep(g, bad):
    """a chain of containers, with neighbours here and there"""
    r = g.r
    n = r.choice([90, 130, 200, 255, 256, 257, 400, 1000 if g.big else 500])
    mix = r.choice(["m", "a", "ma", "ma"])
    op, cl = [], []
    for i in range(n):
        k = r.choice(mix) if i else "m"
        before = after = ""
        if r.random() < 0.1:
            before = ('"b%d":%s,' % (i, g.atom()) if k == "m" else g.atom() + ",")
        if r.random() < 0.1:
            after = (',"z":%s' % g.atom() if k == "m" else "," + g.atom())
        op.append(("{" + before + '"k":') if k == "m" else ("[" + before))
        cl.append(after + ("}" if k == "m" else "]"))
    core = r.choice(["1", "null", '"x"', "[]", "{}", "1.5", "true"])
    if bad:
        k = r.randrange(n)
        m = r.random()
        if m < 0.35:
            cl[k] = cl[k][:-1] + ("]" if cl[k][-1] == "}" else "}")
        elif m < 0.6:
            cl[k] = cl[k][:-1]
        elif m < 0.8:
            cl[k] += r.choice("}]")
        else:
            core = r.choice(["", "01", "tru", "1 2", ",", "'a'"])
    return "".join(op) + core + "".join(reversed(cl))


def long_doc(g, bad):
    r = g.r
    k = r.choice(["arr", "map", "str", "key", "key", "num", "ws", "arr of str"])
    n = r.choice([300, 600, 1024, 1500])
    if k == "arr":
        parts = [g.atom() for _ in range(n)]
        if bad:
            i = r.randrange(n)
            parts[i] = r.choice(["", "01", "nul", "1 1", "}", '"'])
        return '{"a":[%s]}' % ",".join(parts)
    if k == "map":
        n = min(n, 400)
        parts = ['"k%d":%s' % (i if r.random() < 0.98 else r.randrange(n), g.atom()) for i in range(n)]
        if bad:
            i = r.randrange(n)
            parts[i] = r.choice(["", '"k"', '"k":', "k:1", '"k":1:1', "1"])
        return "{%s}" % ",".join(parts)
    if k in ("str", "key"):
        s = "".join(r.choice(["a", "é", "\\n", "\\u00e9", "😀", " ", "\\\\", '\\"', "{", ",", "\\ud83d\\ude00"]) for _ in range(n))
        if bad:
            return r.choice(['{"a":"%s}', '{"a":%s"}', '{"a":"%s""}']) % s
        if k == "key":
            return '{"%s":%s}' % (s, r.choice([g.atom(), g.string(g.content()), "[]", "{}", '["x",1]']))
        return '{"a":"%s"}' % s
    if k == "num":
        d = "".join(r.choice("0123456789") for _ in range(n)).lstrip("0") or "1"
        if bad:
            return '{"a":0%s}' % d
        return r.choice(['{"a":0.%s}', '{"a":%s.5e-' + str(n) + "}", '{"a":-0.000%se2}', '{"a":%se-' + str(n - 3) + '}']) % d
    if k == "ws":
        w = "".join(r.choice(" \t\n\r") for _ in range(n))
        return '{%s"a"%s:%s[1%s,2]%s}' % (w, w, w, w, w) + ("" if not bad else r.choice(["x", "}", "]", ","]))
    parts = ['"%s"' % ("x" * (i % 40)) for i in range(n)]
    if bad:
        parts[r.randrange(n)] = '"'
    return '{"a":[%s]}' % ",".join(parts)


def huge_doc(g):
    """beyond the sizes of buffers and of batches of work"""
    r = g.r
    k = r.choice(["str", "str", "key", "key", "arr", "map", "ws", "strs"])
    n = r.choice([4090, 8185, 12000])
    if k in ("str", "key"):
        s = "a" * (n + r.randint(0, 3))
        # something special about every power of two
        for p in (4096, 8192, 10000):
            for _ in range(3):
                i = p + r.randint(-12, 3)
                if i < len(s) - 12:
                    s = s[:i] + r.choice(["é", "\\n", "\\u00e9", "😀", "\\\\", '\\"', "\\ud83d\\ude00"]) + s[i:]
        if k == "key":
            return '{"%s":%s,"%s":%s}' % (s, g.atom(), s[:-13], g.string(g.content()))
        return '{"a":"%s","b":[]}' % s
    if k == "arr":
        return '{"a":[%s]}' % ",".join(g.atom() if r.random() < 0.01 else str(i % 10) for i in range(n // 2))
    if k == "strs":
        return '{"a":[%s]}' % ",".join('""' if i % 3 else '"%d"' % (i % 10) for i in range(n // 3))
    if k == "map":
        return "{%s}" % ",".join('"%x":%d' % (i if r.random() < 0.99 else r.randrange(n), i % 10) for i in range(n // 6))
    w = " " * n
    return '{"a":1,%s"b":%s2}' % (w, "\n" * n)


def twin(g):
    """texts that agree in length and at both ends, so that whatever is kept
    about one of them shows when the next is parsed"""
    r = g.r
    n, pad = r.choice([(20, 40), (20, 40), (100, 120), (300, 700)])
    inner = r.choice([g.int_doc, g.dec_doc, g.str_doc, lambda: g.obj(2), lambda: g.mutate(g.obj(2))])()
    inner = inner[:pad] if len(inner) > pad and r.random() < 0.1 else inner if len(inner) <= pad else '{"a":%d}' % r.randint(0, 999)
    inner = inner + " " * (pad - len(inner))
    return '{"first":"%s","d":%s,"last":"%s"}' % ("x" * n, inner, "y" * n)


def is_int_text(t):
    return not any(x in t for x in (46, 69, 101))


def cases_for(ctx, prop, rnd):
    enum, fams = PLAN[prop]
    out = []
    if rnd == 0:
        for alpha, q, t in enum:
            for c in hj.gen_cases(ctx, "Gen_Text", GEN % (alpha, t if ctx.thorough else q)):
                fam = alpha
                if alpha in ("string", "escape"):
                    fam = "str"
                if alpha == "number":
                    fam = "int" if is_int_text(c) else "dec"
                    if prop == "C04" and fam != "int" or prop == "C05" and fam != "dec":
                        continue
                out.append((fam, c))
        for context, q, t in SOUP.get(prop, []):
            cfg = GENSOUP % (",".join(str(ord(c)) for c in SOUPCHARS), t if ctx.thorough else q, context)
            out += [("soup", c) for c in hj.gen_cases(ctx, "Gen_Soup", cfg)]
        for context, q, t in MEMBERS.get(prop, []):
            out += [("members", c) for c in hj.gen_cases(ctx, "Gen_Members", GENMEMBERS % (t if ctx.thorough else q, context))]
        if prop in ("C04", "C03"):
            out += [("int", c) for c in hj.gen_cases(ctx, "Gen_Int", GENINT)]
    g = Gen("%s-%d-%d" % (prop, ctx.seed, rnd))
    if prop in ("C01", "C03", "C02"):
        share = {"C01": 0.05, "C03": 0.07, "C02": 0.02}[prop]
        out += [("sys", c) for c in system(g.r, 1 if ctx.thorough and rnd == 0 and prop == "C03" else share)]
    g.big = ctx.thorough
    for fam, n in fams:
        for _ in range(n):
            out.append((fam, hj.cps(rand(fam, g))))
    g.r.shuffle(out)
    return [{"id": i, "fam": f, "txt": c, "flat": int(f in ("deep", "deepbad", "long", "longbad", "huge"))} for i, (f, c) in enumerate(out)]


def describe(c, r):
    return "text %r (family %s): Parse gave %s" % (hj.txt(r["txt"])[:300], c["fam"], r["r"])


MC = """SPECIFICATION Spec
CONSTANTS Chars = {%s} Prefix = %d MaxLen = %d Beyond = %d
INVARIANTS Agrees Built
CHECK_DEADLOCK FALSE
"""
STRUCT = "123,125,91,93,44,58,34,49,32"
# automaton = grammar: (alphabet, prefix, length quick, length thorough, beyond)
MODEL = {
    "C01": [],
    "C02": [(STRUCT, 0, 7, 9, 1)],
    "C03": [(STRUCT, 0, 7, 9, 1), ("116,114,117,101,102,97,108,115,110,32,125", 1, 6, 8, 1)],
    "C04": [("45,48,49,44,93,32", 3, 6, 8, 2)],
    "C05": [("45,48,49,46,101,43,44,93,32", 3, 6, 7, 2)],
    "C06": [("34,92,117,48,49,97,100,68,125", 2, 6, 7, 1)],
}


def run(ctx, prop, replay=None):
    if not replay:
        for chars, prefix, q, t, beyond in MODEL[prop]:
            ctx.tlc("MC_Text", cfg_text=MC % (chars, prefix, t if ctx.thorough else q, beyond))
    return hj.judge_rounds(ctx, prop, "P", "Trace_Parse", lambda rnd: cases_for(ctx, prop, rnd), 10 if ctx.thorough else 1, replay, describe,
                           sample=lambda c: hj.txt(c["txt"])[:200])
