"""Suite S: every operation of the API by reflection (part of C19, C14, C09,
C10, C22), judged by Trace_Effect.tla."""

import json
import hj
from value_suite import Values, NULL_KINDS

hj.DEAD["S"] = lambda c, what: {"id": c["id"], "on": c["on"], "r": what}

COUNT = {"C19": 420, "C14": 220, "C09": 120, "C10": 120, "C22": 120}


def cases_for(ctx, prop, rnd):
    g = Values("S-%s-%d-%d" % (prop, ctx.seed, rnd))
    r = g.r
    out = []
    n = COUNT[prop] * (8 if ctx.thorough else 1)
    on = {"C09": ["map"], "C10": ["array"], "C14": ["map", "array", "value", "value"]}.get(prop, ["map", "array", "value"])
    fams = "nbsifxteEFo"
    for i in range(n):
        o = on[i % len(on)]
        k = fams[(i // len(on)) % len(fams)]
        doc = g.scalar(k) if r.random() < 0.65 else g.one(r.choice("amgx"))
        pool = [g.scalar(x) for x in fams] + [g.one(x) for x in "gga"] + [g.map_node(2, "nbsif", 3), g.arr_node(2, "nbsif", 3)]
        pool = [p for p in pool if not (p["t"] == "str" and any(x >= 1114112 for x in p["s"]))]
        out.append({"id": i, "rs": r.randint(1, 10**9), "on": o, "doc": doc, "pool": pool})
    return out


def describe(c, r):
    return "operations of a %s holding %s" % (c["on"], json.dumps(c["doc"], ensure_ascii=False)[:300])


def run(ctx, prop, replay=None):
    bad = hj.judge_rounds(ctx, prop, "S", "Trace_Effect", lambda rnd: cases_for(ctx, prop, rnd), 1, replay, describe,
                          sample=lambda c: "all operations on %s %s" % (c["on"], json.dumps(c["doc"], ensure_ascii=False)[:200]))
    for b in bad:
        b["what"] += ": wrong: %s" % ", ".join(b["want"])[:600]
    return bad
