"""Suite X: containers in containers as a graph (part of C19). TLC checks the
three designs of a walk over all small graphs; the real walks are judged by
Trace_Cycle.tla."""

import json
import random
import hj

hj.DEAD["X"] = lambda c, what: {"id": c["id"], "g": c["g"], "op": c["op"], "r": what}

MC = """SPECIFICATION Spec
CONSTANTS Design = "%s" Nodes = {%s} MaxOut = %d
%s
CHECK_DEADLOCK FALSE
"""

COUNT = {"C19": 150}

# containers that contain themselves; both operations on each
SELF = [
    ([0], [[1]]), ([1], [[1]]), ([0, 0], [[2], [1]]), ([0, 1], [[2], [1]]), ([1, 0], [[2], [2]]),
]


def check_spec(ctx):
    ctx.tlc("HJCycle", cfg_text=MC % ("path", "1, 2, 3", 2, "INVARIANTS Bounded Right\nPROPERTY Ends"))
    ctx.tlc("HJCycle", cfg_text=MC % ("visited", "1, 2", 2, "INVARIANT Right"), expect_error="Invariant Right is violated", count=False)
    ctx.tlc("HJCycle", cfg_text=MC % ("naive", "1, 2", 2, "INVARIANT Bounded"), expect_error="Invariant Bounded is violated", count=False)


def acyclic(r):
    """diamonds: containers put in several places, never in themselves"""
    n = r.choice([1, 2, 3, 4, 6, 8, 9])
    g = []
    for i in range(n):
        later = list(range(i + 2, n + 1))
        g.append([r.choice(later) for _ in range(r.choice([0, 1, 2, 2, 2]))] if later else [])
    return {"kind": [r.randint(0, 1) for _ in range(n)], "g": g, "op": r.choice(["write", "clone", "walk"])}


def cases_for(ctx, prop, rnd):
    r = random.Random("X-%s-%d-%d" % (prop, ctx.seed, rnd))
    out = [{"kind": k, "g": g, "op": op} for k, g in SELF for op in ("write", "clone", "walk")]
    out += [acyclic(r) for _ in range(COUNT[prop] * (10 if ctx.thorough else 1))]
    for i, c in enumerate(out):
        c["id"] = i
    return out


def describe(c, r):
    return "%s of a graph of containers %s ended with %s" % (c["op"], c["g"], r["r"])


def run(ctx, prop, replay=None):
    if not replay:
        check_spec(ctx)
    return hj.judge_rounds(ctx, prop, "X", "Trace_Cycle", lambda rnd: cases_for(ctx, prop, rnd), 1, replay, describe)
