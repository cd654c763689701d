"""Suite R: C18. Several goroutines use the real library at the same time; the
recorded results are judged by Trace_Conc.tla. Three ways of interleaving:
calls in the orders TLC enumerates from HJConc (token), all at once under the
race detector (free), and all at once on a copy of the library in which every
statement is preceded by a possible switch to another goroutine (yield)."""

import json
import os
import shutil
import subprocess
import hj
from nodegen import NodeGen, cps
from textgen import Gen

NONE = {"t": "none"}


def dead(c, what):
    return {"id": c["id"], "r": what, "node": NONE, "after": NONE, "twin": NONE, "races": 0, "race": "", "tab": [], "calls": [], "alone": [], "got": []}


hj.DEAD["R"] = dead

MC = """CONSTANTS
 Design = "%s"
 Programs <- %s
 Emit = %s
SPECIFICATION Spec
INVARIANTS %s
%sCHECK_DEADLOCK FALSE
"""

PLAN = {"C18": (260, 500)}


def check_spec(ctx):
    inv = "AsAlone Untouched NoRace"
    progs = ["Parsers", "Readers", "Cloners"] + (["Mixed3", "Mixed4"] if ctx.thorough else [])
    for p in progs:
        ctx.tlc("HJConc", cfg_text=MC % ("private", p, "FALSE", inv, "PROPERTY Terminates\n"))
    # negative controls: the laws are not vacuous
    for d, p, i in [("global", "Parsers", "AsAlone"), ("global", "Parsers", "NoRace"), ("lazy", "Readers", "AsAlone"), ("lazy", "Readers", "NoRace"),
                    ("locked", "Readers", "AsAlone"), ("shallow", "Cloners", "Untouched"), ("shallow", "Cloners", "NoRace")]:
        ctx.tlc("HJConc", cfg_text=MC % (d, p, "FALSE", i, ""), expect_error="Invariant %s is violated" % i, count=False)


def schedules(ctx):
    return hj.gen_cases(ctx, "HJConc", MC % ("private", "Mixed3", "TRUE", "Report", ""))


ABSTRACT = [["parse", "read"], ["read", "clone"], ["bad", "parse"]]   # HJConc!Mixed3


class ConcGen(NodeGen):
    def text(self):
        k = self.r.random()
        t = self.tree() if k < 0.4 else self.spaced() if k < 0.5 else self.str_doc() if k < 0.7 else self.int_doc() if k < 0.8 else self.dec_doc() if k < 0.9 else self.bad()
        if self.r.random() < 0.04:
            return self.wide_text()
        return t if len(t) < 400 else '{"a":[1,"x",{"b":null}]}'

    def wide_text(self):
        """beyond the sizes for which something may be kept, pooled or cut"""
        r = self.r
        m = r.random()
        n = r.choice([70, 130, 300])
        if m < 0.4:
            return "{%s}" % ",".join('"k%d":%d' % (i, i * 7) for i in range(n))
        if m < 0.8:
            return '{"a":[%s]}' % ",".join(r.choice(["null", '"x"', "1.5", "{}", str(i)]) for i in range(n))
        return '{"s":"%s"}' % "".join(r.choice('abc \\u0041'.split(" ")) for _ in range(n * 4))

    def wide_doc(self):
        r = self.r
        n = r.choice([33, 70, 140])
        small = lambda k: self.map_node(1, "bi", 2) if r.random() < 0.05 else self.scalar(k) if k != "s" else {"t": "str", "s": cps(self.content(6))}
        m = r.random()
        if m < 0.5:
            return {"t": "map", "ks": [cps(r.choice(["k%d", "key-%d", "%d"]) % i + "") for i in range(n)], "vs": [small("nbsift") for _ in range(n)]}
        k = r.choice(["i", "i", "s", "b", "nbsift", "f", "ni"])
        return {"t": "map", "ks": [cps("a"), cps("b")], "vs": [{"t": "arr", "vs": [small(k) for _ in range(n)]}, self.scalar("i")]}

    def pairs(self):
        """contents of one kind that differ little, each twice in a row: what
        is kept about the last one is another goroutine's"""
        r = self.r
        vs = [v for v in self.sib_lits(r.choice("ssifte"), r.choice([2, 3, 5])) for _ in (0, 1)]
        if r.random() < 0.5:
            return {"t": "map", "ks": [cps("k%d" % i) for i in range(len(vs))], "vs": vs}
        return {"t": "map", "ks": [cps("a")], "vs": [{"t": "arr", "vs": vs}]}

    def pairs_text(self):
        ls = [t for t in self.siblings(self.r.choice("sid"), self.r.choice([2, 3])) for _ in (0, 1)]
        return '{"a":[%s]}' % ",".join(ls)

    def bad(self):
        return self.mutate(self.obj(self.r.randint(1, 3), width=3))

    def path(self):
        return [self.r.randint(0, 5) if self.r.random() < 0.8 else self.r.randint(0, 400) for _ in range(self.r.choice([0, 0, 1, 1, 1, 2, 2, 3]))]

    def call(self, op):
        r = self.r
        if op == "read":
            op = r.choice(["write", "write", "dump", "keys", "ask", "ask", "text"])
        c = {"op": op, "path": self.path(), "rs": r.randint(1, 10**9)}
        if op in ("parse", "bad"):
            c["op"] = "parse"
            c["txt"] = cps((self.pairs_text() if r.random() < 0.15 else self.text()) if op == "parse" else self.bad())
        elif op == "build":
            c["doc"] = self.pairs() if r.random() < 0.3 else self.map_node(2, "nbsifte")
        elif op == "text":
            c["args"] = [cps(x) for x in ["", "1", "true", self.content(3)]]
        return c

    def shared(self):
        k = self.r.random()
        if self.r.random() < 0.06:
            return {"doc": self.wide_doc(), "wide": 1}
        if self.r.random() < 0.1:
            return {"doc": self.pairs()}
        if k < 0.35:
            return {"txt": cps(self.r.choice([self.tree, self.spaced, self.str_doc, self.int_doc, self.dec_doc])()[:600])}
        if k < 0.7:
            return {"doc": self.map_node(3, "nbsif")}
        return {"doc": self.map_node(2, "nbsifteESF")}


def token_cases(g, scheds):
    out = []
    for s in scheds:
        c = g.shared()
        c.pop("wide", 0)
        c.update(progs=[[g.call(k) for k in p] for p in ABSTRACT], sched=s, rep=1, procs=0, rs=g.r.randint(1, 10**9))
        out.append(c)
    return out


def free_cases(g, n, procs, rep):
    r = g.r
    out = []
    for i in range(n):
        c = g.shared()
        k = r.choice([2, 3, 4, 6, 8])
        m = r.random()
        if m < 0.15:      # the same call in all
            one = g.call(r.choice(["read", "read", "clone", "parse", "bad", "build"]))
            progs = [[one] * r.choice([1, 2])] * k
        elif m < 0.35:    # parsers only
            progs = [[g.call(r.choice(["parse", "bad", "parse"])) for _ in range(r.randint(1, 3))] for _ in range(k)]
        elif m < 0.6:     # readers only
            progs = [[g.call(r.choice(["read", "read", "clone"])) for _ in range(r.randint(1, 4))] for _ in range(k)]
        else:
            progs = [[g.call(r.choice(["read", "read", "clone", "parse", "bad", "build"])) for _ in range(r.randint(1, 4))] for _ in range(k)]
        if c.pop("wide", 0):
            progs, once = [p[:2] for p in progs], 1
        else:
            once = rep
        c.update(progs=progs, sched=[], rep=once, procs=procs, rs=r.randint(1, 10**9))
        out.append(c)
    return out


def systematic(g):
    """every kind of content, all readers on it at once, each twice"""
    out = []
    leaves = [g.scalar(k) for k in "nbsifxteESF" for _ in range(3)]
    leaves += [{"t": "map", "ks": [], "vs": []}, {"t": "arr", "vs": []}, {"t": "str", "s": cps("12")}, {"t": "str", "s": cps("2024-01-02 03:04:05.000006")}]
    for l in leaves:
        out.append({"doc": {"t": "map", "ks": [cps("a"), cps("b"), cps("c")],
                            "vs": [l, {"t": "arr", "vs": [l, l]}, {"t": "map", "ks": [cps("x")], "vs": [l]}]}})
    for c in out:
        progs = []
        for op in ["write", "clone", "ask", "text", "keys", "dump"]:
            for p in ([[], [1]] if op in ("keys", "dump") else [[0], [1]]):
                k = g.call(op)
                k["path"] = p
                progs += [[k], [k]]
        c.update(progs=progs, sched=[], rep=1, procs=8, rs=g.r.randint(1, 10**9))
    return out


def describe(c, r):
    if r["r"] != "ok":
        return "goroutines ended with %s: %s" % (r["r"], json.dumps(c)[:400])
    if r["races"]:
        return "%d data races: %s" % (r["races"], " ".join(r["race"].split())[:700])
    for g, p in enumerate(r["got"]):
        for k, l in enumerate(p):
            if l != [r["alone"][g][k]]:
                x = [i for i in l if i != r["alone"][g][k]][0]
                return "call %s of goroutine %d returned %s, alone %s" % (
                    json.dumps(c["progs"][g][k])[:300], g, json.dumps(r["tab"][x - 1])[:300], json.dumps(r["tab"][r["alone"][g][k] - 1])[:300])
    return "the shared document changed, or a call did not return what is specified"


def overlay(ctx):
    """a copy of the library with switches between statements, as an overlay"""
    out = os.path.join(ctx.work, "yield")
    os.makedirs(out)
    src = os.environ.get("HJ_REPO", hj.REPO)
    p = subprocess.run(["go", "run", "./yield", os.path.join(src, "json"), out], cwd=hj.DRIVER, env=hj.go_env(), capture_output=True, text=True)
    if p.returncode:
        raise hj.Broken("switches cannot be inserted: " + p.stderr[-2000:])
    return os.path.join(out, "overlay.json")


def run(ctx, prop, replay=None):
    mode = replay["mode"] if replay else None
    if not replay:
        check_spec(ctx)
    scheds = schedules(ctx) if not replay else []
    nfree, nyield = PLAN[prop]
    log = os.path.join(ctx.work, "race")
    renv = {"HJ_RACELOG": log, "GORACE": "halt_on_error=0 exitcode=0 history_size=5 log_path=" + log}
    bad = []
    for rnd in range(4 if ctx.thorough else 1):
        g = ConcGen("%s-%d-%d" % (prop, ctx.seed, rnd))
        todo = [("free", (systematic(g) if rnd == 0 else []) + free_cases(g, nfree * (4 if ctx.thorough else 1), 8, 3), True, renv),
                ("yield", free_cases(g, nyield * (4 if ctx.thorough else 1), 1, 4), "yield", None),
                ("token", token_cases(g, scheds), False, None)]
        for m, cases, kind, env in todo:
            if replay:
                if m != mode:
                    continue
                cases = [replay]
            else:
                for i, c in enumerate(cases):
                    c["id"], c["mode"] = i, m
            if kind == "yield" and "yield" not in ctx.overlays:
                # code the inserter cannot handle is judged by the other two modes alone
                try:
                    ctx.overlays["yield"] = overlay(ctx)
                    ctx.driver("yield")
                except hj.Broken as e:
                    ctx.overlays["yield"] = None
                    ctx.log("not run with inserted switches:", str(e)[:1000])
                    ctx.notes["inserted switches"] = "not run: " + str(e)[:200]
            if kind == "yield" and ctx.overlays["yield"] is None:
                continue
            bad += hj.judge_rounds(ctx, prop, "R", "Trace_Conc", lambda _: cases, 1, replay, describe, race=kind, env=env)
            if bad:
                return bad
        if replay:
            break
    return bad
