"""Negative controls of the judges: a recorded execution is falsified, and the
specification has to refuse it. The judges are not vacuous as long as every
falsified record is reported. f(record, random) -> the falsified record or
None if this one does not lend itself."""

import copy


def _nodes(n, out):
    out.append(n)
    for v in n.get("vs") or []:
        _nodes(v, out)
    return out


def parse(r, rnd):
    if r["r"] != "ok" or r["flat"] or not r["node"].get("vs"):
        return None
    if any(c < 32 and c not in (9, 10, 13) or c == 92 or 0xd800 <= c < 0xe000 or c > 0x10ffff for c in r["txt"]):
        return None    # what the text denotes may be open
    r = copy.deepcopy(r)
    n = rnd.choice(_nodes(r["node"], []))
    t = n["t"]
    if t == "map" and n["ks"]:
        k = rnd.randrange(len(n["ks"]))
        if rnd.random() < 0.5:
            n["ks"][k] = n["ks"][k] + [97]
        else:
            del n["ks"][k], n["vs"][k]
    elif t == "arr" and n["vs"]:
        if rnd.random() < 0.5:
            del n["vs"][-1]
        else:
            n["vs"].append({"t": "null"})
    elif t == "str":
        n["s"] = n["s"] + [32]
    elif t == "bool":
        n["b"] = 1 - n["b"]
    elif t == "null":
        n.clear()
        n.update({"t": "str", "s": []})
    else:
        return None
    return r


def write(r, rnd):
    if r["r"] != "ok" or not r["full"]:
        return None
    r = copy.deepcopy(r)
    k = rnd.randrange(3)
    if k == 0:
        r["full"] = r["full"][:-1]
    elif k == 1:
        r["full"] = r["full"] + [125]
    else:
        r["after"] = {"t": "map", "ks": [[120]], "vs": [r["after"]]}
    return r


def history(r, rnd):
    steps = [k for k, s in enumerate(r["steps"]) if s["ch"]]
    if not steps or "dead" in r:
        return None
    r = copy.deepcopy(r)
    st = r["steps"][rnd.choice(steps)]
    n = rnd.choice(_nodes(rnd.choice(st["ch"])["o"], []))
    if n["t"] == "arr":
        n["len"] += 1
    elif n["t"] == "map" and n["ks"]:
        k = rnd.randrange(len(n["ks"]))
        del n["ks"][k], n["vs"][k]
    elif n["t"] == "map":
        n["ks"], n["vs"] = [1], [{"t": "arr", "vs": [], "len": 0}]
    else:
        return None
    return r


def value(r, rnd):
    if r["r"] != "ok" or not r["value"]["false"]:
        return None
    r = copy.deepcopy(r)
    a = [x for x in r["value"]["false"] if x.startswith("Is")]
    b = [x for x in r["value"]["true"] if x.startswith("Is")]
    if a and (not b or rnd.random() < 0.5):
        x, f, t = rnd.choice(a), "false", "true"
    elif b:
        x, f, t = rnd.choice(b), "true", "false"
    else:
        return None
    r["value"][f].remove(x)
    r["value"][t].append(x)
    return r


def effect(r, rnd):
    if r["r"] != "ok":
        return None
    r = copy.deepcopy(r)
    c = [s for s in r["steps"] if s["x"] == 0 and s["op"].startswith(("Is", "Has")) and len(r["tab"]) > 1]
    if not c:
        return None
    s = rnd.choice(c)
    others = [i + 1 for i, t in enumerate(r["tab"]) if t != r["tab"][s["b"] - 1]]
    if not others:
        return None
    s["e"] = rnd.choice(others)
    return r


def conc(r, rnd):
    if r["r"] != "ok" or not any(r["got"]):
        return None
    r = copy.deepcopy(r)
    if rnd.random() < 0.3:
        r["races"] = 1
        return r
    p = rnd.choice([p for p in r["got"] if p])
    k = rnd.randrange(len(p))
    p[k] = p[k] + [p[k][0] % len(r["tab"]) + 1] if len(r["tab"]) > 1 else []
    return r


def walk(r, rnd):
    r = copy.deepcopy(r)
    r["r"] = rnd.choice(["panic", "hang"] + (["err"] if r["r"] == "ok" else ["ok"]) if r["op"] != "walk" else ["panic"])
    return r


CONTROLS = {"P": parse, "W": write, "H": history, "G": value, "S": effect, "R": conc, "X": walk}
