#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the machinery failed
"""

import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hj
import parse_suite
import write_suite
import hist_suite
import value_suite
import sweep_suite
import conc_suite
import cycle_suite

SUITES = {}
for p in parse_suite.PLAN:
    SUITES[p] = parse_suite.run
for p in write_suite.PLAN:
    SUITES[p] = write_suite.run
for p in hist_suite.PLAN:
    SUITES[p] = hist_suite.run
for p in value_suite.PLAN:
    SUITES.setdefault(p, value_suite.run)
for p in conc_suite.PLAN:
    SUITES[p] = conc_suite.run

SWEEP = sweep_suite.run

LEVEL = "model_checking"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    replay = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            with open(args.pop(0)) as f:
                replay = json.load(f)["case"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = hj.Ctx(prop, tier, seed)
    try:
        if replay:
            suite = cycle_suite.run if "g" in replay else write_suite.run_clones if "cl" in replay else SWEEP if "on" in replay else value_suite.run if "route" in replay else SUITES[prop]
            bad = suite(ctx, prop, replay=replay)
        else:
            bad = SUITES[prop](ctx, prop)
            if prop in value_suite.PLAN and SUITES[prop] is not value_suite.run:
                bad += value_suite.run(ctx, prop)
            if prop in write_suite.CLONES:
                bad += write_suite.run_clones(ctx, prop)
            if prop in sweep_suite.COUNT:
                bad += SWEEP(ctx, prop)
            if prop in cycle_suite.COUNT:
                bad += cycle_suite.run(ctx, prop)
        known = load_known(prop)
        new = []
        for b in bad:
            k = known_match(known, b)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k))
            else:
                new.append(b)
        if not replay:
            write_evidence(ctx, prop, len(new))
        if new:
            d = os.path.join(hj.VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
            new.sort(key=lambda b: len(json.dumps(b["case"])))
            with open(path, "w") as f:
                json.dump(dict(new[0], more=[b["what"] for b in new[1:20]]), f, indent=1)
            for b in new[:5]:
                print("MISMATCH:", b["what"][:1000])
                print("  wanted:", json.dumps(b["want"])[:1000], "tags:", b["tags"], "case:", json.dumps(b["case"])[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("OK property=%s tier=%s seed=%d: %d recorded executions judged, %d specification states, %.1fs"
              % (prop, tier, seed, ctx.records, ctx.states, time.time() - ctx.t0))
        return 0
    except hj.Broken as e:
        print("BROKEN:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


def load_known(prop):
    out = []
    with open(os.path.join(hj.VERIF, "KNOWN_FINDINGS")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l)
    return out


def known_match(known, b):
    # a known finding names the failing case exactly, as "case=<json>"
    c = json.dumps({k: v for k, v in b["case"].items() if k != "id"}, sort_keys=True)
    for l in known:
        i = l.find(" case=")
        if i >= 0 and l[i + 6:].strip() == c:
            return l[:i].split(" ", 2)[2]
    return None


def write_evidence(ctx, prop, violations):
    d = os.path.join(hj.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": LEVEL,
        "coverage": {
            "states": ctx.states, "transitions": ctx.generated,
            "traces_validated_against_impl": ctx.records,
            "samples": ctx.samples[:8],
            "model_checking_runs": ctx.mc,
            "counts": ctx.notes,
        },
        "assumptions": ["TLC and the CommunityModules evaluate the specification correctly",
                        "the driver's projection of library objects (GetObject, GetKeys, GetValue, GetValues) to content nodes is faithful"],
        "wall_s": round(time.time() - ctx.t0, 1),
        "violations": violations,
    }
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
