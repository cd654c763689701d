"""Plumbing of the checks: building the driver, running TLC, running cases on
the real code, judging the record with TLC, confirming, reporting."""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from control import CONTROLS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
BAD = 0x110000    # a byte that is not UTF-8


class Broken(Exception):
    """The machinery, not the code under test, failed."""


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOWORK="off")
    e.setdefault("HOME", "/root")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="hj-%s-" % prop)
        self.bins = {}
        self.overlays = {}    # kind of driver -> overlay file
        self.soft = set()     # dead cases the environment may be to blame for
        self.states = 0
        self.generated = 0
        self.mc = []          # model checking runs
        self.records = 0
        self.samples = []
        self.seq = 0
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        self.seq += 1
        return os.path.join(self.work, "%03d-%s" % (self.seq, name))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def log(self, *a):
        print("[%5.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- driver
    def driver(self, race=False):
        if race not in self.bins:
            out = os.path.join(self.work, "driver-%s" % race)
            cmd = ["go", "build", "-o", out] + (["-race"] if race is True else [])
            if race in self.overlays:
                cmd.append("-overlay=" + self.overlays[race])
            alt = os.environ.get("HJ_REPO")   # development only: judge a scratch copy
            if alt:
                mf = os.path.join(self.work, "alt.mod")
                with open(os.path.join(DRIVER, "go.mod")) as f:
                    m = f.read().replace("=> " + REPO, "=> " + alt)
                with open(mf, "w") as f:
                    f.write(m)
                shutil.copy(os.path.join(DRIVER, "go.sum"), os.path.join(self.work, "alt.sum"))
                cmd.append("-modfile=" + mf)
            cmd.append(".")
            p = subprocess.run(cmd, cwd=DRIVER, env=go_env(), capture_output=True, text=True)
            if p.returncode:
                raise Broken("driver does not build:\n" + p.stderr[-4000:])
            self.bins[race] = out
        return self.bins[race]

    # ------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text=None, cfg=None, env=None, args=(), timeout=3000, workers=SHARDS, mem="6g",
            expect_error=None, count=True):
        """Runs TLC; returns its output lines. Any error is Broken, unless
        expect_error is a text that must be there (negative controls)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        if cfg_text is not None:
            cfg = os.path.join(meta, "M.cfg")
            with open(cfg, "w") as f:
                f.write(cfg_text)
        else:
            cfg = os.path.join(SPEC, cfg)
        cmd = ["java", "-Xss512m", "-Xmx" + mem, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s" % module)
        lines = p.stdout.splitlines()
        shutil.rmtree(meta, ignore_errors=True)
        err = [l for l in lines if l.startswith("Error") or "TLC threw" in l or "*** Errors" in l]
        if expect_error is not None:
            if not any(expect_error in l for l in lines):
                raise Broken("TLC was expected to report %r on %s:\n%s" % (expect_error, module, "\n".join(lines[-30:])))
            return lines
        if p.returncode != 0 or err:
            i = next((k for k, l in enumerate(lines) if l.startswith("Error") or "Errors" in l), max(0, len(lines) - 40))
            raise Broken("TLC failed on %s (exit %d):\n%s\n%s" % (module, p.returncode, "\n".join(l[:2000] for l in lines[i:i + 40]), p.stderr[-2000:]))
        gen = dist = 0
        for l in lines:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", l)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"The number of states generated: ([\d,]+)", l)
            if m:
                gen = dist = int(m.group(1).replace(",", ""))
        if count:
            self.generated += gen
            self.states += dist
            self.mc.append({"module": module, "states": dist, "transitions": gen, "s": round(time.time() - t, 1)})
        return lines

    # ------------------------------------------------------------- cases
    def run_cases(self, suite, cases, shards=SHARDS, race=False, env=None, timeout=30, max_restarts=3, stderr_to=None):
        """Executes the cases on the real code; returns the list of records.
        A process that dies or hangs is a record of the culprit."""
        exe = self.driver(race)
        shards = max(1, min(shards, len(cases)))
        parts = [cases[k::shards] for k in range(shards)]

        def one(k):
            part = parts[k]
            cf = os.path.join(self.work, "cases-%s-%d-%d.ndjson" % (suite, self.seq, k))
            of = cf.replace("cases-", "trace-")
            with open(cf, "w") as f:
                for c in part:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            if os.path.exists(of):
                os.remove(of)
            recs = []
            skip = 0
            restarts = 0
            while skip < len(part):
                if os.path.exists(of):
                    os.remove(of)
                e = dict(os.environ)
                e["GOMAXPROCS"] = "8" if race is True else "2"
                e["GOMEMLIMIT"] = "3GiB"
                e.update(env or {})
                try:
                    p = subprocess.run([exe, "-suite", suite, "-cases", cf, "-out", of, "-skip", str(skip), "-timeout", str(timeout)],
                                       env=e, capture_output=True, text=True, errors="replace", timeout=3000)
                except subprocess.TimeoutExpired:
                    raise Broken("driver did not end")
                got = []
                if os.path.exists(of):
                    with open(of) as f:
                        for l in f:
                            if l.endswith("\n"):
                                got.append(l)
                recs += got
                if stderr_to is not None and p.stderr:
                    stderr_to.append(p.stderr)
                for l in p.stderr.splitlines():
                    if l.startswith("SLOW "):
                        self.log("driver suite %s, shard %d: %s" % (suite, k, l))
                skip += len(got)
                if p.returncode == 0 and "DONE" in p.stderr:
                    if skip != len(part):
                        raise Broken("driver wrote %d records for %d cases" % (skip, len(part)))
                    break
                if p.returncode in (4,) or "panic: driver:" in p.stderr:
                    raise Broken("driver: " + p.stderr[-3000:])
                if skip >= len(part):
                    # all cases came back, and then the process died (race detector exit code)
                    break
                what = "hang" if p.returncode == 3 else "crash"
                c = part[skip]
                if what == "hang" or p.returncode == -9:
                    self.soft.add(c.get("id"))
                recs.append(json.dumps(dead_record(suite, c, what)) + "\n")
                self.log("driver %s at case %s: %s" % (what, c.get("id"), tail(p.stderr)))
                skip += 1
                restarts += 1
                if restarts > max_restarts:
                    self.log("too many dead cases, %d not executed" % (len(part) - skip))
                    break
            os.remove(cf)
            if os.path.exists(of):
                os.remove(of)
            return recs

        self.seq += 1
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        out = [r for part in res for r in part]
        self.records += len(out)
        return out

    # ------------------------------------------------------------- judge
    def judge(self, module, records, chunk=40_000_000, cfg="Trace.cfg", env=None, count=True, workers=SHARDS):
        """TLC judges the records; returns [(id, info, tags)]."""
        out = []
        groups, size, cur = [], 0, []
        for r in records:
            cur.append(r)
            size += len(r)
            if size > chunk:
                groups.append(cur)
                cur, size = [], 0
        if cur:
            groups.append(cur)
        for g in groups:
            tf = self.path("judge.ndjson")
            with open(tf, "w") as f:
                f.writelines(g)
            e = {"HJ_TRACE": tf}
            e.update(env or {})
            lines = self.tlc(module, cfg=cfg, env=e, mem="12g", count=count, workers=workers)
            os.remove(tf)
            seen = False
            for l in lines:
                if l.startswith('<<"RECORDS"'):
                    n = int(re.findall(r"\d+", l)[0])
                    seen = True
                    if n != len(g):
                        raise Broken("TLC read %d of %d records" % (n, len(g)))
                elif l.startswith('"MISMATCH '):
                    m = json.loads(json.loads(l)[len("MISMATCH "):])
                    out.append(m)
                elif l.startswith('"V '):
                    k = "judged " + l[3:-1]
                    self.notes[k] = self.notes.get(k, 0) + 1
            if not seen:
                raise Broken("TLC did not read the records of %s" % module)
        return out


def tail(s):
    s = s.strip().splitlines()
    for l in s:
        if l.startswith(("fatal error", "panic:", "HANG", "runtime:")):
            return l[:300]
    return s[-1][:300] if s else ""


DEAD = {}


def dead_record(suite, c, what):
    return DEAD[suite](c, what)


def cps(s):
    return [ord(x) for x in s]


def txt(c):
    """code points -> readable python string"""
    return "".join(chr(x) if x < 0x110000 else "\\x%02x" % (x - 0x110000) for x in c)


def gen_cases(ctx, module, cfg_text, timeout=600, workers=SHARDS):
    lines = ctx.tlc(module, cfg_text=cfg_text, timeout=timeout, workers=workers)
    seen, out = set(), []
    for l in lines:
        if l.startswith('"CASE '):
            s = json.loads(l)[5:]
            if s not in seen:
                seen.add(s)
                out.append(json.loads(s))
    if not out:
        raise Broken("%s generated no cases" % module)
    # the order of printing depends on the scheduling of TLC's workers
    out.sort(key=lambda x: json.dumps(x))
    return out


CONTROL = 1_000_000_000    # identities of falsified records (TLC has 32 bit integers)


def falsify(suite, recs, seed, most=30):
    """falsified copies of some of the records, that the judge has to refuse"""
    rnd = random.Random("control-%s-%d" % (suite, seed))
    out = []
    for k in rnd.sample(range(len(recs)), min(len(recs), 20 * most)):
        if len(recs[k]) > 200_000:
            continue
        r = CONTROLS[suite](json.loads(recs[k]), rnd)
        if r is not None:
            r["id"] = CONTROL + len(out)
            out.append(json.dumps(r) + "\n")
            if len(out) >= most:
                break
    return out


def judge_rounds(ctx, prop, suite, module, make, rounds, replay, describe, sample=None, race=False, env=None):
    """make(round) -> cases; executed and judged. Returns the mismatches that
    concern prop."""
    bad = []
    for rnd in range(rounds):
        cases = [replay] if replay else make(rnd)
        byid = {c["id"]: c for c in cases}
        ctx.log("round %d: %d cases" % (rnd, len(cases)))
        # a bug that needs luck gets several chances when a single case is replayed
        for chance in range(20 if replay else 1):
            recs = ctx.run_cases(suite, cases, race=race, env=env, timeout=90 if race else 30, max_restarts=1 if race else 3)
            false = falsify(suite, recs, ctx.seed) if rnd == 0 and not replay else []
            all_mm = ctx.judge(module, recs + false)
            mm = [m for m in all_mm if prop in m["tags"] and m["id"] < CONTROL]
            if mm:
                # judged again, alone and by one worker
                ids = {m["id"] for m in mm[:200]}
                again = {m["id"] for m in ctx.judge(module, [r for r in recs if json.loads(r)["id"] in ids], count=False, workers=1) if prop in m["tags"]}
                for m in mm[:200]:
                    if m["id"] not in again:
                        ctx.log("not refused when judged again:", json.dumps(m)[:500], json.dumps(byid[m["id"]])[:20000])
                        ctx.notes["not refused when judged again"] = ctx.notes.get("not refused when judged again", 0) + 1
                mm = [m for m in mm[:200] if m["id"] in again]
                if mm:
                    break
            refused = {m["id"] for m in all_mm if m["id"] >= CONTROL}
            if len(refused) < len(false):
                raise Broken("%d falsified records of suite %s were accepted, such as %s" % (
                    len(false) - len(refused), suite, next(f for f in false if json.loads(f)["id"] not in refused)[:3000]))
            ctx.notes["falsified records refused"] = ctx.notes.get("falsified records refused", 0) + len(false)
        ctx.log("executed and judged, %d mismatches" % len(mm))
        if rnd == 0:
            ctx.samples += [(sample or (lambda c: json.dumps(c, ensure_ascii=False)[:300]))(c) for c in cases[:6]]
        if mm:
            # What was recorded happened: a behaviour that the specification
            # forbids. Only a case that took too long may be the fault of the
            # environment, and has to be slow again.
            mm2, recs2 = [m for m in mm if m["id"] not in ctx.soft], recs
            if not mm2:
                recs2 = ctx.run_cases(suite, cases, race=race, env=env, timeout=120, max_restarts=0)
                mm2 = [m for m in ctx.judge(module, recs2, count=False) if prop in m["tags"]]
                if not mm2:
                    ctx.log("slow once, and not again: %s" % json.dumps(byid[mm[0]["id"]])[:2000])
                    ctx.notes["slow once, and not again"] = ctx.notes.get("slow once, and not again", 0) + 1
                    continue
            rec = {}
            for r in recs2:
                r = json.loads(r)
                rec[r["id"]] = r
            for m in mm2[:200]:
                bad.append({"case": byid[m["id"]], "want": m["want"], "tags": m["tags"], "got": rec[m["id"]],
                            "what": describe(byid[m["id"]], rec[m["id"]])})
            break
        if replay:
            break
    return bad
