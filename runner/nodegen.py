"""Random content nodes (as the driver's build.go reads them)."""

import struct
from textgen import Gen

INT_RANGE = {"int8": (-128, 127), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1), "int": (-2**63, 2**63 - 1),
             "uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1), "uint": (0, 2**64 - 1)}
INTS = list(INT_RANGE)


NIL = [-1]   # the element of a list of errors that is nil


def cps(s):
    return [ord(c) for c in s]


class NodeGen(Gen):
    def int_node(self, k=None):
        r = self.r
        k = k or r.choice(INTS)
        lo, hi = INT_RANGE[k]
        m = r.random()
        if m < 0.3:
            v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1 if lo < 0 else 1])
        elif m < 0.65:
            l2, h2 = INT_RANGE[r.choice(INTS)]
            v = r.choice([l2, h2]) + r.randint(-2, 2)
        elif m < 0.85:
            v = r.randint(-3, 300)
        else:
            v = r.randint(lo, hi)
        v = max(lo, min(hi, v))
        return {"t": "int", "k": k, "lit": str(v)}

    def flt_node(self, k=None, special=False):
        r = self.r
        k = k or r.choice(["float32", "float64"])
        m = r.random()
        if special and m < 0.05:
            return {"t": "flt", "k": k, "lit": r.choice(["NaN", "Inf", "-Inf"])}
        if m < 0.25:
            lit = r.choice(["0", "-0", "-0", "1", "-1", "0.1", "0.5", "1.5", "-2.25", "3.14159", "100", "1e6", "1e7", "123456789", "16777216", "16777217", "0.000001", "0.0000001",
                            "1e20", "1e21", "1e22", "-0.3", "0.7", "255", "256", "2147483648", "9007199254740993", "1e15", "1e16", "1e17"])
        elif m < 0.45:
            lit = self.decimal()
        elif m < 0.65:
            lit = repr(struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0])
            if "n" in lit:
                lit = "1.7976931348623157e308" if k == "float64" else "3.4028235e38"
        elif m < 0.8:
            lit = repr(struct.unpack("<f", struct.pack("<I", r.getrandbits(32)))[0])
            if "n" in lit:
                lit = "1e-45"
        elif m < 0.9:
            lit = r.choice(["5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "3.4028235e38", "1.17549435e-38", "1e-45", "1e38"])
        else:
            lit = "%d.%d" % (r.randint(-1000, 1000), r.randint(0, 10**6))
        v = float(lit)
        if k == "float32" and abs(v) > 3.4028235e38:
            lit = "3.4028235e38"
        if v in (float("inf"), float("-inf")):
            lit = "1.7976931348623157e308"
        return {"t": "flt", "k": k, "lit": lit}

    def str_node(self, n=10):
        s = self.content(n)
        k = self.r.random()
        if k < 0.05:
            s = self.bland()
        elif k < 0.1:
            s = "".join(self.rune() for _ in range(self.r.choice([31, 64, 100, 255, 256, 600])))
        return {"t": "str", "s": cps(s)}

    def time_node(self):
        r = self.r
        y = r.choice([1, 99, 999, 1000, 1582, 1600, 1677, 1678, 1899, 1900, 1969, 1970, 1971, 1999, 2000, 2016, 2024, 2026, 2038, 2100, 2262, 2263, 9999])
        f = r.choice(["", ".5", ".123456", ".000001", ".999999", ".123456789", ".000000001", ".1", ".9999999", ".100000", ".010"])
        off = r.choice(["Z", "Z", "Z", "+00:00", "+01:00", "-05:30", "+14:00", "-12:00", "Z@%d" % r.choice([1, -1, 3605, -3661, 17, r.randint(-43200, 50400)])])
        return {"t": "time", "lit": "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (y, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), f, off)}

    def err_text(self):
        return self.r.choice(["e", "", "100%", "%s %d", "a \"q\"", "line\nline", "é", "nil", "<nil>", "\\", "tab\t", self.content()])

    def err_kind(self):
        return self.r.choice(["", "", "", "fmt", "wrap", "url", "exit", "plain", "pointer", "join", "join1"])

    def err_node(self):
        return {"t": "err", "s": cps(self.err_text()), "k": self.err_kind()}

    def some(self, few):
        """how many elements a list has"""
        return self.r.choice(few) if self.r.random() < 0.94 else self.r.choice([8, 9, 10, 16, 17, 33, 65, 130])

    def errs_node(self):
        r = self.r
        nil = r.choice([0, 0, 0, 0.2, 0.6])
        return {"t": "errs", "l": [NIL if r.random() < nil else cps(self.err_text()) for _ in range(self.some([0, 1, 2, 3]))], "k": self.r.choice(["", self.err_kind(), "mix"])}

    def strs_node(self):
        r = self.r
        return {"t": "strs", "l": [cps(r.choice(["", "a", self.content(6)])) for _ in range(self.some([0, 1, 2, 3, 5]))]}

    def scalar(self, kinds="nbsif"):
        k = self.r.choice(kinds)
        return {"n": lambda: {"t": "null"}, "b": lambda: {"t": "bool", "b": self.r.randint(0, 1)}, "s": self.str_node, "i": self.int_node,
                "f": self.flt_node, "x": lambda: self.flt_node(special=True), "t": self.time_node, "e": self.err_node, "E": self.errs_node, "S": self.strs_node,
                "F": lambda: {"t": "func"}, "o": lambda: {"t": "other"}}[k]()

    def sib_lits(self, kind, n):
        """nodes of one kind that agree nearly everywhere"""
        r = self.r
        if kind == "i":
            out = []
            for t in self.siblings("i", n):
                ks = [k for k in INTS if INT_RANGE[k][0] <= int(t) <= INT_RANGE[k][1]]
                out.append({"t": "int", "k": r.choice(ks), "lit": str(int(t))} if ks else self.int_node())
            return out
        if kind == "f":
            k = r.choice(["float64", "float64", "float32"])
            ls = self.siblings("d", n)
            if k == "float32" and any(abs(float(t)) > 3.4e38 for t in ls):
                k = "float64"
            return [{"t": "flt", "k": k, "lit": t} for t in ls]
        if kind == "t":
            base = self.time_node()["lit"]
            zone = base[19:].lstrip(".0123456789")
            digits = [p for p in range(len(base) - len(zone)) if base[p].isdigit()]
            out = [{"t": "time", "lit": base}]
            while len(out) < n:
                t = list(base)
                k = r.random()
                if k < 0.7:
                    p = r.choice(digits if r.random() < 0.5 else digits[12:])
                    t[p] = r.choice("0123456789" if p > 18 or p in (3, 12, 15, 18) or p < 3 else "01" if p in (6, 9, 11) else "0")
                t = "".join(t)
                if t[5:7] == "00" or t[8:10] == "00" or t[:4] == "0000" or int(t[11:13]) > 23 or int(t[5:7]) > 12:
                    continue
                if k > 0.6:
                    t = t[:len(t) - len(zone)] + r.choice(["Z", "+00:00", "+01:00", "-05:30", "Z@3605", "Z@3604"])
                out.append({"t": "time", "lit": t})
            return out
        raw = [[ord(c) for c in t] for t in self.siblings_raw(n)]
        return [{"t": "err", "s": s, "k": self.err_kind()} if kind == "e" else {"t": "str", "s": s} for s in raw]

    def siblings_raw(self, n):
        import json
        return [json.loads(t) for t in self.siblings("s", n)]

    def sib_node(self, kinds="ifsk"):
        r = self.r
        kind = r.choice(kinds)
        n = r.choice([2, 3, 5, 9])
        if kind == "k":
            ks = []
            for t in self.siblings_raw(n):
                if cps(t) not in ks:
                    ks.append(cps(t))
            vs = [{"t": "int", "k": "int", "lit": str(i)} for i in range(len(ks))]
            if r.random() < 0.3:
                return {"t": "arr", "vs": [{"t": "map", "ks": [k], "vs": [v]} for k, v in zip(ks, vs)]}
            return {"t": "map", "ks": ks, "vs": vs}
        vs = self.sib_lits(kind, n)
        if r.random() < 0.5:
            return {"t": "arr", "vs": vs}
        return {"t": "map", "ks": [cps("k%d" % i) for i in range(n)], "vs": vs}

    def node(self, depth, kinds="nbsif", width=4):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.5:
            return self.scalar(kinds)
        return self.map_node(depth, kinds, width) if k < 0.75 else self.arr_node(depth, kinds, width)

    def map_node(self, depth=3, kinds="nbsif", width=4):
        ks, vs = [], []
        for _ in range(self.r.randint(0, width)):
            k = cps(self.key())
            if k not in ks:
                ks.append(k)
                vs.append(self.node(depth - 1, kinds, width))
        return {"t": "map", "ks": ks, "vs": vs}

    def arr_node(self, depth=3, kinds="nbsif", width=4):
        return {"t": "arr", "vs": [self.node(depth - 1, kinds, width) for _ in range(self.r.randint(0, width))]}
