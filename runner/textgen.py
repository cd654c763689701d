"""Random texts for the parse suite. Nothing here decides what is right: the
specification judges every text."""

import random
import struct
from decimal import Decimal, getcontext
from fractions import Fraction

getcontext().prec = 900

WORDS = ["nil", "null", "NULL", "true", "false", "True", "None", "NaN", "undefined", "<nil>", "map[]", "[]", "{}", "{", "}", "[", "]",
         ":", ",", "\"", "\\", "\\\"", "/", "//", "0", "1", "-1", "1.5", "", " ", "  ", "\t", "\n", "a b", "a\"b", "k:v", "k,v",
         "\\n", "\\u0041", "é", "ß", "漢字", "😀", "\u2028", "\ufeff", "\u00a0", "\u3000", "%s", "%d", "%", "%!", "a=b", "'", "`", "\x7f",
         "\u0000", "\u0001", "\u001f", "\b", "\f", "\r", "key", "value", "json.Map", "0x10", "1e5", "null,", "}]", "{\"a\":1}", "[1,2]"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ------------------------------------------------------------ strings
    def rune(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return chr(r.randint(97, 122))
        if k < 0.50:
            return chr(r.randint(32, 126))
        if k < 0.62:
            return r.choice("\"\\/{}[],: ")
        if k < 0.70:
            return chr(r.randint(0, 31))
        if k < 0.80:
            return chr(r.randint(0x80, 0x7ff))
        if k < 0.90:
            c = r.randint(0x800, 0xffff)
            return chr(c) if not 0xd800 <= c <= 0xdfff else "\uffff"
        if k < 0.97:
            return chr(r.randint(0x10000, 0x10ffff))
        return r.choice("\u00a0\u2028\u2029\ufeff\ufffd\ufffe\U0010ffff\u0080\u07ff\u0800\uffff\U00010000")

    def content(self, maxlen=12):
        r = self.r
        k = r.random()
        if k < 0.25:
            return r.choice(WORDS)
        if k < 0.35:
            return r.choice(WORDS) + r.choice(WORDS)
        return "".join(self.rune() for _ in range(r.randint(0, maxlen)))

    def bland(self):
        """ordinary letters with one or two characters of another sort among them"""
        r = self.r
        n = r.choice([7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 520, 1030])
        t = [r.choice("abcdefgh xyz0189") for _ in range(n)]
        for _ in range(r.choice([1, 1, 2])):
            t[r.choice([0, n - 1, n // 2, r.randrange(n)])] = chr(r.choice(list(range(32)) + [34, 92, 47, 127, 128, 0x85, 0xa0, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x10ffff, 60, 62, 38, 39, 123, 93]))
        return "".join(t)

    def string(self, s, raw=0.0):
        """a JSON string literal for s, escapes chosen at random"""
        r = self.r
        out = ['"']
        mode = r.choice(["min", "mix", "all"]) if r.random() < 0.6 else "min"
        short = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 34: '"', 92: "\\", 47: "/"}
        for ch in s:
            c = ord(ch)
            must = c < 32 or ch in "\"\\"
            if c < 32 and r.random() < raw:
                out.append(ch)
                continue
            if must or mode == "all" or (mode == "mix" and r.random() < 0.4):
                if c in short and r.random() < 0.6:
                    out.append("\\" + short[c])
                elif c < 0x10000:
                    out.append(self.hex(c))
                else:
                    c -= 0x10000
                    out.append(self.hex(0xd800 + (c >> 10)) + self.hex(0xdc00 + (c & 0x3ff)))
            else:
                out.append(ch)
        out.append('"')
        return "".join(out)

    def hex(self, c):
        h = "%04x" % c
        k = self.r.random()
        if k < 0.4:
            h = h.upper()
        elif k < 0.6:
            h = "".join(self.r.choice([x.upper(), x]) for x in h)
        return "\\u" + h

    def key(self):
        r = self.r
        if r.random() < 0.5:
            return r.choice("abcdefgh")
        return self.content(8)

    # ------------------------------------------------------------ numbers
    def integer(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            b = r.choice([7, 8, 15, 16, 31, 32, 63, 64])
            n = (1 << b) + r.randint(-3, 3)
            if k < 0.08:
                n = (1 << r.randint(1, 66)) + r.randint(-2, 2)
        elif k < 0.5:
            n = 10 ** r.randint(0, 21) + r.randint(-2, 2)
        elif k < 0.65:
            n = r.randint(0, 400)
        else:
            n = r.randint(0, 10 ** r.randint(1, 22))
        n = abs(n)
        return ("-" if r.random() < 0.45 else "") + str(n)

    def decimal(self):
        r = self.r
        k = r.random()
        sg = "-" if r.random() < 0.3 else ""
        if k < 0.01:   # digits far behind the point, zeros before them
            z = r.choice([17, 40, 100, 300, 340])
            s = "0." + "0" * z + str(r.randint(1, 10**r.randint(1, 18))) + "0" * r.choice([0, 0, 30, 400])
            return sg + s + (r.choice(["", "", "e%d" % z, "E+%d" % (z - 3), "e-%d" % r.randint(0, 9)]) if z < 300 else r.choice(["", "e%d" % z]))
        if k < 0.15:
            return sg + "%d.%s" % (r.choice([0, 0, 1, 9, 12, 255, 1000, 123456]), "".join(r.choice("0123456789") for _ in range(r.randint(1, 7))))
        if k < 0.30:   # significant digits
            n = r.randint(1, 25)
            d = "".join(r.choice("0123456789") for _ in range(n))
            p = r.randint(0, n)
            ip = d[:p].lstrip("0") or "0"
            return sg + ip + "." + (d[p:] or "0")
        if k < 0.45:   # any double, shortest form
            while True:
                v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(63)))[0]
                if v == v and v != float("inf"):
                    break
            return sg + self.exp(repr(v))
        if k < 0.55:   # ordinary double
            v = r.choice([r.random(), r.uniform(0, 1000), r.uniform(0, 1e9), r.gauss(0, 1), r.random() * 10 ** r.randint(-20, 20)])
            return sg + self.exp(repr(abs(v)))
        if k < 0.65:   # a float32, shortest form, and its exact form
            v = struct.unpack("<f", struct.pack("<I", r.getrandbits(31)))[0]
            if v != v or v == float("inf"):
                v = 0.1
            if r.random() < 0.5:
                return sg + self.exp(repr(v))
            return sg + self.exp("%.*g" % (r.randint(5, 10), v))
        if k < 0.75:   # half way between two doubles, and next to it
            v = r.choice([r.random(), r.uniform(1, 1e6), float(1 << 53) + 2, 1e22, 1e23, 5e-324, 2.2250738585072014e-308])
            b = struct.unpack("<Q", struct.pack("<d", v))[0]
            w = struct.unpack("<d", struct.pack("<Q", b + 1))[0]
            m = (Fraction(v) + Fraction(w)) / 2
            s = str(Decimal(m.numerator) / Decimal(m.denominator))
            if len(s) > 200:
                s = "%.17g" % v
            elif "E" not in s and r.random() < 0.7:
                s += r.choice(["1", "0001", "", "0" * r.choice([20, 100, 330, 800]) + r.choice("1119")]) if "." in s else ".0"
            return sg + self.exp(s)
        if k < 0.85:   # exponents
            m = r.choice(["1", "9", "12", "1.5", "9.99", "0.1", "0", "0.0", "1.7976931348623157", "1.7976931348623159", "4.9", "2.2250738585072014", "3.4028234", "3.4028236", "1.17549435", "123456", "999999.5"])
            e = r.choice([r.randint(-30, 30), r.randint(-400, 400), r.choice([38, -38, 37, -37, 39, -45, -46, 307, 308, 309, 310, -307, -308, -323, -324, -325, 0, 1, -1])])
            return sg + m + r.choice("eE") + r.choice(["", "+"] if e >= 0 else [""]) + ("" if e >= 0 else "-") + r.choice(["", "", "0", "00"]) + str(abs(e))
        if k < 0.93:
            return sg + r.choice(["0.0", "0.1", "0.5", "1.0", "100.0", "0.000001", "0.0000001", "1.10", "16777217.0", "16777216.0", "0.123456", "0.1234567", "0.12345678", "3.14159", "99999.9", "999999.9", "1e21", "1e-7", "123456789.0", "12345678.9", "0.30000000000000004", "9007199254740993.0"])
        return sg + "%d.%d" % (r.randint(0, 10 ** r.randint(1, 20)), r.randint(0, 10 ** r.randint(1, 20)))

    def exp(self, s):
        """the same number with the exponent written otherwise"""
        s = s.replace("E", "e")
        if "e" not in s:
            return s
        m, e = s.split("e")
        return m + self.r.choice("eE") + (e if e[0] in "+-" and self.r.random() < 0.7 else e.lstrip("+"))

    # ------------------------------------------------------------ siblings
    def near(self, s, alpha, keep=lambda p: False):
        """another text of the same length, one character or two away"""
        r = self.r
        ps = [p for p in range(len(s)) if not keep(p)]
        if not ps:
            return s
        t = list(s)
        k = r.random()
        if k < 0.6 or len(ps) < 2:
            p = r.choice(ps)
            t[p] = r.choice(alpha)
        elif k < 0.9:      # the same characters in another order
            p, q = r.sample(ps, 2)
            t[p], t[q] = t[q], t[p]
        else:
            for p in r.sample(ps, 2):
                t[p] = r.choice(alpha)
        return "".join(t)

    def siblings(self, kind, n):
        """texts of the same length that agree nearly everywhere: what is kept
        about one of them shows when another is read"""
        r = self.r
        m = r.choice([4, 8, 11, 13, 16, 17, 18, 19, 20, 24, 33, 40, 64, 65, 130, 300]) if kind in "sk" else r.choice([3, 8, 12, 16, 18, 19, 20]) if kind == "i" else r.choice([4, 8, 16, 18, 20, 24, 40])
        if kind in "sk":
            al = r.choice(["ab", "abcdefghijklmnopqrstuvwxyz", "0123456789-", "aZ09_ /\\\"", "a\u00e9\u6f22\n"])
            base, keep = "".join(r.choice(al) for _ in range(m)), lambda t: None
        else:
            al = "0123456789"
            base = r.choice("123456789") + "".join(r.choice(r.choice(["0123456789", "0123456789", "09", "0"])) for _ in range(m - 1))
            if kind == "d":
                p = r.randint(1, m - 1)
                base = base[:p] + "." + base[p:] + r.choice(["", "", "e5", "E-7", "e+12", "e-300", "e207"])
            base = r.choice(["", "", "-"]) + base
            keep = lambda t: lambda p: not t[p].isdigit() or p < 2 and t[0] == "-" or p == 0
        out = [base]
        while len(out) < n:
            t = r.choice(out) if r.random() < 0.3 else base
            t = self.near(t, al, keep(t) or (lambda p: False))
            if r.random() < 0.1 and kind in "id":     # the other sign
                t = t[1:] if t[0] == "-" else "-" + t
            out.append(t)
        if kind in "sk" and r.random() < 0.5:
            out = [self.string(t) for t in out]
        elif kind in "sk":
            short = {"\n": "\\n", '"': '\\"', "\\": "\\\\"}
            out = ['"%s"' % "".join(short.get(c, c) for c in t) for t in out]
        return out

    def sib_doc(self, kinds):
        r = self.r
        kind = r.choice(kinds)
        n = r.choice([2, 3, 5, 9])
        ls = self.siblings(kind, n)
        if kind == "k":
            if r.random() < 0.5:
                return "{" + ",".join("%s:%s" % (l, r.choice(["%d" % i, "{}", "[]", '"v%d"' % i, "%d.5" % i])) for i, l in enumerate(ls)) + "}"
            return '{"a":[' + ",".join("{%s:%d}" % (l, i) for i, l in enumerate(ls)) + "]}"
        if r.random() < 0.5:
            return "{" + ",".join('"k%d":%s' % (i, l) for i, l in enumerate(ls)) + "}"
        return '{"a":[' + ",".join(ls) + "]}"

    # ------------------------------------------------------------ documents
    def atom(self, kinds="idsw"):
        k = self.r.choice(kinds)
        if k == "i":
            return self.integer() if self.r.random() < 0.3 else str(self.r.randint(-200, 300))
        if k == "d":
            return self.decimal() if self.r.random() < 0.3 else self.r.choice(["0.5", "1.25", "-3.75", "1e3", "0.1"])
        if k == "s":
            return self.string(self.content())
        return self.r.choice(["true", "false", "null"])

    def ws(self, p):
        if self.r.random() < p:
            return "".join(self.r.choice(" \t\n\r") for _ in range(self.r.choice([1, 1, 1, 2, 3, 9])))
        return ""

    def value(self, depth, kinds, p, width):
        r = self.r
        if depth <= 0 or r.random() < 0.45:
            return self.atom(kinds)
        if r.random() < 0.5:
            return self.arr(depth, kinds, p, width)
        return self.obj(depth, kinds, p, width)

    def arr(self, depth, kinds, p, width):
        n = self.r.randint(0, width)
        its = [self.ws(p) + self.value(depth - 1, kinds, p, width) + self.ws(p) for _ in range(n)]
        return "[" + (",".join(its) if its else self.ws(p)) + "]"

    def obj(self, depth, kinds="idsw", p=0.0, width=4, keyf=None):
        n = self.r.randint(0, width)
        its = []
        for _ in range(n):
            k = keyf() if keyf else self.key()
            its.append(self.ws(p) + self.string(k) + self.ws(p) + ":" + self.ws(p) + self.value(depth - 1, kinds, p, width) + self.ws(p))
        return "{" + (",".join(its) if its else self.ws(p)) + "}"

    def tree(self):
        r = self.r
        k = r.random()
        if k < 0.72:
            return self.obj(r.randint(1, 4), width=r.choice([2, 3, 4]))
        if k < 0.80:
            return self.obj(1, width=r.choice([10, 20, 40]), keyf=lambda: "k%d" % r.randint(0, 60))
        if k < 0.86:
            n = r.choice([8, 16, 17, 33, 64, 65, 100, 129, 257])
            return '{"a":[' + ",".join(self.atom("iw") if r.random() < 0.9 else "[]" for _ in range(n)) + ']}'
        if k < 0.93:
            n = r.choice([5, 9, 16, 17, 33, 64, 100])
            o, c = "", ""
            for _ in range(n):
                if r.random() < 0.5:
                    pre = r.choice(["", "1,", "\"x\",", "{},", "[],"])
                    o += "[" + pre
                    c = r.choice(["", ",2", ",null", ",{}", ",[3]"]) + "]" + c
                else:
                    o += '{"%s":' % r.choice("ab")
                    c = r.choice(["", ',"z":1', ',"y":[]', ',"x":{}']) + "}" + c
            return '{"d":' + o + self.atom("iw") + c + "}"
        # repeated keys
        ks = [r.choice(["a", "b", "a\"", "é"]) for _ in range(r.randint(2, 7))]
        return "{" + ",".join(self.string(x) + ":" + self.value(2, "idsw", 0, 3) for x in ks) + "}"

    def spaced(self):
        return self.obj(self.r.randint(1, 3), p=self.r.choice([0.2, 0.5, 1.0]), width=3)

    def mutate(self, s):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            if not s:
                return s
            k = r.random()
            p = r.randrange(len(s))
            st = [i for i, c in enumerate(s) if c in "{}[],:\""]
            if st and r.random() < 0.7:
                p = r.choice(st)
            alpha = "{}[],:\"{}[],:\" 1-.eE+0tfn\\xu\n" + "nulltruefalse/'#"
            if k < 0.30:
                s = s[:p] + s[p + 1:]
            elif k < 0.60:
                s = s[:p] + r.choice(alpha) + s[p:]
            elif k < 0.80:
                s = s[:p] + r.choice(alpha) + s[p + 1:]
            elif k < 0.86:
                s = s[:p] + s[p] + s[p:]
            elif k < 0.91:
                s = s[:p]
            elif k < 0.95 and len(s) > 2:
                q = r.randrange(len(s))
                a, b = min(p, q), max(p, q)
                s = s[:a] + s[b] + s[a + 1:b] + s[a] + s[b + 1:] if a < b else s
            elif k < 0.98:
                q = min(len(s), p + r.randint(1, 6))
                s = s[:p] + s[q:]
            else:
                s = s + r.choice(["}", "]", ",", "{}", "x", "\"", " ", "null", ":"])
        return s

    def garbage(self):
        r = self.r
        n = r.randint(0, 14)
        al = r.choice(["{}[],:\"1 ", "{}[],:\"1 tfn.-e\\u", "{\"a\":1,}[]", "\x00\x7f{}\"é"])
        s = "".join(r.choice(al) for _ in range(n))
        return r.choice(["", "{", "{\"a\":", "{\"a\":["]) + s + r.choice(["", "}", "]}"])

    def int_doc(self):
        r = self.r
        n = r.choice([1, 1, 2, 4])
        k = r.random()
        ls = [self.integer() for _ in range(n)]
        if k < 0.4:
            return "{" + ",".join('"k%d":%s' % (i, l) for i, l in enumerate(ls)) + "}"
        if k < 0.8:
            return '{"a":[' + ",".join(ls) + "]}"
        return '{"a":{"b":[[' + (", ").join(ls) + "]]}}"

    def dec_doc(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        k = r.random()
        ls = [self.decimal() for _ in range(n)]
        if k < 0.4:
            return "{" + ",".join('"k%d":%s' % (i, l) for i, l in enumerate(ls)) + "}"
        return '{"a":[' + ",".join(ls) + "]}"

    def str_doc(self):
        r = self.r
        k = r.random()
        if k < 0.05:
            s = self.bland()
            return "{" + self.string("k") + ":" + self.string(s) + "}" if r.random() < 0.6 else "{" + self.string(s) + ":1}"
        if k < 0.1:
            s = "".join(self.rune() for _ in range(r.choice([60, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1025])))
            return "{" + self.string("k") + ":" + self.string(s) + "}" if r.random() < 0.5 else "{" + self.string(s) + ":1}"
        if k < 0.4:
            return "{" + self.string(self.content()) + ":" + self.string(self.content(), raw=0.05) + "}"
        if k < 0.7:
            return '{"a":[' + ",".join(self.string(self.content()) for _ in range(r.randint(1, 5))) + "]}"
        its = [self.string(self.content(5)) + ":" + self.string(self.content()) for _ in range(r.randint(1, 4))]
        return '{"o":{' + ",".join(its) + "}}"


def int_lits(lits):
    return lits
