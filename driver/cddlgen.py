"""Random CDDL sources, well-formed and damaged. Only inputs: what is right about them is for the
specification to say."""
NAMES = ["a", "b", "c", "k", "person", "x-y", "$s", "$$t", "v.w", "@n", "_q", "undef"]
TYPES = ["int", "uint", "nint", "float", "float16", "float32", "float64", "tstr", "text", "bytes", "bstr", "bool",
         "null", "nil", "true", "false"]
INTS = ["0", "1", "7", "42", "0x1f", "0b101", "0o17", "010", "9223372036854775807", "9223372036854775808",
        "18446744073709551615", "18446744073709551616"]
FLOATS = ["1.5", "0.25", "6.24", "123.0", "1.2.3", "6.18446744073709551616"]
TEXTS = ['"t"', '""', '"a;b"', '"é\\\\ x"', '"[a-z]+"']
OPS = ["=", "/=", "//=", "=>", ":", ",", "/", "//", "?", "*", "+", "~", "&", "#", "..", "...", "(", ")", "[", "]", "{", "}",
       ".size", ".bits", ".regexp", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".cbor", ".default", ".foo", "-", "any", "!",
       '"open\n', ".", "<"]


class Gen:
    def __init__(self, r):
        self.r = r

    def pick(self, xs):
        return self.r.choice(xs)

    def number(self):
        return self.pick(INTS if self.r.random() < .15 else INTS[:7])

    def floating(self):
        return self.pick(FLOATS if self.r.random() < .15 else FLOATS[:4])

    def typ(self, d):
        r = self.r
        k = r.randrange(16) if d > 0 else r.randrange(5)
        if k == 0:
            return [self.pick(NAMES)]
        if k in (1, 2):
            return [self.pick(TYPES)]
        if k == 3:
            return [self.number()]
        if k == 4:
            return [self.pick([self.pick(TEXTS), self.floating()])]
        if k in (5, 6, 7):
            o, c = self.pick(["()", "[]", "{}"])
            return [o] + self.members(d - 1) + [c]
        if k == 8:
            return self.typ1(d - 1) + ["/"] + self.typ(d - 1)
        if k == 9:
            return self.typ1(d - 1) + ["//"] + self.typ(d - 1)
        if k == 10:
            return [self.pick(["&", "~"])] + self.pick([[self.pick(NAMES)], ["("] + self.members(d - 1) + [")"]])
        if k == 11:
            return ["#"] + self.pick([[], [self.pick(["6", "1", "7"])], [self.floating()]]) + \
                self.pick([[], ["("] + self.typ(d - 1) + [")"]])
        if k == 12:
            a, b = self.pick([(self.number, self.number), (self.floating, self.floating), (self.number, self.floating)])
            end = lambda f: f() if r.random() < .6 else self.pick(NAMES)
            return [end(a), self.pick(["..", "..."]), end(b)]
        if k == 13:
            return [self.pick(["tstr", "bytes", "uint", "text", "int"]), ".size",
                    self.pick([self.number(), self.pick(NAMES)])]
        if k == 14:
            return [self.pick(["int", "uint", "float32", "nint", "tstr"]), self.pick([".lt", ".le", ".gt", ".ge", ".eq", ".ne"]),
                    self.pick([self.number(), self.floating(), self.pick(NAMES)])]
        return self.pick([["tstr", ".regexp", self.pick(TEXTS)], ["uint", ".bits", self.pick(NAMES)],
                          ["bytes", ".bits", self.pick(NAMES)]])

    def typ1(self, d):
        return self.typ(min(d, 0)) if self.r.random() < .5 else self.typ(d)

    def members(self, d):
        r = self.r
        out = []
        for i in range(r.randrange(0, 5)):
            if i and (r.random() < .7):
                out.append(",")
            m = self.typ(d)
            if r.random() < .6:
                m = [self.pick(NAMES + ["1", "2"]), self.pick([":", ":", "=>"])] + m
            k = r.randrange(8)
            if k == 0:
                m = ["?"] + m
            elif k == 1:
                m = [self.pick(["*", "+"])] + m
            elif k == 2:
                m = ["2", "*", "5"] + m
            elif k == 3:
                m = ["3", "*"] + m
            out += m
        if out and r.random() < .2:
            out.append(",")
        return out

    def tokens(self):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 7)):
            out += [self.pick(NAMES), self.pick(["=", "=", "=", "/=", "//="])] + self.typ(r.randrange(0, 4))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            i = r.randrange(len(out) + 1)
            k = r.randrange(4)
            if k == 0 and i < len(out):
                del out[i]
            elif k == 1:
                out.insert(i, self.pick(OPS + NAMES + TYPES))
            elif k == 2 and i < len(out):
                out[i] = self.pick(OPS + INTS + FLOATS)
            elif len(out) > 2:
                j = r.randrange(len(out))
                i = min(i, len(out) - 1)
                out[i], out[j] = out[j], out[i]
        return out

    def text(self):
        r = self.r
        comments = r.random() < .5
        style = r.randrange(3)
        out = ""
        for t in self.tokens():
            out += t
            if comments and r.random() < .12:
                out += self.pick([" ;", "\n;", " ; c ;", ";x", ";;", " ;;; "]) + self.pick(["", " remark", "\té \" end"]) + "\n"
                if r.random() < .3:
                    out += "; next\n"
            else:
                out += " " if style == 0 else self.pick([" ", "\n", "\t", "\r\n", "  "]) if style == 1 else self.pick([" ", " ", "\n"])
        return out if r.random() < .8 else out.rstrip()


CHARS = list("abcdefgXYZ0159 \t;:()[]{}<>=/*+?~&#.,'^|$@_!%-\\\r\x00\x7f") + ["é", "☃", "\U0001f600", "\u0085", "\u2028", "\ufeff"]
CLOSE = {"(": ")", "[": "]", "{": "}"}
BRACKETS = "()[]{}"


class Good(Gen):
    """Sources meant to be well-formed, of any length, and the same with one thing wrong."""

    def __init__(self, r, faulty=False):
        self.r, self.faulty = r, faulty
        self.size = r.choice([1, 1, 2, 3, 3, 5, 8, 12] if not faulty else [2, 3, 4, 5, 6])
        self.all = [self.word() for _ in range(r.choice([1, 2, 3, 4, 6, 12, 40] if not faulty else [1, 2, 2, 3]))]
        self.all = list(dict.fromkeys(self.all))
        self.nums = {}

    def word(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 4, 5, 8, 12]) if r.random() < .97 else r.randrange(20, 300)
        first = r.choice("abcxyzABZ_@") if r.random() < .9 else r.choice(["$", "$$"])
        return first + "".join(r.choice("abcdefnrtuxyzABC0189-_.@$") for _ in range(n)) if r.random() < .8 else first + str(r.randrange(30))

    def text(self):
        r = self.r
        k = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 8]) if r.random() < .98 else r.randrange(30, 400)
        return '"' + "".join(r.choice(CHARS) for _ in range(k)) + '"'

    def number(self):
        r = self.r
        k = r.randrange(8)
        n = r.getrandbits(r.choice([1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 53, 54, 62, 63]))
        return [str(n), str(n), str(n), str(r.randrange(10)), hex(n) if r.random() < .5 else "0x" + hex(n)[2:].upper(), oct(n), bin(n), "0" + oct(n)[2:]][k]

    def floating(self):
        r = self.r
        a = str(r.getrandbits(r.choice([1, 4, 10, 30, 60])))
        return a + "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 3, 5, 8, 16, 17, 22])))

    def use(self):
        r = self.r
        return r.choice(self.all) if r.random() < .97 else r.choice(["$any", "$$more", "undef"])

    def typ(self, d):
        r, k = self.r, self.r.randrange(20)
        if d <= 0 or k < 6:
            k = r.randrange(6)
            return [[self.use()], [self.pick(TYPES)], [self.pick(TYPES)], [self.number()], [self.floating()], [self.text()]][k]
        if k < 12:
            o = self.pick("([{")
            return [o] + self.members(d - 1) + [CLOSE[o]]
        if k == 12:
            return self.typ1() + ["/"] + (self.typ1() if r.random() < .7 else self.typ1() + ["/"] + self.typ1())
        if k == 13:
            return self.typ1() + ["//"] + self.typ1()
        if k == 14:
            return [self.pick("&~")] + self.pick([[self.use()], ["("] + self.members(d - 1) + [")"]])
        if k == 15:
            return ["#"] + self.pick([[], [str(r.randrange(8))], [str(r.randrange(8)) + "." + str(r.getrandbits(r.choice([3, 8, 16, 17, 32, 63])))]]) + self.pick([[], ["("] + self.typ(d - 1) + [")"]])
        if k == 16:
            f = self.pick([self.number, self.floating])
            return [f(), self.pick(["..", "..."]), f()]
        if k == 17:
            return [self.pick(["tstr", "bytes", "uint", "bstr"]), ".size", self.number()]
        if k == 18:
            return [self.pick(["int", "uint", "float32", "nint", "float", "float64"]), self.pick([".lt", ".le", ".gt", ".ge", ".eq", ".ne"]), self.pick([self.number(), self.floating(), self.use()])]
        return self.pick([["tstr", ".regexp", self.text()], ["uint", ".bits", self.use()]])

    def typ1(self, d=0):
        return self.typ(0) if self.r.random() < .8 else ["("] + self.members(0) + [")"]

    def members(self, d):
        r = self.r
        out = []
        commas = r.random() < .8
        for i in range(r.randrange(0, self.size + 1)):
            if i and (commas or r.random() < .5):
                out.append(",")
            m = self.typ(d)
            if r.random() < .7:
                m = [self.word() if r.random() < .8 else str(r.getrandbits(r.choice([2, 7, 31]))), self.pick([":", ":", ":", "=>"])] + m
                if m[1] == "=>" and not m[0][0].isdigit():
                    m[0] = self.use()
            k = r.randrange(12)
            n = r.getrandbits(r.choice([1, 3, 8, 16, 40, 63]))
            out += [["?"], ["*"], ["+"], [str(n), "*"], [str(n), "*", str(n + r.choice([0, 1, 5]))], ["*", str(n)]][k] + m if k < 6 and (k != 3 or not m[0][0].isdigit()) and \
                (k != 1 or not m[0][0].isdigit()) else m
        if out and r.random() < .3:
            out.append(",")
        return out

    def tokens(self):
        r = self.r
        out = []
        for n in self.all:
            out += [n, self.pick(["=", "=", "=", "=", "/=", "//="])] + self.typ(r.randrange(0, 4) if not self.faulty else r.randrange(1, 3))
        if self.faulty:
            for _ in range(r.choice([1, 1, 1, 2])):
                self.damage(out)
        elif r.random() < .4:
            for _ in range(r.choice([1, 1, 1, 1, 2, 2, 5, 20])):
                self.damage(out)
        return out

    def damage(self, out):
        r = self.r
        k = r.randrange(9)
        i = r.randrange(len(out))
        brackets = [j for j, t in enumerate(out) if t in BRACKETS]
        if k < 3 and brackets:
            i = self.pick(brackets)
            if k == 2:
                del out[i]
            else:
                out[i] = self.pick([b for b in BRACKETS if b != out[i]])
        elif k == 3:
            del out[i]
        elif k == 4:
            out.insert(i, self.pick(OPS + TYPES + self.all[:3] + list(BRACKETS)))
        elif k == 5:
            out[i] = self.pick(OPS + TYPES + INTS)
        elif k == 6:
            j = min(i + 1, len(out) - 1)
            out[i], out[j] = out[j], out[i]
        elif k == 7:
            out.insert(i, out[i])
        else:
            del out[i:i + r.randrange(1, 5)]
        if not out:
            out.append("=")

    def source(self):
        r = self.r
        quiet = r.random() < .5
        style = r.randrange(4)
        out = []
        toks = self.tokens()
        for i, t in enumerate(toks):
            out.append(t)
            if not quiet and r.random() < .1:
                body = "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 5, 9]))) if r.random() < .95 else "x" * r.randrange(50, 500)
                out.append(self.pick([";", " ;", "\t;", "\n;", "\n  ;", " " * r.randrange(60) + ";", ";" * 3]) + body + "\n")
                if r.random() < .3:
                    out.append(self.pick(["; next\n", "\n; next\n", " ;\n;\n"]))
            elif style == 3 and i + 1 < len(toks) and (t in BRACKETS or toks[i + 1] in BRACKETS or t == "," or toks[i + 1] in (",", ":", "?")):
                pass  # nothing between them
            elif r.random() < .02:
                out.append(self.pick(["\n" * r.randrange(1, 40), " " * r.randrange(1, 90), "\r\n\r\n", "\t" * 9, "\r"]))
            else:
                out.append(" " if style in (0, 3) else self.pick([" ", "\n", "\t", "\r\n", "  "]) if style == 1 else self.pick([" ", " ", "\n"]))
        text = "".join(out)
        return text if r.random() < .7 else text.rstrip()


def good(r, n):
    return [Good(r).source().encode() for _ in range(n)]


def faulty(r, n):
    """Small sources with one or two things wrong."""
    return [Good(r, True).source().encode() for _ in range(n)]


def sources(r, n):
    g = Gen(r)
    return [g.text().encode() if k % 2 else Good(r).source().encode() for k in range(n)]
