"""Random query texts.  Nothing here knows what a query means: the meaning of every
generated text is computed by the specification (spec/Pda.tla!Meaning)."""
import ast
import glob
import os
import random
import re

from base import SPEC, SRC

_t = open(os.path.join(SPEC, "UcdTable.tla")).read()
UCD = sorted(int(c) for c in _t.split("Alphabet == {")[1].split("}")[0].split(","))
NONASCII = [c for c in UCD if c > 127]
WS = [9, 10, 11, 12, 13, 32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288]
NEAR_WS = [0, 8, 14, 28, 29, 30, 31, 127, 132, 134, 0x180E, 0x200B, 0x2060, 0xFEFF, 0x2027, 0x202A, 0x2FFF, 0x3001]
SCOPES = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]
FLAGS = "iIcCld"
OPS = ["=", "!="]
KNOWN = ["text", "lemma", "pos", "orth", "norm", "phonetic", "word"]
POS = ["ADJ", "ADV", "INTJ", "NOUN", "PROPN", "VERB", "ADP", "AUX", "CCONJ", "DET", "NUM", "PART", "PRON", "SCONJ", "PUNCT", "SYM", "X"]
META = ".^$*+?(){}[]|"
IDENT_RE = re.compile(r"[a-zA-Z]([a-zA-Z0-9-]*[a-zA-Z0-9])?\Z")


def mine():
    """Strings and small integers written in the hand-written sources: a fuzzing dictionary only."""
    ss, ns = set(), set()
    for f in ("parser.py", "validation.py", "__init__.py"):
        try:
            tree = ast.parse(open(os.path.join(SRC, "fcsql", f)).read())
        except Exception:
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and 0 < len(n.value) <= 40:
                    ss.add(n.value)
                    for w in re.findall(r"[A-Za-z0-9-]+", n.value):
                        ss.add(w)
                elif type(n.value) is int and 0 <= n.value < 2**63:
                    ns.add(n.value)
    return sorted(ss), sorted(ns)


WORDS, INTS = mine()
IDENT_WORDS = [w for w in WORDS if IDENT_RE.match(w)]
SHORT = [w for w in WORDS if len(w) <= 4]
LENGTHS = sorted({n + d for n in INTS if n <= 300 for d in (-1, 0, 1) if n + d > 0} | {1, 2, 3, 4, 5, 8})


class Gen:
    """profile keys (probabilities and choices) are overridden per property."""

    DEFAULT = dict(
        within=0.25, alts=[1, 1, 1, 2, 3], items=[1, 1, 2, 3], group=0.15, segment=0.5, wildcard=0.12, quant=0.25,
        ors=[1, 1, 1, 2, 3], ands=[1, 1, 1, 2, 3], nots=[0] * 9 + [1, 1, 2], egroup=0.2, qualifier=0.3, ne=0.4, flags=0.25,
        badflags=0.1, badrange=0.08, depth=3, lits=dict(plain=5, uni=2, esc=2, dict=1), chars="ucd", layout="plain", big=0.04, budget=9,
        badcp=0.0,
    )

    def __init__(self, rng, **over):
        self.r = rng
        self.p = dict(self.DEFAULT, **over)
        self.left = 0

    def chance(self, k):
        return self.r.random() < self.p[k]

    # ---- literals ----------------------------------------------------------
    def char(self):
        r = self.r
        k = r.random()
        if self.p["chars"] == "ascii":
            return r.choice([r.randint(32, 126), r.randint(97, 122), r.choice([9, 10, 13, 0, 11, 12, 127])] if k < 0.5 else [r.randint(97, 122)])
        if self.p["chars"] == "ucd":
            if k < 0.45:
                return r.randint(97, 122)
            if k < 0.6:
                return r.choice(UCD[:128])
            return r.choice(NONASCII)
        # any code point
        if k < 0.3:
            return r.randint(32, 126)
        if k < 0.4:
            return r.choice(WS + NEAR_WS)
        if k < 0.6:
            return r.randint(128, 0x2FF)
        if k < 0.75:
            return r.randint(0x300, 0xFFFF)
        if k < 0.9:
            return r.randint(0x10000, 0x10FFFF)
        return r.choice([0, 0x7F, 0x80, 0xFF, 0x100, 0x3FF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF])

    def hexesc(self):
        r = self.r
        if self.chance("badcp"):
            c = r.choice([0x110000, 0x110001, 0x120000, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.randint(0x110000, 0xFFFFFFFF)])
        elif r.random() < 0.25:
            c = r.choice([0, 9, 10, 13, 0x20, 0x22, 0x27, 0x2E, 0x5B, 0x5C, 0x5D, 0x6E, 0x7F, 0x30, 0x41])
        else:
            c = self.char()
        n = r.choice([k for k in (2, 4, 8) if c < 16**k])
        h = f"{c:0{n}x}"
        h = "".join(r.choice((x.lower(), x.upper())) for x in h)
        return "\\" + {2: "x", 4: "u", 8: "U"}[n] + h

    def esc(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return self.hexesc()
        if k < 0.55:
            return "\\\\"
        if k < 0.7:
            return "\\" + r.choice("\"'nt")
        return "\\" + r.choice(META)

    def body(self, q):
        r = self.r
        ks = self.p["lits"]
        kind = r.choices(list(ks), list(ks.values()))[0]
        if kind == "plain":
            s = "".join(r.choice("abcxyzABC019 ._-") for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
        elif kind == "dict":
            s = r.choice([r.choice(WORDS), r.choice(POS), r.choice(KNOWN), r.choice(WORDS) + r.choice(WORDS), r.choice(POS) + r.choice(["", "+", ".*", " ", "-", "1"]),
                          r.choice(POS).lower(), r.choice(POS).capitalize()])
        elif kind == "uni":
            s = "".join(chr(self.char()) for _ in range(r.choice([1, 2, 3, 4, 6, 9])))
        elif kind == "long":
            n = r.choice(LENGTHS + [10, 16, 17, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 500])
            c = chr(self.char())
            s = c * n if r.random() < 0.4 else "".join(chr(self.char()) for _ in range(n))
        else:
            s = None
        if s is not None:
            # characters that cannot stand for themselves are escaped (plus a few needless mixes)
            out = []
            for ch in s:
                if ch == "\\":
                    out.append(r.choice(["\\\\", "\\\\", "\\x5c", "\\u005C"]))
                elif ch == q:
                    out.append("\\" + ch)
                else:
                    out.append(ch)
            s = "".join(out)
            if kind == "long" and r.random() < 0.3:
                s += self.esc()
            return s
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 6, 8])):
            if r.random() < 0.65:
                out.append(self.esc())
            else:
                c = chr(self.char())
                out.append("\\" + c if c in (q, "\\") else c)
        return "".join(out)

    def lit(self):
        q = self.r.choice("\"'")
        return q + self.body(q) + q

    # ---- names -------------------------------------------------------------
    def name(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return r.choice(KNOWN)
        if k < 0.45:
            return r.choice(SCOPES + ["within"])
        if k < 0.55:
            return "".join(r.choice(FLAGS) for _ in range(r.choice([1, 1, 2, 3])))
        if k < 0.65 and IDENT_WORDS:
            return r.choice(IDENT_WORDS)
        if k < 0.7:
            return "x-" + r.choice(["a", "foo", "pos", "1", "X", "word"])
        if k < 0.76:
            w = r.choice(SCOPES + ["within", "pos", "word", "lemma"])
            return r.choice([w.capitalize(), w.upper(), w + "s", w + "1", "x" + w, w + "-x", w[:-1] or w, "a-" + w])
        if k < 0.77:
            n = r.choice(LENGTHS + [20, 40, 64, 65, 100])
            return "a" + "".join(r.choice("abz09-") for _ in range(n)) + "z"
        return r.choice("abcdefgxyzABZ") + "".join(r.choice("abcxyzABZ019-") for _ in range(r.choice([0, 0, 1, 2, 4]))) + r.choice(["", "a", "Z", "9"]) if k < 0.97 else "a--b"

    def ident(self):
        n = self.name()
        return n if IDENT_RE.match(n) else n.rstrip("-") or "a"

    def flagtext(self):
        r = self.r
        if self.chance("badflags"):
            return "".join(r.choice(FLAGS) for _ in range(r.choice([2, 2, 3, 4, 6])))
        base = r.choice(["ic", "IC", "l", "icd", "ICd", "d", "i", "I", "c", "C"])
        return "".join(r.choice(base) for _ in range(r.choice([1, 1, 2, 3, 5])))

    def flagtoks(self):
        return ["/", self.flagtext()] if self.chance("flags") else []

    def int_(self):
        r = self.r
        return r.choice(["0", "1", "1", "2", "3", "5", "9", "10", "11", "12", "20", "100", "007", "00", "01", "2147483647", "2147483648", "4294967296",
                         "99999999999999999999", str(r.choice(INTS or [1])), str(r.randint(0, 300)), str(r.randint(0, 10**r.randint(1, 25)))])

    def quant(self):
        r = self.r
        k = r.randrange(8)
        if k < 3:
            return ["+*?"[k]]
        a, b = self.int_(), self.int_()
        if int(a) > int(b) and not self.chance("badrange"):
            a, b = b, a
        return [["{", a, "}"], ["{", a, ",", "}"], ["{", ",", b, "}"], ["{", a, ",", b, "}"], ["{", a, ",", b, "}"]][k - 3]

    # ---- structure ---------------------------------------------------------
    def n(self, k):
        r = self.r
        v = r.choice(self.p[k])
        if v > 1 and self.chance("big") and self.left > 0:
            v = r.choice([v, 5, 6, 8, 9, 10, 12, 16, 17, r.choice(LENGTHS)])
            v = min(v, 40)
        return v

    def cond(self):
        t = []
        if self.chance("qualifier"):
            t += [self.ident(), ":"]
        t += [self.ident(), "!=" if self.chance("ne") else "=", self.lit()] + self.flagtoks()
        self.left -= 1
        return t

    def operand(self, d):
        t = ["!"] * (self.r.choice(self.p["nots"]) if self.left > 0 else 0)
        if d > 0 and self.left > 0 and self.chance("egroup"):
            return t + ["("] + self.expr(d - 1) + [")"]
        return t + self.cond()

    def expr(self, d):
        out = []
        for i in range(self.n("ors") if self.left > 0 else 1):
            if i:
                out.append("|")
            for j in range(self.n("ands") if self.left > 0 else 1):
                if j:
                    out.append("&")
                out += self.operand(d)
        return out

    def item(self, d):
        r = self.r
        if d > 0 and self.left > 0 and self.chance("group"):
            t = ["("] + self.main(d - 1) + [")"]
        elif self.chance("segment"):
            if self.chance("wildcard"):
                t = ["[", "]"]
                self.left -= 1
            else:
                t = ["["] + self.expr(self.p["depth"]) + ["]"]
        else:
            t = [self.lit()] + self.flagtoks()
            self.left -= 1
        if self.chance("quant"):
            t += self.quant()
        return t

    def main(self, d):
        out = []
        for i in range(self.n("alts") if self.left > 0 else 1):
            if i:
                out.append("|")
            for _ in range(self.n("items") if self.left > 0 else 1):
                out += self.item(d)
        return out

    def tokens(self):
        self.left = self.r.choice([1, 2, 3, 4, 5, self.p["budget"]])
        t = self.main(self.p["depth"])
        if self.chance("within"):
            t += ["within", self.r.choice(SCOPES)]
        return t

    # ---- layout ------------------------------------------------------------
    def gap(self, need):
        r = self.r
        if self.p["layout"] == "plain":
            return " " if need or r.random() < 0.5 else ""
        k = r.random()
        if k < 0.35:
            return " " if need else ""
        if k < 0.6:
            return " " * r.choice([1, 2, 3])
        if k < 0.8:
            return r.choice(["\n", "\r\n", "\t", "\r", " \n ", "\n\n", "  \t"])
        return "".join(chr(r.choice(WS)) for _ in range(r.choice([1, 1, 2, 3])))

    def join(self, toks):
        r = self.r
        out = []
        if r.random() < 0.2:
            out.append(self.gap(True))
        for i, t in enumerate(toks):
            if i:
                a, b = toks[i - 1][-1:], t[:1]
                need = bool(re.match(r"[A-Za-z0-9-]", a)) and bool(re.match(r"[A-Za-z0-9-]", b))
                out.append(self.gap(need))
            out.append(t)
        if r.random() < 0.2:
            out.append(self.gap(True))
        return "".join(out)

    def query(self):
        return self.join(self.tokens())

    # ---- wrong texts -------------------------------------------------------
    def anytoken(self):
        r = self.r
        return r.choice([r.choice("()[]|&!/{}+*?,=:"), "!=", "within", r.choice(SCOPES), self.flagtext(), self.ident(), self.int_(), self.lit()])

    def mutant(self):
        r = self.r
        t = self.tokens()
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(6)
            i = r.randrange(len(t)) if t else 0
            if k == 0 and t:
                del t[i]
            elif k == 1:
                t.insert(r.randint(0, len(t)), self.anytoken())
            elif k == 2 and t:
                t[i] = self.anytoken()
            elif k == 3 and len(t) > 1:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif k == 4 and t:
                t.insert(i, t[i])
            elif t:
                t = t[:i]
        return self.join(t)

    def charmutant(self):
        r = self.r
        s = self.query()
        for _ in range(r.choice([1, 1, 2])):
            i = r.randint(0, len(s))
            k = r.randrange(5)
            c = chr(r.choice([self.char(), r.choice(NEAR_WS), r.choice(WS), ord(r.choice("()[]|&!/{}+*?,=:\"'\\-_;#%<>~`@$^.1aZ"))]))
            if k == 0:
                s = s[:i] + c + s[i:]
            elif k == 1:
                s = s[:i] + s[i + 1:]
            elif k == 2:
                s = s[:i] + c + s[i + 1:]
            elif k == 3:
                s = s[:i]
            else:
                s = s[:i] + r.choice(["\\", "\\q", "\\x4", "\\u12", "\"", "'", "\\U0011", "\\x", "--", "within", "!"]) + s[i:]
        return s

    def soup(self):
        r = self.r
        return self.join([self.anytoken() for _ in range(r.choice([1, 2, 3, 4, 5, 6, 8, 12]))])


def rng(*parts):
    return random.Random("|".join(map(str, parts)))
