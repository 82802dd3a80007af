"""C01-C10, C13, C22: what each property explores."""
import itertools

import gen
from base import thorough
from gen import Gen
from parsefam import ALLC, check_random, corpus, plain, replay_suite, req, scale

RAW = ["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":", "within", "s", "i", "a", "1", '"x"']
LOCNOLOC = ({"loc": True}, {"loc": False})


def deep(rng, g):
    """long and deeply nested, but cheap to parse"""
    r = rng
    n = r.choice(gen.LENGTHS + [10, 15, 16, 17, 20, 24, 31, 32, 33, 40])
    n = min(n, 60)
    k = r.randrange(12)
    lab = lambda j: f'"w{j}"'
    if k == 0:
        return " ".join(lab(j) for j in range(n))
    if k == 1:
        return " | ".join(lab(j) for j in range(n))
    if k == 2:
        return "[" + " & ".join(f"a{j}={lab(j)}" for j in range(n)) + "]"
    if k == 3:
        return "[" + " | ".join(f"a{j}={lab(j)}" for j in range(n)) + "]"
    if k == 4:
        d = min(n, 40)
        return "(" * d + '"x"' + "".join(")" + r.choice(["", "+", "{2}", "?", "{1,3}"]) for _ in range(d))
    if k == 5:
        d = min(n, 25)
        return "[" + "(" * d + 'a="x"' + "".join(r.choice([")", f') & b{j}="y{j}"'.replace(") &", ") &")]) if j < 6 else ")" for j in range(d)) + "]"
    if k == 6:
        d = min(n, 8)
        return "[" + "!" * d + 'a="x"' + "]"
    if k == 7:
        d = min(n, 25)
        return "".join(f'("a{j}" ' for j in range(d)) + '"x"' + "".join(r.choice([f' | "b{j}")', ")", f' "c{j}")']) for j in range(d))
    if k == 8:
        d = min(n, 15)
        return "[" + "".join(f'(a{j}="x" {r.choice("&|")} ' for j in range(d)) + 'z="z"' + ")" * d + "]"
    if k == 9:
        return " ".join(f'[a{j}="w{j}"]{r.choice(["", "{%d}" % j, "+", "{,%d}" % (j + 1)])}' for j in range(n))
    if k == 10:
        return " | ".join(f'("u{j}" "v{j}")' if j % 3 else f'"u{j}" "v{j}"' for j in range(min(n, 40)))
    d = min(n, 6)
    return "[" + " & ".join(f'{"!" * (j % 3)}a{j}="x{j}"' for j in range(d)) + "]"


def confs(r, di=("text",), op=("Eq",), nf=("NFC",), loc=(True, False)):
    return dict(di=r.choice(di), op=r.choice(op), nf=r.choice(nf), loc=r.choice(loc))


def mk(profile, deep_p=0.05, mutants=0.0, **cf):
    def make(rng):
        p = profile(rng) if callable(profile) else profile
        g = Gen(rng, **p)
        k = rng.random()
        if k < deep_p:
            x = deep(rng, g)
            if rng.random() < 0.2:
                x += " within " + rng.choice(gen.SCOPES)
        elif k < deep_p + mutants:
            x = rng.choice([g.mutant, g.mutant, g.charmutant, g.charmutant, g.soup])()
        else:
            x = g.query()
        return req(x, **confs(rng, **cf))
    return make


def layouts(rng):
    return dict(layout=rng.choice(["plain", "wild"]))


def longs(ctx, prop, *kinds, **cf):
    """few, but long: limits at round numbers of items, operands, characters"""
    L = [65, 129, 257, 513, 1025, 4097]
    if thorough():
        L = [63, 64, 65, 99, 100, 101, 127, 128, 199, 255, 256, 499, 500, 511, 512, 701, 1000, 1001, 1024, 2001, 2048, 5001, 8193, 10001] + L
    CHARS = {"names": 22001, "flags": 16500, "literal": 12400, "spaces": 22001}    # up to and beyond 65536 characters
    F = {
        "items": lambda n: " ".join('"w%d"' % j for j in range(n)),
        "alts": lambda n: " | ".join('"w%d"' % j for j in range(n)),
        "groups": lambda n: " ".join(('("u%d" | [])' if j % 5 == 3 else '"w%d"') % j for j in range(n * 2 // 3)),
        "sequences": lambda n: " | ".join('"u%d" "v%d"' % (j, j) for j in range(n // 2 + 1)),
        "and": lambda n: "[" + " & ".join('a%d="w"' % j for j in range(n)) + "]",
        "or": lambda n: "[] [a='u' | " + " | ".join('a%d="w"' % j for j in range(n)) + "]",
        "andor": lambda n: "[" + "|".join('a%d="w"&!b!="c"' % j for j in range(n // 2 + 1)) + "]",
        "conds": lambda n: " ".join('[q%d:a%d%s"w"]' % (j, j, ("=", "!=")[j % 3 == 1]) for j in range(n // 2 + 1)),
        "quants": lambda n: " ".join('[]{%d}' % j if j % 4 else '"x"?' for j in range(n // 2 + 1)),
        "names": lambda n: "[%s:%s='x']" % ("q" * n, "a" * (2 * n)),
        "flags": lambda n: '"x"/i "y"/' + "iccd" * n,
        "digits": lambda n: '"x"{%s1,%s7}' % ("0" * n, "0" * (n // 2)),
        "literal": lambda n: '"a" "' + "".join(("ab", "\\x41", "\\\"", "é", "\\u00c5", "e")[j % 6] for j in range(2 * n)) + '"',
        "spaces": lambda n: '"a"' + " \n\t" * n + '"b" [' + " " * n + 'a="x"]',
        "broken": lambda n: '"a" ' * n + ("| &", "[a=]", "$ | |", ")")[n % 4],
    }
    rs = []
    for k in kinds:
        for n in L + [CHARS[k]] if k in CHARS else [n for n in L if n < 4000] if k == "digits" else L:
            rs.append(req(F[k](n) + (" within s" if n % 3 == 0 and k != "broken" else ""), **dict(dict(loc=n % 4 == 1, st=prop == "C13"), **cf)))
    rs.sort(key=lambda q: -len(q["x"]))
    check_random(ctx, prop, rs, "long texts")


def nesting(ctx):
    """beyond the depth the Python stack allows (see KNOWN_FINDINGS); every query has its own key"""
    F = {"groups": lambda n: "(" * n + '"x"' + ")" * n, "parentheses": lambda n: "[" + "(" * n + 'a="x"' + ")" * n + "]", "nots": lambda n: "[" + "!" * n + 'a="x"]'}
    names = {f(n): f"nesting-{k}-{n}" for k, f in F.items() for n in (30, 400)}
    check_random(ctx, "C01", [req(x, nf="None", loc=False, can=True) for x in names], "nesting", key=lambda x, bad: names[x], f=plain)


# ---------------------------------------------------------------------------
def c01(ctx):
    nesting(ctx)
    T = thorough()
    longs(ctx, "C01", "items", "or", "literal", "digits", "names", "broken", nf="None")
    replay_suite(ctx, "C01", "tokens", RAW, scale(5, 6), modes=({"can": True},))
    replay_suite(ctx, "C01", "conditions", ['a="x"', 'b:c!="y"/i', "&", "|", "!", "(", ")"], scale(6, 8), prefix="[", suffix="]")
    replay_suite(ctx, "C01", "items", ['"x"', "[]", "+", "{2,1}", "(", ")", "|", "within", "s"], scale(6, 8))
    # character level: longest match
    replay_suite(ctx, "C01", "chars", list("as-1! =\"\\x/"), scale(4, 5), chars=True, prefix="[", suffix='="y"]')
    replay_suite(ctx, "C01", "literal", list("\\\"'nqxu4"), scale(5, 6), chars=True, prefix='"', suffix='"')
    replay_suite(ctx, "C01", "words", ["within", "s", "i", "-", "1", "W", "text", " ", "\n"], scale(4, 5), chars=True, prefix='"x" ', suffix="")

    # every single character between tokens, in a literal, in a name, after a backslash
    def single():
        cs = list(range(0, 0x300)) + gen.WS + gen.NEAR_WS + [0x660, 0x2160, 0xFF21, 0xFF11, 0x1D7D8, 0x10FFFF, 0xD800]
        if T:
            cs += list(range(0x300, 0x3100))
        for c in sorted(set(cs)):
            ch = chr(c)
            for x in (f'"a"{ch}"b"', f'"a{ch}"', f'[a{ch}="x"]', f'"\\{ch}"', f"{ch}", f'"a"/i{ch}', f'[a=\'{ch}\']'):
                yield req(x, nf="None", loc=False, can=(c < 0x180))
    check_random(ctx, "C01", list(single()), "every character at every kind of place")

    def make(rng):
        prof = dict(chars="any", lits=dict(plain=3, uni=2, esc=3, dict=2, long=0.5), badcp=0.1, badflags=0.3, badrange=0.3, layout=rng.choice(["plain", "wild"]))
        q = mk(prof, deep_p=0.06, mutants=0.62, nf=("None",))(rng)
        q["can"] = rng.random() < 0.4
        if rng.random() < 0.3:
            q.update(api=rng.choice(["facade", "default", "facade-default"]), di="text", op="Eq", nf="NFC")
            if q["api"] == "default":
                q["loc"] = False
            if q["api"] == "facade-default":
                q["loc"] = True
        return q
    check_random(ctx, "C01", corpus("C01", scale(9000, 90000), make), "random and mutated texts")


def c02(ctx):
    longs(ctx, "C02", "items", "alts", "groups", "sequences", "and")
    ITEMS = ['"a"', '"b"', "[]", '[p="c"]', "(", ")", "|", "+"]
    replay_suite(ctx, "C02", "structure", ITEMS, scale(6, 7), modes=LOCNOLOC)
    replay_suite(ctx, "C02", "groups", ['"a"', "(", ")", "|", "?"], scale(8, 11), modes=LOCNOLOC)
    prof = dict(lits=dict(plain=6, uni=1, esc=1), alts=[1, 1, 2, 2, 3, 4], items=[1, 1, 2, 3, 4], group=0.35, segment=0.35, ors=[1, 1, 2], ands=[1, 1, 2], egroup=0.1,
                nots=[0] * 8 + [1], big=0.08, budget=12, badflags=0, badrange=0, depth=4)
    check_random(ctx, "C02", corpus("C02", scale(3500, 60000), mk(lambda r: dict(prof, **layouts(r)), deep_p=0.2, di=("text", "foo"))), "random structures")


def c03(ctx):
    longs(ctx, "C03", "and", "or", "andor")
    replay_suite(ctx, "C03", "boolean", ['a="x"', 'b!="y"/i', "&", "|", "!", "(", ")"], scale(7, 8), prefix="[", suffix="]", modes=LOCNOLOC)
    replay_suite(ctx, "C03", "boolean-in-sequence", ['a="x"', "&", "|", "!"], scale(7, 9), prefix='"u" ([b="v" & !c="w"] | [', suffix="]{2}) within s", modes=LOCNOLOC)
    prof = dict(lits=dict(plain=6, uni=1), alts=[1, 1, 1, 2], items=[1, 1, 2], group=0.1, segment=0.95, wildcard=0.03, ors=[1, 2, 2, 3, 4], ands=[1, 1, 2, 3, 4],
                nots=[0] * 8 + [1, 1, 2], egroup=0.3, big=0.05, budget=9, badflags=0, badrange=0, depth=4)
    check_random(ctx, "C03", corpus("C03", scale(4500, 40000), mk(lambda r: dict(prof, **layouts(r)), deep_p=0.15)), "random expressions")


def c04(ctx):
    longs(ctx, "C04", "conds", "names", "and")
    NAMES = ["a", "within", "s", "i", "text"]
    replay_suite(ctx, "C04", "names", NAMES + [":", "=", "!=", '"x"', "&"], scale(7, 9), prefix="[", suffix="]", modes=LOCNOLOC, di="dflt", op="Ne")
    replay_suite(ctx, "C04", "neighbours", ['"u"', '[a="x"', 'b:c!="y"', "& ", "| ! (", ")", "]"], scale(6, 8), modes=LOCNOLOC, di="lem-ma", op="Ne")
    prof = dict(lits=dict(plain=6, uni=1, dict=1), alts=[1, 1, 2], items=[1, 2, 3], group=0.15, segment=0.7, qualifier=0.5, ne=0.5, flags=0.2, badflags=0, badrange=0, budget=9)
    dis = ("text", "word", "lemma", "x-foo", "pos", "Text", "within", "s", "é", "a b", "A", "0", "qualifier", "t", ":", "\\", "\u0041\u030a", *gen.IDENT_WORDS[:40])
    check_random(ctx, "C04", corpus("C04", scale(6000, 60000), mk(lambda r: dict(prof, **layouts(r)), deep_p=0.05, di=dis, op=("Eq", "Ne"))), "random conditions")

    def alln():
        for a in sorted(set(gen.KNOWN + gen.SCOPES + ["within"] + gen.IDENT_WORDS + ["".join(p) for p in itertools.product(gen.FLAGS, repeat=2)])):
            for x in (f'[{a}="v"]', f'[{a}:b!="v"]', f'[b:{a}="v"]', f'[{a}:{a}!="v" & {a}="w"]'):
                yield req(x, loc=False)
            yield req('"v" [b!="w"]', di=a, op="Ne", loc=False)
    check_random(ctx, "C04", list(alln()), "every special word as layer, qualifier and default layer")


def c05(ctx):
    longs(ctx, "C05", "literal", nf="None")
    for q in "\"'":
        replay_suite(ctx, "C05", f"escapes{ord(q)}", list("\\n\"'x4u{") + ["\\x4"], scale(4, 5), chars=True, prefix=q, suffix=q, nf="None", lit=True, modes=LOCNOLOC)
    replay_suite(ctx, "C05", "meta", ["\\" + c for c in gen.META + "nt\\\"'"] + ["a", "\\x41", "\\u00E9", "\\U0001F600", "\\U00110000"], scale(2, 3), chars=True,
                 prefix='[a="', suffix='"]', nf="None", lit=True)

    def single():
        cs = list(range(0, 0x800)) + gen.WS + gen.NEAR_WS
        if thorough():
            cs = list(range(0, 0x10000, 1))
        for c in sorted(set(cs)):
            if c not in (34, 92):
                yield req(f'"{chr(c)}b\\x41{chr(c)}"', nf="None", loc=False)
            if c < 256:
                yield req(f'"a\\x{c:02x}b"', nf="None", loc=False)
            yield req(f"'a\\u{c:04X}b'", nf="None", loc=False)
            if c % 7 == 0 or c < 256:
                yield req(f'"\\U{c:08x}"', nf="None", loc=False)
        step = 4099 if not thorough() else 257
        for c in list(range(0x10000, 0x110000, step)) + [0x10FFFF, 0x110000, 0x110001, 0x10FFFE, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x00FFFFFF, 0x01000000]:
            if c < 0x110000:
                yield req(f'"{chr(c)}"', nf="None", loc=False)
            yield req(f'"a\\U{c:08X}z"', nf="None", loc=False)
    check_random(ctx, "C05", list(single()), "every character typed and escaped")
    prof = dict(lits=dict(plain=1, uni=3, esc=6, dict=2, long=0.5), chars="any", badcp=0.04, items=[1, 1, 2, 3], quant=0.1, within=0.1, flags=0.1, badflags=0, badrange=0, depth=1, budget=5)
    check_random(ctx, "C05", corpus("C05", scale(7000, 70000), mk(prof, deep_p=0, nf=("None",))), "random literals, no normalisation")
    prof2 = dict(prof, chars="ascii")
    check_random(ctx, "C05", corpus("C05", scale(2500, 25000), mk(prof2, deep_p=0, nf=("NFC", "NFKC", "NFD", "NFKD")), tag="ascii"), "random ASCII literals")


def c06(ctx):
    longs(ctx, "C06", "literal", nf="NFD")
    U = [0x41, 0x61, 0xE9, 0x300, 0x30A, 0x323, 0xC5, 0x212B, 0xFB01, 0xAC00, 0x11A8, 0x1E9B]
    for f in ("NFC", "NFD", "NFKC", "NFKD", "None"):
        replay_suite(ctx, "C06", "norm-" + f, [chr(c) for c in U], scale(3, 4), chars=True, prefix='"', suffix='"', nf=f, lit=True, modes=LOCNOLOC)
    replay_suite(ctx, "C06", "norm-escaped", ["\\u0041", "\u0041", "\\u030a", "\u030a", "\\u212B", "\\x41", "\\u0323", "\\U0000FB01"], scale(3, 4), chars=True,
                 prefix='[a!="', suffix='"]', nf="NFC", lit=True)
    prof = dict(lits=dict(plain=1, uni=8, esc=5, long=0.3), chars="ucd", quant=0.1, within=0.1, flags=0.1, badflags=0, badrange=0, depth=1, budget=5)
    check_random(ctx, "C06", corpus("C06", scale(9000, 90000), mk(prof, deep_p=0, nf=tuple(ALLC))), "random literals, all forms")

    def names():
        # nothing else in the query is normalised: default layer names
        for di in ("A\u030a", "\u212b", "\ufb01", "e\u0301x", "\u1e9b\u0323"):
            for f in ALLC:
                yield req('"\u212b" [b="e\u0301"]', di=di, nf=f)
    rs = list(names())
    check_random(ctx, "C06", rs, "default layer names that normalisation would change")


def c07(ctx):
    longs(ctx, "C07", "flags")
    replay_suite(ctx, "C07", "flags", list(gen.FLAGS), scale(4, 6), chars=True, prefix='"x"/', suffix="")
    replay_suite(ctx, "C07", "flags-cond", list(gen.FLAGS) + [" & b='y'/l"], scale(4, 5), chars=True, prefix='[a="x"/', suffix="]")
    replay_suite(ctx, "C07", "who", ['"x"', "/i", "/Id", "/l", '[a="y"', "/ c", "]", "|", '& b="z"'], scale(5, 7))
    prof = dict(flags=0.7, badflags=0.06, lits=dict(plain=6, uni=1), items=[1, 2, 3], badrange=0, budget=8)
    check_random(ctx, "C07", corpus("C07", scale(6000, 60000), mk(lambda r: dict(prof, **layouts(r)), deep_p=0.0)), "random flags")


def c08(ctx):
    longs(ctx, "C08", "quants", "digits", "groups")
    replay_suite(ctx, "C08", "ranges", ["{", "}", ",", "0", "1", "2", "10", "+", "*", "?"], scale(6, 7), prefix='"x"', modes=LOCNOLOC)
    replay_suite(ctx, "C08", "items", ['"x"', "[]", "(", ")", "+", "{0,2}", "{3,2}", "|"], scale(6, 7), modes=LOCNOLOC)

    def pairs():
        ns = ["0", "1", "2", "3", "9", "10", "11", "19", "20", "21", "99", "100", "101", "007", "010", "00", "255", "256", "65535", "65536", "2147483647", "2147483648",
              "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616"] + [str(n) for n in gen.INTS if n > 2]
        ns = sorted(set(ns))
        for a in ns:
            yield req('"x"{%s}' % a, loc=False)
            yield req('[a="y"]{%s,}' % a, loc=False)
            yield req('("x"){,%s}' % a, loc=False)
            for b in ns:
                yield req('"x"{%s,%s}' % (a, b), loc=False)
        for a in range(0, 40):
            for b in range(0, 40):
                yield req('("x"){%d,%d} []{%d,}' % (a, b, a), loc=False)
    check_random(ctx, "C08", list(pairs()), "pairs of bounds")
    big = {'"x"{%s}' % ("9" * 4301): "digits-4301", '"x"{%s}' % ("9" * 4000): "digits-4000"}
    check_random(ctx, "C08", [req(x, loc=False) for x in big], "beyond the digits int() takes", key=lambda x, bad: big[x])
    prof = dict(quant=0.75, badrange=0.03, badflags=0, group=0.35, lits=dict(plain=1), budget=9, items=[1, 2, 3])
    check_random(ctx, "C08", corpus("C08", scale(4500, 45000), mk(lambda r: dict(prof, **layouts(r)), deep_p=0.1)), "random quantifiers")


def c09(ctx):
    longs(ctx, "C09", "items", "alts", "conds")
    W = ['"x"', "within"] + gen.SCOPES + ["a", "i"]
    replay_suite(ctx, "C09", "scopes", W, scale(4, 5), modes=LOCNOLOC)
    replay_suite(ctx, "C09", "names", ["within", "s", "text", ":", "=", '"x"', "]", "["], scale(8, 10), prefix="[", modes=LOCNOLOC)
    replay_suite(ctx, "C09", "mains", ['"x"', "[]", "(", ")", "|", "+", "{2}"], scale(6, 7), suffix=" within utterance", modes=LOCNOLOC)
    prof = dict(within=0.8, badflags=0, badrange=0, lits=dict(plain=5, uni=1))
    check_random(ctx, "C09", corpus("C09", scale(5000, 50000), mk(lambda r: dict(prof, **layouts(r)), deep_p=0.1, op=("Eq", "Ne"))), "random queries with a within clause")


def c10(ctx):
    longs(ctx, "C10", "andor", "groups", "spaces", "literal")
    seps = [" ", "\n", "\u3000\t", "  \r\n "]
    for j, sep in enumerate(seps if thorough() else seps[:3]):
        replay_suite(ctx, "C10", f"locations{j}", ['"\U0001f600"/i', "[", "]", 'a="y\u0301"', 'b:c!="z"/ld'[:-2] + "d", "&", "|", "!", "(", ")", "{2,3}", "+", "within s"],
                     scale(5, 6), sep=sep, modes=({"loc": True},))
    replay_suite(ctx, "C10", "expr", ['a="x"', 'b : c != "y" / i', "&", "|", "!", "(", ")"], scale(6, 7), prefix=' "\U00010000" [', suffix="] ?", modes=LOCNOLOC)
    prof = dict(chars="any", lits=dict(plain=4, uni=2, esc=3), badflags=0, badrange=0, layout="wild")

    def make(rng):
        q = mk(prof, deep_p=0.08, nf=("None", "NFC", "NFKD"), loc=(True, True, True, False))(rng)
        if rng.random() < 0.2:
            q.update(api=rng.choice(["facade", "facade-default", "default"]), di="text", op="Eq", nf="NFC")
            if q["api"] == "default":
                q["loc"] = False
            if q["api"] == "facade-default":
                q["loc"] = True
        return q
    check_random(ctx, "C10", corpus("C10", scale(6000, 60000), make), "random layouts")


def c13(ctx):
    longs(ctx, "C13", "groups", "andor", "literal", "quants")
    prof = dict(chars="any", lits=dict(plain=3, uni=2, esc=3, dict=1, long=0.2), badflags=0, badrange=0, flags=0.4, quant=0.4, qualifier=0.4)
    dis = ("text", "x-foo", "pos", "a b", "\u212b")

    def make(rng):
        q = mk(lambda r: dict(prof, **layouts(r)), deep_p=0.08, nf=("None", "NFC"), di=dis, op=("Eq", "Ne"))(rng)
        q["st"] = True
        return q
    check_random(ctx, "C13", corpus("C13", scale(9000, 90000), make), "random trees")

    def grid():
        for f in ["".join(p) for n in (1, 2) for p in itertools.product(gen.FLAGS, repeat=n)]:
            yield req(f'[q:a!="x"/{f}]', loc=False, st=True)
            yield req(f'"x"/{f}', loc=True, st=True)
        for c in list(range(0, 256)) + gen.WS + gen.NEAR_WS + [0x1F600, 0xD800]:
            for k in ("\\u%04x" % c if c < 0x10000 else "\\U%08x" % c,):
                yield req(f'[a="p{k}q"]', nf="None", loc=bool(c % 2), st=True)
                yield req(f'"{k}{k}"', nf="None", loc=bool(c % 2), st=True)
        for a in range(0, 13):
            for b in range(a, 13):
                yield req('"x"{%d,%d} ("y"){%d,%d} [] {%d,}' % (a, b, a, b, a), loc=bool(a % 2), st=True)
        for s in gen.SCOPES:
            yield req(f'"x" within {s}', loc=True, st=True)
            yield req(f'"x" within {s}', loc=False, st=True)
    check_random(ctx, "C13", list(grid()), "grid of flags, characters, bounds, scopes")
    from parsefam import obligations, run, conform
    # every tree shape of a bounded exploration
    obl = obligations(ctx, "shapes", ['a="x"', "&", "|", "!", "(", ")", "] [", '] | "w" ('.replace("(", "[")], scale(6, 7), prefix='[', suffix="]+ within s")
    rs = run([req(o[0], loc=bool(j % 2), st=True) for j, o in enumerate(obl) if o[1] == "ok"])
    ctx.traces += len(rs)
    conform(ctx, "C13", rs, "shapes")


def c22(ctx):
    longs(ctx, "C22", "broken")
    replay_suite(ctx, "C22", "tokens", RAW, scale(5, 6))
    replay_suite(ctx, "C22", "tokens-multiline", ["(", ")", "[", "]", "|", "&", "{", "+", "=", "within", "s", "a", "1", '"x\U0001f600\n"'], scale(5, 6), sep="\n ")
    replay_suite(ctx, "C22", "conditions", ['a="x"', "&", "|", "!", "(", ")", "/", ":"], scale(5, 6), prefix='"u" | ([', suffix="])")
    replay_suite(ctx, "C22", "chars", list("\"'$\\a #\n"), scale(4, 6), chars=True, prefix='"k" \n', suffix="")
    prof = dict(chars="any", lits=dict(plain=4, uni=2, esc=2), badflags=0.02, badrange=0.02)

    def make(rng):
        return mk(lambda r: dict(prof, layout=r.choice(["plain", "wild"])), deep_p=0.02, mutants=0.85, nf=("None",), loc=(True, False))(rng)
    check_random(ctx, "C22", corpus("C22", scale(9000, 90000), make), "mutated texts")


ALL = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C13": c13, "C22": c22}
