"""C18, C19, C21: the specification validator and the one-call validation."""
import itertools
import json
import os
import random
import time

import drive
import gen
from base import SEED, cps, text, thorough
from drive import P, V, errlist, tri
from gen import Gen
from parsefam import corpus, scale
from project import NOTEXT, enc
import fcsql


# ---- observing one validator call -------------------------------------------
def entries(l):
    """error/warning list -> [ty, s, e, fr, ms]"""
    out = []
    for d in errlist(l, ""):
        s, e = (d["s"], d["e"]) if d["pk"] == "loc" else (-1, -1) if d["pk"] == "none" else (-9, -9)
        out.append({"ty": d["ty"], "s": s, "e": e, "fr": d["fr"], "ms": d["ms"]})
    return out


def preorder(n):
    out, todo = [], [n]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(reversed(x.children))
    return out


def mkvalidator(S, **kw):
    aq = [(text(q["id"]), None if q["none"] else [text(x) for x in q["qs"]]) for q in S["aq"]] or (None if S.get("aqnone") else [])
    ai = [text(x) for x in S["ai"]] or (None if S.get("ainone") else [])
    return V.FCSQLValidator(allowed_layer_identifiers=ai, allowed_layer_qualifiers=aq, raise_at_first_violation=S["rf"], warnings_as_errors=S["we"], **kw)


def call(v, tree, q, how, yes):
    """one validation; how: ctor (query given when built) | call | none"""
    r = {"o": "other", "rix": 0, "rfr": NOTEXT, "why": ""}
    kw = {"query": q} if how == "call" else {}
    try:
        x = v.is_valid(tree, **kw) if yes else v.validate(tree, **kw)
        r["o"] = "T" if x is True else "F" if x is False else "other"
        r["why"] = repr(x)[:80]
    except V.SpecificationValidationError as ex:
        r["o"] = "other" if yes else "raise"
        nodes = preorder(tree)
        r["rix"] = next((k + 1 for k, n in enumerate(nodes) if n is ex.node), 0)
        f = ex.query_fragment
        r["rfr"] = NOTEXT if f is None else cps(f) if isinstance(f, str) else [-2]
    except drive.Hang:
        raise
    except BaseException as ex:
        r["why"] = type(ex).__name__ + ": " + str(ex)[:100]
    r["es"] = entries(getattr(v, "errors", None))
    r["ws"] = entries(getattr(v, "warnings", None))
    return r


def observe_val(req):
    """req: x query, loc, S settings (JSON form), how, y"""
    tree = drive.make_parser(loc=req["loc"]).parse(req["x"])
    q = req["x"] if req["how"] != "none" else None
    v = mkvalidator(req["S"], **({"query": q} if req["how"] == "ctor" else {}))
    r = call(v, tree, q, req["how"], req["y"])
    r.update(k="v", x=req["x"], t=enc(tree), S={k: req["S"][k] for k in ("ai", "aq", "rf", "we")}, qs=NOTEXT if q is None else cps(q), y=req["y"])
    return r


def observe_facade(req):
    x = req["x"]
    r = {"k": "f", "x": cps(x), "we": req["we"], "rt": req["rt"], "ver": "ok" if req["ver"] in ("2.2", "default") else "unknown", "o": "other", "es": [], "ps": [], "why": ""}
    kw = {"return_errors": req["rt"], "warnings_as_errors": req["we"]}
    if req.get("bare"):
        kw = {k: v for k, v in kw.items() if v}
    if req["ver"] != "default":
        kw["version"] = req["ver"]
    try:
        v = fcsql.validate(x, **kw)
        if isinstance(v, list):
            r["o"] = "list"
            r["es"] = entries2(v)
        else:
            r["o"] = "T" if v is True else "F" if v is False else "other"
    except ValueError as ex:
        r["o"] = "ValueError"
    except drive.Hang:
        raise
    except BaseException as ex:
        r["why"] = type(ex).__name__ + ": " + str(ex)[:100]
    p = P.QueryParser(enableSourceLocations=True)
    try:
        p.parse(x)
    except P.QueryParserException:
        r["ps"] = entries2(p.errors)
    return r


def entries2(l):
    """as entries, but keeps character positions (s = offset, e = -2)"""
    out = []
    for d in errlist(l, ""):
        s, e = {"loc": (d["s"], d["e"]), "none": (-1, -1), "int": (d["s"], -2)}.get(d["pk"], (-9, -9))
        out.append({"ty": d["ty"], "s": s, "e": e, "fr": d["fr"], "ms": d["ms"]})
    return out


KEEPV = ("k", "t", "S", "qs", "y", "o", "rix", "rfr", "es", "ws")
KEEPF = ("k", "x", "we", "rt", "ver", "o", "es", "ps")


def vconform(ctx, prop, recs, label, key=None):
    recs = [r for r in recs if r is not None]
    for part in range(0, len(recs), 30000):
        chunk = recs[part:part + 30000]
        path = os.path.join(ctx.tmp, "vtrace.ndjson")
        with open(path, "w") as f:
            for r in chunk:
                f.write(json.dumps({k: r[k] for k in (KEEPF if r["k"] == "f" else KEEPV)}, separators=(",", ":")) + "\n")
        res = ctx.tlc("ValConform", env={"TRACE": path, "PROP": prop})
        os.unlink(path)
        for line in res.lines:
            r = chunk[line["i"] - 1]
            case = {"query": r["x"] if isinstance(r["x"], str) else text(r["x"]), "observed": {k: r[k] for k in ("o", "rix", "rfr", "es", "ws", "ps", "why") if k in r},
                    "specified": line["want"], "source": label, "settings": r.get("S") or {k: r[k] for k in ("we", "rt", "ver")}}
            ctx.fail(",".join(sorted(line["bad"])), case, key and key(case["query"], line["bad"]))


def hang(q, r, facade=False):
    if not isinstance(r, tuple):
        return r
    if facade:
        return {"k": "f", "x": cps(q["x"]), "we": q["we"], "rt": q["rt"], "ver": "ok" if q["ver"] in ("2.2", "default") else "unknown", "o": "other", "es": [], "ps": [], "why": r[1]}
    return {"k": "v", "x": q["x"], "t": ["?hang", -1, -1, []], "S": {k: q["S"][k] for k in ("ai", "aq", "rf", "we")}, "qs": NOTEXT, "y": q["y"], "o": "other", "rix": 0,
            "rfr": NOTEXT, "es": [], "ws": [], "why": r[1]}


def record(ctx, prop, reqs, label, facade=False, f=None, key=None):
    t = time.time()
    f = f or (observe_facade if facade else observe_val)
    recs = [hang(q, r, facade) for q, r in zip(reqs, drive.pmap(f, reqs))]
    ctx.traces += len(recs)
    out = {}
    for r in recs:
        out[r["o"]] = out.get(r["o"], 0) + 1
    ctx.cov.setdefault("recorded", []).append({"corpus": label, "calls": len(recs), "outcomes": out, "replay_s": round(time.time() - t, 1)})
    if reqs:
        ctx.sample({"recorded": label, "query": random.Random(SEED).choice(reqs)["x"][:200]})
    vconform(ctx, prop, recs, label, key)


# ---- direction A -------------------------------------------------------------
def differs(a):
    """replay one obligation in every mode; the records that differ"""
    o, S0, modes, j = a
    x = text(o["x"])
    bad = []
    errs = [i for i in o["is"] if i[0] == "error"]
    warns = [i for i in o["is"] if i[0] == "warning"]
    for m, (rf, yes) in enumerate(modes):
        S = dict(S0, rf=rf, we=o["we"])
        how = ("ctor", "call", "none")[(j + m) % 3]
        loc = (j + m) % 4 != 1
        r = observe_val({"x": x, "loc": loc, "S": S, "how": how, "y": yes})
        ok = r["o"] == (o["v"] if yes or not rf or o["v"] == "T" else "raise")
        if r["o"] == "raise":
            ok = ok and r["rix"] == o["first"]
        if not rf:
            for got, want, ty in ((r["es"], errs, "validation-error"), (r["ws"], warns, "validation-warning")):
                ok = ok and len(got) == len(want)
                for g, w in zip(got, want):
                    fr = cps(x[w[2]:w[3]]) if loc and how != "none" else NOTEXT
                    ok = ok and g["ty"] == ty and g["ms"] and g["fr"] == fr and ((g["s"], g["e"]) == ((w[2], w[3]) if loc else (-1, -1)))
        if not ok:
            bad.append(r)
    return bad


def vsuite(ctx, prop, name, conds, links, maxlen, settings, modes, prefix="[", suffix="]"):
    path = os.path.join(ctx.tmp, f"vs-{name}.json")
    js = [{"ai": s["ai"], "aq": s["aq"]} for s in settings]
    with open(path, "w") as f:
        json.dump(dict(conds=[cps(c) for c in conds], links=[cps(c) for c in links], maxlen=maxlen, settings=js, prefix=cps(prefix), suffix=cps(suffix)), f)
    res = ctx.tlc("ValSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "conditions": len(conds), "links": links, "maxlen": maxlen, "settings": len(settings)}
    t = time.time()
    jobs = [(o, settings[o["si"] - 1], modes, j) for j, o in enumerate(res.lines)]
    rs = drive.pmap(differs, jobs)
    ctx.traces += len(jobs) * len(modes)
    bad = []
    for jb, r in zip(jobs, rs):
        if isinstance(r, tuple):
            ctx.fail("hang", {"query": text(jb[0]["x"]), "why": r[1]})
        else:
            bad += r
    ctx.cov.setdefault("suites", []).append({"name": name, "obligations": len(jobs), "calls": len(jobs) * len(modes), "valid": sum(o["v"] == "T" for o in res.lines),
                                             "invalid": sum(o["v"] == "F" for o in res.lines), "replay_s": round(time.time() - t, 1), "adjudicated": len(bad)})
    if jobs:
        ctx.sample({"suite": name, "query": text(jobs[len(jobs) // 2][0]["x"])})
    if bad:
        bad.sort(key=lambda r: len(r["x"]))
        vconform(ctx, prop, bad[:2000], "suite " + name)


def S_(ai=None, aq=None):
    return {"ai": [cps(x) for x in ai or []], "ainone": ai is None,
            "aq": [{"id": cps(i), "none": q is None, "qs": [cps(x) for x in q or []]} for i, q in aq or []], "aqnone": aq is None}


SETTINGS = [S_(), S_([], []), S_(["text", "foo", "word"]), S_(["x-foo"], None), S_(None, [("text", ["a"]), ("pos", None)]), S_(None, [("pos", ["a", "b"]), ("pos", []), ("foo", [])]),
            S_(["pos", "text"], [("text", None), ("text", ["a"])]), S_(["text", "pos", "lemma"], [("lemma", ["b"]), ("text", ["b"]), ("x-foo", ["a"])])]
MODES = [(False, False), (True, False), (False, True), (True, True)]
LINKS = [" & ", " | !", "] [", "]+ | ([", " & (q:word!='v' | ", "&!!("]


def single_conds():
    vals = ['"NOUN"', '"noun"', '"N.*"', '""', '"a b"', '"X"/i']
    return [f"{q}{i}{op}{v}" for q in ("", "a:", "b:") for i in ("text", "lemma", "word", "x-foo", "pos", "foo", "x", "X-foo") for op, v in zip(itertools.cycle(("=", "!=")), vals)]


PAIR = ['text="v"', 'a:text="v"', 'foo="v"', 'b:foo="v"', 'word="v"', 'x-foo!="v"', 'pos="n"', 'pos="NOUN"', 'a:pos="n"', 'b:pos="q"/d', 'c:word="v"']


def balanced(links):
    return [l for l in links if l.count("(") == 0 and l.count("[") == l.count("]")]


def suites(ctx, prop, modes):
    vsuite(ctx, prop, "one", single_conds(), [], 1, SETTINGS, modes)
    vsuite(ctx, prop, "two", PAIR, balanced(LINKS), 2, SETTINGS, modes[:2] if not thorough() else modes)
    vsuite(ctx, prop, "deep", PAIR[1:8], [" & ", " | !"], scale(2, 3), SETTINGS[:5:2], modes, prefix="([text='t'] | [!(pos='z' & (", suffix="))]{2,3}) 'w' within s")


def names(r):
    k = r.random()
    if k < 0.35:
        return r.choice(gen.KNOWN)
    if k < 0.5:
        return r.choice(["x-foo", "x-pos", "x-a", "x", "X-a", "xa", "x-1", "x--a", "y-a", "xx-a"])
    if k < 0.6:
        w = r.choice(gen.KNOWN)
        return r.choice([w.upper(), w.capitalize(), w + "s", w + "1", w[:-1], "x-" + w, w + "-x", "a" + w])
    if k < 0.75 and gen.IDENT_WORDS:
        return r.choice(gen.IDENT_WORDS)
    return r.choice(["foo", "a", "b", "within", "s", "sentence", "i", "token", "words", "lemmas"])


class VGen(Gen):
    def ident(self):
        n = names(self.r)
        return n if gen.IDENT_RE.match(n) else "a"

    def cond(self):
        r = self.r
        if r.random() < 0.4:
            t = ([r.choice(["a", "b", "UD", "c"]), ":"] if r.random() < 0.3 else []) + ["pos", r.choice(["=", "!="]), self.lit()] + self.flagtoks()
            self.left -= 1
            return t
        return super().cond()


def rsettings(r):
    pool = gen.KNOWN + ["foo", "a", "x-foo", "x-a", "x", "Text", "tex", "pos", "pos"]
    ai = r.choice([None, None, [], r.sample(pool, r.randint(1, 5))])
    aq = r.choice([None, None, [], [(r.choice(pool), r.choice([None, [], ["a"], ["b"], ["a", "b"], ["UD", "UD17"], ["A", "ab"]])) for _ in range(r.randint(1, 5))]])
    s = S_(ai, aq)
    s["rf"] = r.random() < 0.5
    s["we"] = r.random() < 0.5
    return s


def vmake(rf=None, yes=0.0):
    prof = dict(badflags=0, badrange=0, chars="ascii", lits=dict(plain=3, uni=1, esc=1, dict=5), flags=0.2, segment=0.8, budget=8, nots=[0] * 6 + [1, 2], items=[1, 1, 2, 3],
                qualifier=0.4)

    def make(rng):
        g = VGen(rng, **dict(prof, layout=rng.choice(["plain", "wild"])))
        S = rsettings(rng)
        if rf is not None and rng.random() < 0.8:
            S["rf"] = rf
        q = dict(x=g.query(), loc=rng.random() < 0.8, S=S, how=rng.choice(["ctor", "call", "none"]), y=rng.random() < yes)
        q.update(di="text", op="Eq", nf="NFC", api=json.dumps([S["rf"], S["we"], q["y"], q["how"], len(S["ai"]), len(S["aq"])]))
        return q
    return make


def grid(rf, yes):
    """every tag, near misses, every ASCII character as a value of pos; every name as a layer"""
    def S(**k):
        return dict(S_(**{a: b for a, b in k.items() if a in ("ai", "aq")}), rf=rf, we=k.get("we", False))
    vals = set()
    for w in gen.POS:
        vals |= {w, w.lower(), w.capitalize(), w + " ", " " + w, w[:-1], w + "S", w + "1", w + w, "x" + w, w[1:]}
    for w in gen.WORDS:
        vals |= {w, w.upper()}
    for v in sorted(vals | {"a", "ab", "", " ", "  ", "_", "é", "Ä"}):
        b = v.replace("\\", "\\\\").replace('"', '\\"')
        yield dict(x=f'[pos="{b}"]', loc=True, S=S(), how="ctor", y=yes)
    for c in range(0, 0x180):
        b = {34: '\\"', 92: "\\\\"}.get(c, chr(c))
        yield dict(x=f'[pos!="a{b}"]', loc=bool(c % 2), S=S(), how="call", y=yes)
        if c < 128 and chr(c) in gen.META:
            yield dict(x=f'[pos!="\\{chr(c)}"]', loc=True, S=S(), how="call", y=yes)
    for f in ["".join(p) for n in (1, 2) for p in itertools.product("iIld", repeat=n)]:
        for v in ("noun", "NOUN", "n."):
            if set(f) not in ({"i", "I"},) and not ("l" in f and set(f) != {"l"}):
                yield dict(x=f'[pos="{v}"/{f} & a:pos="{v}"/{f}]', loc=True, S=S(we=True), how="none", y=yes)
    ns = set(gen.KNOWN) | set(gen.SCOPES) | {"within", "x-a", "x-", "x", "xa", "X-a", "x--a", "y-x-a"} | set(gen.IDENT_WORDS) | {w.upper() for w in gen.KNOWN} | {w + "s" for w in gen.KNOWN} | {w[:-1] for w in gen.KNOWN}
    for a in sorted(n for n in ns if gen.IDENT_RE.match(n)):
        for st in (S(), S(ai=["text", "word"]), S(aq=[("text", ["q"]), (a, ["q"])]), S(aq=[(a, None)], ai=[a]), S(we=True, aq=[(a, ["r", "p"])])):
            yield dict(x=f'"w" [q:{a}!="v"] [{a}="v"]', loc=True, S=st, how="ctor", y=yes)


def c18(ctx):
    suites(ctx, "C18", [(False, False)])
    record(ctx, "C18", list(grid(False, False)), "every tag, name and ASCII character")
    record(ctx, "C18", corpus("C18", scale(5000, 50000), vmake(rf=False)), "random queries and settings")


def c19(ctx):
    suites(ctx, "C19", MODES)
    record(ctx, "C19", corpus("C19", scale(5000, 50000), vmake(rf=True, yes=0.35)), "random queries, settings and modes")
    record(ctx, "C19", list(grid(True, False))[::3] + list(grid(True, True))[1::3], "every tag, name and ASCII character, raising")


def shallow(q):
    """called from an empty stack, with the recursion limit every program starts with"""
    import sys
    from threading import Thread
    out = []
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        t = Thread(target=lambda: out.append(observe_facade(q)))
        t.start()
        t.join(60)
    finally:
        sys.setrecursionlimit(limit)
    return out[0] if out else ("!hang", "no answer")


def c21(ctx):
    deep = {"(" * n + '"x"' + ")" * n: f"nesting-groups-{n}" for n in (25, 115)}
    deep.update({"[" + "(" * n + 'text="x"' + ")" * n + "]": f"nesting-parentheses-{n}" for n in (25, 225)})
    record(ctx, "C21", [dict(x=x, we=False, rt=rt, ver="default") for x in deep for rt in (False, True)], "nesting", facade=True, f=shallow,
           key=lambda x, bad: deep[x])
    prof = dict(chars="ascii", lits=dict(plain=3, uni=1, esc=1, dict=4), badflags=0.15, badrange=0.1, segment=0.7, budget=7, qualifier=0.2)

    def make(rng):
        g = VGen(rng, **dict(prof, layout=rng.choice(["plain", "wild"])))
        k = rng.random()
        x = g.query() if k < 0.62 else g.mutant() if k < 0.8 else g.charmutant() if k < 0.95 else g.soup()
        if rng.random() < 0.05:
            x = rng.choice(["", " ", "\n"]) + (x if rng.random() < 0.3 else "")
        q = dict(x=x, we=rng.random() < 0.5, rt=rng.random() < 0.6, ver=rng.choice(["default"] * 5 + ["2.2"] * 3 + ["2.1", "2.0", "", "2", "2.20", "foo", None, "1.0"]), bare=rng.random() < 0.5)
        q.update(di="", op="", nf="", loc=0, api=str((q["we"], q["rt"], q["ver"])))
        return q
    record(ctx, "C21", corpus("C21", scale(9000, 90000), make), "random one-call validations", facade=True)

    def all_():
        conds = single_conds()
        words = ["", " ", "(", "[", '"x"', "[]", '"x"{2,1}', '"x"/iI', '"x"/li', '"\\U00110000"', '"x" within s', '"x" within', "$", '"', '"x" $', "[pos='n'] $", "[foo='a'", '[foo="a"]',
                 '[word="a"]', '[x-a="a"]', '[pos="noun"]', '[foo="a" & word="b" & x-b="c"] [bar="d"]']
        for x in words + [f"[{c}]" for c in conds]:
            for we in (False, True):
                for rt in (False, True):
                    for ver in ("default", "2.2", "2.1"):
                        yield dict(x=x, we=we, rt=rt, ver=ver)
    record(ctx, "C21", list(all_()), "grid of conditions, options and versions", facade=True)
    # token-level exploration: every short query
    from parsefam import obligations
    obl = obligations(ctx, "answers", ['[foo="a"', "text='b'", "a:word!='c'", "&", "]", "(", ")", '"x"', "/l", "{2,1}"], scale(5, 6), dead=True)
    qs = [dict(x=o[0], we=bool(j & 1), rt=bool(j & 2), ver="default") for j, o in enumerate(obl)]
    random.Random(SEED).shuffle(qs)
    record(ctx, "C21", qs[:scale(12000, 60000)], "explored token sequences", facade=True)


ALL = {"C18": c18, "C19": c19, "C21": c21}
