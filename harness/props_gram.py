"""C25: the grammar files."""
import json
import os
import random
import time

from antlr4 import CommonTokenStream, InputStream, Token
from antlr4.error.ErrorListener import ErrorListener

import drive
import g4
import gen
from base import SEED, SRC, MachineryError, cps, text, thorough
from gen import Gen
from parsefam import scale
from fcsql.FCSLexer import FCSLexer
from fcsql.FCSParser import FCSParser

DIR = os.path.join(SRC, "fcsql")


class Tables:
    def __init__(self):
        try:
            lf = g4.File(open(os.path.join(DIR, "FCSLexer.g4"), encoding="utf-8").read())
            pf = g4.File(open(os.path.join(DIR, "FCSParser.g4"), encoding="utf-8").read())
            self.t = g4.Table()
            self.rules = g4.lexer_table(self.t, lf)
            num = g4.parser_table(self.t, pf, lf)
            self.start = num["query"]
        except (g4.G4Error, KeyError, IndexError, RecursionError) as ex:
            raise MachineryError(f"cannot read the grammar files: {ex!r}")
        self.arules, self.astart = self.network()

    def network(self):
        """the compiled transition networks, when they are there"""
        try:
            a = FCSLexer.atn
            start = a.modeToStartState[0]
            t = self.t

            def leaf(tr):
                return t.add(k="set", r=g4.ranges_of(tr))
            tops = [tr.target for tr in start.transitions]
            num = g4.atn_table(t, a, leaf, tops)
            ar = []
            for j, s in enumerate(tops):
                ar.append({"n": name(FCSLexer, a.ruleToTokenType[s.ruleIndex]), "top": t.seq(num[s.stateNumber], t.add(k="end", i=j + 1)), "skip": False})
            b = FCSParser.atn

            def tok(tr):
                ns = sorted({x for lo, hi in g4.ranges_of(tr, b.maxTokenType) for x in range(lo, hi + 1)})
                return t.add(k="alt", a=[t.add(k="tok", n="EOF" if x == Token.EOF else name(FCSParser, x)) for x in ns])
            s = b.ruleToStartState[FCSParser.RULE_query]
            return ar, g4.atn_table(t, b, tok, [s])[s.stateNumber]
        except (AttributeError, IndexError, KeyError, TypeError):
            return None, 0

    def suite(self, **kw):
        d = {"nodes": self.t.nodes, "rules": self.rules, "start": self.start}
        d.update(kw)
        return d


def name(cls, ty):
    try:
        return cls.symbolicNames[ty]
    except Exception:
        return f"?{ty}"


class Listener(ErrorListener):
    def __init__(self):
        self.at = []
        self.n = 0

    def syntaxError(self, recognizer, sym, line, col, msg, e):
        self.n += 1
        if sym is None:
            p = getattr(e, "startIndex", None)
            self.at.append(p if type(p) is int else -7)


def observe(x):
    """what the shipped lexer and parser make of a text"""
    r = {"x": cps(x), "tk": [], "bad": -1, "acc": "other"}
    try:
        lx = FCSLexer(InputStream(x))
        lx.removeErrorListeners()
        l = Listener()
        lx.addErrorListener(l)
        toks = []
        while True:
            t = lx.nextToken()
            if t.type == Token.EOF:
                break
            toks.append(t)
        if l.at:
            r["bad"] = l.at[0]
        r["tk"] = [[name(FCSLexer, t.type), t.start, t.stop + 1] for t in toks if t.channel == 0 and (not l.at or t.start < l.at[0])]
    except drive.Hang:
        raise
    except Exception as ex:
        r["bad"] = -9
        r["why"] = repr(ex)[:100]
    try:
        lx = FCSLexer(InputStream(x))
        ps = FCSParser(CommonTokenStream(lx))
        l = Listener()
        for y in (lx, ps):
            y.removeErrorListeners()
            y.addErrorListener(l)
        ps.query()
        r["acc"] = "F" if l.n or ps.getNumberOfSyntaxErrors() else "T"
    except drive.Hang:
        raise
    except Exception as ex:
        r["why"] = repr(ex)[:100]
    return r


def conform(ctx, tb, recs, label):
    sp = os.path.join(ctx.tmp, "gram.json")
    with open(sp, "w") as f:
        json.dump(tb.suite(), f)
    path = os.path.join(ctx.tmp, "gram.ndjson")
    good = [r for r in recs if not isinstance(r, tuple)]
    for r in recs:
        if isinstance(r, tuple):
            ctx.fail("hang", {"why": r[1], "source": label})
    with open(path, "w") as f:
        for r in good:
            f.write(json.dumps({k: r[k] for k in ("x", "tk", "bad", "acc")}, separators=(",", ":")) + "\n")
    for line in ctx.tlc("GramConform", env={"SUITE": sp, "TRACE": path}).lines:
        r = good[line["i"] - 1]
        ctx.fail(",".join(sorted(line["bad"])), {"text": text(r["x"]), "shipped": {"tokens": r["tk"], "bad": r["bad"], "accepted": r["acc"], "why": r.get("why")}, "grammar file": line["want"], "source": label})


def lexing(ctx, tb):
    """unbounded product with the compiled network; the real lexer on the way to every state"""
    cl = g4.classes(tb.t)
    chars = [c[0] for c in cl] + ([c[-1] for c in cl if len(c) > 1] if thorough() else [])
    sp = os.path.join(ctx.tmp, "lex.json")
    with open(sp, "w") as f:
        json.dump(tb.suite(g=tb.rules, a=tb.arules if tb.arules is not None else tb.rules, chars=chars), f)
    res = ctx.tlc("LexProduct", env={"SUITE": sp})
    ctx.models[-1]["suite"] = {"name": "token definitions, any length", "classes of characters": len(cl), "network": tb.arules is not None}
    xs = {text(o["x"]) for o in res.lines}
    differ = [o for o in res.lines if not o["same"]]
    # every state's text followed by one more character of every class, and by a token
    more = set()
    rng = gen.rng(SEED, "C25", "lex")
    for x in sorted(xs):
        more.add(x)
        for c in rng.sample(cl, len(cl) if thorough() else 12):
            more.add(x + chr(rng.choice(c)))
        for w in ("a", " s", "''", '"\\', "'", "0", "-b", "!="):
            more.add(x + w)
    ctx.cov["token states"] = {"states": len(res.lines), "differences to the network": len(differ), "texts replayed": len(more)}
    recs = drive.pmap(observe, sorted(more))
    ctx.traces += len(recs)
    if recs:
        ctx.sample({"token text": sorted(more)[len(more) // 2]})
    conform(ctx, tb, recs, "token definitions")


WORDS = ["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":", "within", "s", "i", "ab", "7", "'x'"]


def phrases(ctx, tb, depth, words, name):
    sp = os.path.join(ctx.tmp, "phr.json")
    with open(sp, "w") as f:
        json.dump(tb.suite(astart=tb.astart, words=[cps(w) for w in words], depth=depth, extra=4, long=60), f)
    res = ctx.tlc("ParseProduct", env={"SUITE": sp})
    t = time.time()
    todo = {}
    for o in res.lines:
        x = " ".join(words[j - 1] for j in o["h"])
        todo[x] = o["acc"]
        for j, e, acc in o["t"]:
            todo[(x + " " + words[j - 1] + text(e)).strip()] = acc
    ctx.models[-1]["suite"] = {"name": name, "depth": depth, "words": len(words)}
    xs = sorted(todo)
    rs = drive.pmap(accepts, xs)
    bad = [x for x, r in zip(xs, rs) if r != ("T" if todo[x] else "F")]
    ctx.traces += len(xs)
    ctx.cov.setdefault("phrases", []).append({"name": name, "states": len(res.lines), "grammar file differs from the automaton": sum(not o["same"] for o in res.lines),
                                              "network differs": sum(not o["net"] for o in res.lines), "texts replayed": len(xs), "accepted": sum(todo.values()), "replay_s": round(time.time() - t, 1), "adjudicated": len(bad)})
    ctx.sample({"phrase": xs[len(xs) // 2]})
    if bad:
        bad.sort(key=len)
        conform(ctx, tb, drive.pmap(observe, bad[:600]), name)


def accepts(x):
    return observe(x)["acc"]


def texts(n):
    rng = gen.rng(SEED, "C25", "texts")
    out = []
    while len(out) < n:
        g = Gen(rng, layout=rng.choice(["plain", "wild"]), chars=rng.choice(["ascii", "ucd", "ascii"]), badflags=0.1, badrange=0.1, badcp=0.02, budget=5)
        k = rng.random()
        x = g.query() if k < 0.4 else g.mutant() if k < 0.65 else g.charmutant() if k < 0.9 else g.soup()
        if len(x) < 90 and nesting(x) <= 3:    # all derivations at once: six times the work per level
            out.append(x)
    return out


def nesting(x):
    d = m = 0
    for c in x:
        if c in "([":
            d += 1
            m = max(m, d)
        elif c in ")]":
            d -= 1
    return m


def c25(ctx):
    tb = Tables()
    lexing(ctx, tb)
    phrases(ctx, tb, scale(3, 4), WORDS, "phrases of any length")
    xs = texts(scale(2500, 25000))
    recs = drive.pmap(observe, xs)
    ctx.traces += len(recs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "random texts", "texts": len(xs), "accepted": sum(r["acc"] == "T" for r in recs if not isinstance(r, tuple))})
    conform(ctx, tb, recs, "random texts")


ALL = {"C25": c25}
