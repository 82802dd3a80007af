"""C23: the low-level parse, its trees and their walks."""
import io
import json
import os
import time
from contextlib import redirect_stderr

from antlr4 import ParseTreeWalker, Token
from antlr4.tree.Tree import TerminalNode

import drive
import gen
from base import SEED, cps, text, thorough
from parsefam import corpus, hang_rec, req, scale, suite_json
from props_parse import RAW, mk
import fcsql
from fcsql import parser as P
from fcsql.FCSLexer import FCSLexer
from fcsql.FCSParser import FCSParser
from fcsql.FCSParserListener import FCSParserListener
from fcsql.FCSParserVisitor import FCSParserVisitor

TOK = {"L_PAREN": "(", "R_PAREN": ")", "L_SQUARE_BRACKET": "[", "R_SQUARE_BRACKET": "]", "OR": "|", "AND": "&", "NOT": "!", "FWD_SLASH": "/",
       "L_CURLY_BRACKET": "{", "R_CURLY_BRACKET": "}", "Q_ONE_OR_MORE": "+", "Q_ZERO_OR_MORE": "*", "Q_ZERO_OR_ONE": "?", "Q_COMMA": ",",
       "OPERATOR_EQ": "=", "OPERATOR_NE": "!=", "COLON": ":", "WITHIN": "WITHIN", "SIMPLE_WITHIN_SCOPE": "SCOPE", "REGEXP_FLAGS": "FLAGS",
       "IDENTIFIER": "IDENT", "INTEGER": "INT", "REGEXP": "REGEXP"}
RULES = ["query", "main_query", "query_disjunction", "query_sequence", "query_group", "query_simple", "quantifier", "query_implicit", "query_segment",
         "within_part", "within_part_simple", "expression", "expression_or", "expression_and", "expression_group", "expression_not",
         "expression_basic", "attribute", "qualifier", "identifier", "regexp", "regexp_pattern", "regexp_flag"]
CTX = {r: getattr(FCSParser, r.capitalize() + "Context", None) for r in RULES}
BYTYPE = {getattr(FCSLexer, k): v for k, v in TOK.items() if hasattr(FCSLexer, k)}
ACCESS = RULES + [k for k in TOK]


def label(n):
    if isinstance(n, TerminalNode):
        ty = n.symbol.type
        return "EOF" if ty == Token.EOF else BYTYPE.get(ty, f"?{ty}")
    name = FCSParser.ruleNames[n.getRuleIndex()]
    c = CTX.get(name)
    return name if c is None or isinstance(n, c) else f"?{type(n).__name__}"


def flat(root):
    """nodes in document order [depth, label, s, e], the rule nodes in that order, links ok"""
    out, rules, link = [], [], [True]
    num = {}

    def go(n, d):
        if isinstance(n, TerminalNode):
            s = n.symbol
            out.append([d, label(n), s.start, s.stop + 1])
            return
        rules.append(n)
        num[id(n)] = len(rules)
        me = len(out)
        out.append([d, label(n), -1, -1])
        for k in n.getChildren():
            if k.parentCtx is not n:
                link[0] = False
            go(k, d + 1)
        if len(out) > me + 1:
            out[me][2:] = [n.start.start, n.stop.stop + 1]
    go(root, 0)
    return out, rules, num, link[0] and root.parentCtx is None


def listener(num, ev, every):
    d = {}
    for r in RULES:
        d["enter" + r.capitalize()] = lambda self, ctx, r=r: ev.append([r, num.get(id(ctx), 0)])
        d["exit" + r.capitalize()] = lambda self, ctx, r=r: ev.append([r, -num.get(id(ctx), 0)])
    d["enterEveryRule"] = lambda self, ctx: every.append([label(ctx), num.get(id(ctx), 0)])
    d["exitEveryRule"] = lambda self, ctx: every.append([label(ctx), -num.get(id(ctx), 0)])
    return type("L", (FCSParserListener,), d)()


def visitor(num, rules, seen, named=True, children=False):
    d = {}

    def own(r):
        def f(self, ctx):
            seen.append([r, num.get(id(ctx), 0)] if named else num.get(id(ctx), 0))
            return getattr(FCSParserVisitor, "visit" + r.capitalize())(self, ctx)
        return f
    for r in rules:
        d["visit" + r.capitalize()] = own(r)
    if children:
        def vc(self, node):
            seen.append(num.get(id(node), 0))
            return FCSParserVisitor.visitChildren(self, node)
        d["visitChildren"] = vc
    return type("V", (FCSParserVisitor,), d)()


def accessors(rules):
    out = []
    for j, n in enumerate(rules):
        kids = list(n.getChildren())
        at = {id(k): p + 1 for p, k in enumerate(kids)}
        for a in ACCESS:
            f = getattr(n, a, None)
            if f is None or not callable(f):
                continue
            kind = TOK.get(a, a)
            v = f()
            if isinstance(v, list):
                out.append([j + 1, kind, True, [at.get(id(k), 0) for k in v]])
                for i, k in enumerate(v):     # the accessor with an index
                    out.append([j + 1, kind, True, [at.get(id(f(y)), 0) for y in range(len(v))]]) if i == 0 else None
            else:
                out.append([j + 1, kind, False, [-1 if v is None else at.get(id(v), 0)]])
    return out


def high(x):
    p = P.QueryParser()
    try:
        p.parse(x)
        return "ok"
    except P.QueryParserException:
        return "syntax" if p.errors else "static"
    except drive.Hang:
        raise
    except Exception:
        return "other"


def low(x, full=True):
    r = {"x": cps(x), "o": "other", "hi": "-", "cst": [], "link": True, "tour": [], "every": [], "vis": [], "gen": [], "one": ["query", []], "acc": [], "why": ""}
    with redirect_stderr(io.StringIO()):
        try:
            root = fcsql.antlr_parse(x)
            r["cst"], rules, num, r["link"] = flat(root)
            ParseTreeWalker.DEFAULT.walk(listener(num, r["tour"], r["every"]), root)
            if full:
                visitor(num, RULES, r["vis"]).visit(root)
                visitor(num, [], r["gen"], children=True).visit(root)
                r["one"][0] = RULES[(len(x) * 7 + sum(map(ord, x))) % len(RULES)]
                visitor(num, [r["one"][0]], r["one"][1], named=False).visit(root)
                r["acc"] = accessors(rules)
            r["o"] = "ok"
        except fcsql.SyntaxError as ex:
            r["o"] = "syntax"
            r["why"] = str(ex)[:100]
        except drive.Hang:
            raise
        except Exception as ex:
            r["o"] = "other"
            r["why"] = f"{type(ex).__name__}: {ex}"[:200]
        r["hi"] = high(x)
    return r


def differs(a):
    x, o, cst, tour = a
    r = low(x)
    if r["o"] == o and (r["hi"] == "syntax") == (o == "syntax") and (o != "ok" or (r["cst"] == cst and r["tour"] == tour and r["every"] == tour and r["link"]
                                                                                  and r["vis"] == [e for e in tour if e[1] > 0])):
        return None
    return r


KEEP = ("x", "o", "hi", "cst", "link", "tour", "every", "vis", "gen", "one", "acc")


def conform(ctx, xs, recs, label):
    good = []
    for x, r in zip(xs, recs):
        if isinstance(r, tuple):
            ctx.fail("hang", {"query": x, "why": r[1], "source": label})
        else:
            good.append(r)
    for part in range(0, len(good), 20000):
        chunk = good[part:part + 20000]
        path = os.path.join(ctx.tmp, f"cst{part}.ndjson")
        with open(path, "w") as f:
            for r in chunk:
                f.write(json.dumps({k: r[k] for k in KEEP}, separators=(",", ":")) + "\n")
        for line in ctx.tlc("CstConform", env={"TRACE": path}).lines:
            r = chunk[line["i"] - 1]
            ctx.fail(",".join(sorted(line["bad"])), {"query": text(r["x"]), "observed": {k: r[k] for k in KEEP if k != "x"}, "why": r["why"], "specified": line["want"], "source": label})
        os.unlink(path)


def suite(ctx, name, alph, maxlen, prefix="", suffix="", sep=" "):
    path = suite_json(ctx, name, alph, maxlen, prefix=prefix, suffix=suffix, sep=sep)
    res = ctx.tlc("CstSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "alphabet": alph, "maxlen": maxlen, "prefix": prefix, "suffix": suffix}
    jobs = []
    for d in res.lines:
        x = text(d["x"])
        jobs.append((x + suffix, d["o"], d["cst"], d["tour"]))
        for i, _, _ in d["d"]:
            jobs.append((x + sep + alph[i - 1], "syntax", [], []))
    t = time.time()
    rs = drive.pmap(differs, jobs)
    bad = [(j[0], r) for j, r in zip(jobs, rs) if r is not None]
    ctx.traces += len(jobs)
    ctx.cov.setdefault("suites", []).append({"name": name, "obligations": len(jobs), "accepted": sum(j[1] == "ok" for j in jobs), "replay_s": round(time.time() - t, 1), "adjudicated": len(bad)})
    ctx.sample({"suite": name, "query": jobs[len(jobs) // 2][0]})
    bad.sort(key=lambda b: len(b[0]))
    conform(ctx, [b[0] for b in bad[:600]], [b[1] for b in bad[:600]], "suite " + name)


def c23(ctx):
    suite(ctx, "tokens", RAW, scale(4, 5))
    suite(ctx, "conditions", ['a="x"', 'within:c!="y"/i', "&", "|", "!", "(", ")"], scale(5, 7), prefix="[", suffix="]")
    suite(ctx, "items", ['"x"', "[]", "+", "{2,1}", "(", ")", "|", "within", "s"], scale(5, 7))

    def make(rng):
        prof = dict(chars="ascii", badcp=0.1, badflags=0.3, badrange=0.3, layout=rng.choice(["plain", "wild"]))
        q = mk(prof, deep_p=0.08, mutants=0.45)(rng)
        return req(q["x"]) if len(q["x"]) < 400 else None
    xs = [q["x"] for q in corpus("C23", scale(5000, 40000), make)]
    recs = drive.pmap(low, xs)
    ctx.traces += len(xs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "random and mutated texts", "texts": len(xs), "accepted": sum(isinstance(r, dict) and r["o"] == "ok" for r in recs)})
    conform(ctx, xs, recs, "random texts")


ALL = {"C23": c23}
