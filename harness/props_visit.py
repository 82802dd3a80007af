"""C12: visitors."""
import itertools
import json
import os
import random
import time

import drive
from base import SEED, cps, thorough
from drive import P
from parsefam import corpus, scale
from project import KINDS, kind
from props_nav import CODE, grids, heap, trace_check, vary

CLASSNAME = {"Expression": "Expression", "Wildcard": "ExpressionWildcard", "Group": "ExpressionGroup", "Or": "ExpressionOr", "And": "ExpressionAnd", "Not": "ExpressionNot",
             "QuerySegment": "QuerySegment", "QueryGroup": "QueryGroup", "QuerySequence": "QuerySequence", "QueryDisjunction": "QueryDisjunction",
             "QueryWithWithin": "QueryWithWithin", "SimpleWithin": "SimpleWithin"}
ALLK = list(CLASSNAME)


def plain(r):
    return [] if r is None else r


def visitor(V, sty, number, log, adapter, kindnames, levels):
    """a visitor class as the program says.  kindnames: handlers named after the node type"""
    base = P.QueryVisitorAdapter if adapter else P.QueryVisitor
    ns = [{} for _ in range(levels)]
    box = {}
    used = [0]

    def handler(name, s):
        def f(self, node):
            n = number.get(id(node), -7)
            log.append(["H", n])
            if s == "stop":
                return [n]
            if s == "descend":
                return self.visitChildren(node)
            if s == "super":
                return getattr(super(box[name], self), name)(node)
            if s == "post":
                return plain(self.visitChildren(node)) + [n]
            if s == "rev":
                r = []
                for j, c in enumerate(reversed(list(node.children))):
                    r = r + plain(self.visit(c) if j % 2 else c.accept(self))
                return r + [n]
            return self.visitChildren(node.children[0]) if node.children else [n]
        f.__name__ = name
        return f
    for j, (k, s) in enumerate(sorted(sty.items())):
        if s in ("none", "?"):
            continue
        name = "visit_" + (k if kindnames else CLASSNAME[k])
        ns[j % levels][name] = handler(name, s)

    def default(self):
        return [] if V["df"] == "empty" else [0]

    def aggregate(self, aggregate, nextResult):
        log.append(["A", enc(aggregate), enc(nextResult)])
        if V["ag"] == "last":
            return nextResult
        if V["ag"] == "concat":
            return plain(aggregate) + plain(nextResult)
        if V["ag"] == "first":
            return nextResult if aggregate is None else aggregate
        return [len(plain(aggregate)) + len(plain(nextResult)) + 1]

    def cont(self, node, currentResult):
        log.append(["S", number.get(id(node), -7), enc(currentResult)])
        used[0] += 1
        c = V["ct"]
        if c[0] == "short":
            return len(plain(currentResult)) < c[1]
        if c[0] == "not":
            return kind(node) != c[1]
        if c[0] == "budget":
            return used[0] <= c[1]
        return True
    if V["df"] != "none":
        ns[0]["defaultResult"] = default
    if V["oa"]:
        ns[-1]["aggregateResult"] = aggregate
    if V["os"]:
        ns[0]["shouldVisitNextChild"] = cont
    cls = base
    for j, d in enumerate(ns):
        cls = type("Client%d" % j, (cls,), d)
        for name in d:
            box[name] = cls
    return cls()


def enc(r):
    if r is None:
        return [-1]
    return r if isinstance(r, list) and all(type(x) is int for x in r) else [-9]


def traverse(root, nodes, V, sty, entry, adapter, kindnames, levels):
    number = {id(n): j + 1 for j, n in enumerate(nodes)}
    log = []
    try:
        v = visitor(V, sty, number, log, adapter, kindnames, levels)
        r = v.visit(root) if entry == "visit" else root.accept(v) if entry == "accept" else v.visitChildren(root)
        return log, enc(r), ""
    except drive.Hang:
        raise
    except BaseException as ex:
        return log, [-8], type(ex).__name__ + ": " + str(ex)[:100]


def legal(sty, adapter, kindnames):
    return adapter or "super" not in sty.values()


def differs(a):
    o, x, V, entry, j = a
    root = drive.make_parser(loc=False).parse(x)
    nodes = heap(root)
    bad = []
    for adapter, kn in ((True, False), (False, False), (False, True)):
        if not legal(o["sty"], adapter, kn):
            continue
        log, r, why = traverse(root, nodes, V, o["sty"], entry, adapter, kn, 1 + (j + adapter) % 3)
        if log != o["log"] or r != o["r"]:
            bad.append({"base": "QueryVisitorAdapter" if adapter else "QueryVisitor", "names": "kind" if kn else "class", "log": log, "result": r, "why": why})
    return bad


def hook(df="none", ag="last", oa=False, ct=("always",), os=False):
    return dict(df=df, ag=ag, oa=oa or ag != "last", ct=list(ct), os=os or ct[0] != "always")


def suite(ctx, name, queries, hooks, styles, entries):
    path = __import__("os").path.join(ctx.tmp, f"visit-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(queries=[cps(x) for x in queries], hooks=hooks, styles=styles, entries=entries), f)
    res = ctx.tlc("VisitSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "queries": queries, "hooks": len(hooks), "styles": styles}
    t = time.time()
    jobs = [(o, queries[o["q"] - 1], hooks[o["h"] - 1], entries[o["e"] - 1], j) for j, o in enumerate(res.lines)]
    rs = drive.pmap(differs, jobs)
    ctx.traces += len(jobs)
    ctx.cov.setdefault("suites", []).append({"name": name, "traversals": len(jobs), "replay_s": round(time.time() - t, 1)})
    if jobs:
        o = jobs[len(jobs) // 2]
        ctx.sample({"suite": name, "query": o[1], "handlers": o[0]["sty"], "log": o[0]["log"][:20]})
    for (o, x, V, entry, _), b in zip(jobs, rs):
        if isinstance(b, tuple):
            ctx.fail("hang", {"query": x})
        elif b:
            ctx.fail("traversal", {"query": x, "settings": V, "handlers": o["sty"], "entry": entry, "specified": {"log": o["log"], "result": o["r"]}, "observed": b[:1], "suite": name})


HOOKS = [hook(), hook(ag="concat", df="empty", os=True), hook(ag="len", df="zero", ct=("short", 2)), hook(oa=True, ct=("budget", 3)), hook(ag="first", ct=("short", 1)),
         hook(ag="concat", ct=("not", "QuerySequence"))]
TREES = ['"a"', "[]", "[a='1']", "[!a='1']", "[(a='1')]", "[a='1' & b='2' & c='3']", "[a='1' | !b='2' | c='3']", '"a" [] "c"', '"a" | "b" | []', '("a")', '("a" "b" | [])+', '"a" within s',
         '("a") | "b" "c" within p', "[a='1' & (b='2' | !c='3')]", '[] ([]{2} [a="b" | c="d"]) "x"', '"a" | "b" | "c" within s', '"a" ("b" | [c="1" & !(d="2")] []) within t',
         "[(a='1' & b='2') | c='3']", "[!!(a='1')] []", '(("a" | "b") "c" | "d") "e" | "f"']


def observe_visit(req):
    rng = random.Random(req["seed"])
    try:
        root = drive.make_parser(loc=False).parse(req["x"])
    except P.QueryParserException:
        return None
    except drive.Hang:
        raise
    except BaseException:
        return None
    nodes = heap(root)
    number = {id(n): j + 1 for j, n in enumerate(nodes)}
    if len(nodes) > 150:
        return None
    styles = rng.choice([["none"], ["descend"], ["none", "descend"], ["none", "descend", "post"], ["none", "descend", "stop"], ["none", "post", "rev", "skip", "descend", "stop"]])
    adapter = rng.random() < 0.6
    kn = not adapter and rng.random() < 0.5
    sty = {k: rng.choice(styles) for k in ALLK}
    if adapter:
        sty = {k: "super" if s == "descend" and rng.random() < 0.5 else s for k, s in sty.items()}
    V = dict(df=rng.choice(["none", "empty", "zero"]), ag=rng.choice(["last", "concat", "first", "len"]), ct=rng.choice([["always"], ["always"], ["short", rng.randint(1, 4)],
             ["not", rng.choice(ALLK)], ["budget", rng.randint(1, 2 * len(nodes))]]))
    V["oa"] = V["ag"] != "last" or rng.random() < 0.5
    V["os"] = V["ct"][0] != "always" or rng.random() < 0.5
    en = rng.choice(["visit", "accept", "children"])
    log, r, why = traverse(root, nodes, V, sty, en, adapter, kn, rng.randint(1, 3))
    return {"x": req["x"], "h": [[kind(n), [number[id(c)] for c in n.children]] for n in nodes], "V": V, "sty": sty, "en": en, "log": log, "r": r, "why": why}


def c12(ctx):
    suite(ctx, "handler subsets", TREES if thorough() else TREES[:12] + TREES[13:15] + TREES[18:20], HOOKS[:2], ["none", "descend", "stop"], ["visit"])
    suite(ctx, "hooks", TREES[:scale(16, 20)], HOOKS, ["none", "post"], scale(["accept"], ["accept", "children"]))
    suite(ctx, "styles", TREES[:scale(13, 16)], HOOKS[1:4], ["super", "rev", "skip"], ["visit", "children"])
    t = time.time()
    reqs = [dict(x=x, seed=j) for j, x in enumerate(grids() * 3)] + corpus("C12", scale(6000, 60000), lambda rng: dict(vary(rng, within=0.5), api=rng.random()))
    recs = []
    for q, r in zip(reqs, drive.pmap(observe_visit, reqs)):
        if isinstance(r, tuple):
            ctx.fail("hang", {"query": q["x"]})
        elif r is not None:
            recs.append(r)
    ctx.traces += len(recs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "random visitors on random trees", "traversals": len(recs), "events": sum(len(r["log"]) for r in recs),
                                               "replay_s": round(time.time() - t, 1)})
    trace_check(ctx, "VisitConform", recs, ("h", "V", "sty", "en", "log", "r"), "random")


ALL = {"C12": c12}
