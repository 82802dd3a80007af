"""C11, C24: hand-built and parsed nodes, navigation and predicates."""
import json
import os
import random
import time

import drive
import gen
from base import SEED, cps, text, thorough
from drive import P, tri
from gen import Gen
from parsefam import corpus, scale
from project import KINDS, NOTEXT, flags, kind, op
import project

CLS = {k: c for c, k in KINDS}
TYPE = {"Expression": "EXPRESSION", "Wildcard": "EXPRESSION_WILDCARD", "Group": "EXPRESSION_GROUP", "Or": "EXPRESSION_OR", "And": "EXPRESSION_AND", "Not": "EXPRESSION_NOT",
        "QuerySegment": "QUERY_SEGMENT", "QueryGroup": "QUERY_GROUP", "QuerySequence": "QUERY_SEQUENCE", "QueryDisjunction": "QUERY_DISJUNCTION",
        "QueryWithWithin": "QUERY_WITH_WITHIN", "SimpleWithin": "SIMPLE_WITHIN"}
TYPE = {k: getattr(P.QueryNodeType, v) for k, v in TYPE.items()}
CODE = {v: k for k, v in TYPE.items()}
NAMES = ["", "Node", "Expression", "Wildcard", "Group", "Or", "And", "Not", "QuerySegment", "QueryGroup", "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin"]
FILTER = dict(CLS, **{"": None, "Node": P.QueryNode})
FLAGOF = {1: P.RegexFlag.CASE_INSENSITIVE, 2: P.RegexFlag.CASE_SENSITIVE, 4: P.RegexFlag.LITERAL_MATCHING, 8: P.RegexFlag.IGNORE_DIACRITICS}
OPOF = {"Eq": P.Operator.EQUALS, "Ne": P.Operator.NOT_EQUALS}
ACC = {"QuerySegment": ["get_expression"], "QueryGroup": ["get_content"], "QueryWithWithin": ["get_query", "get_within"]}


def fresh(s):
    """a string object that is nobody else's"""
    return "".join([s[:1], s[1:]]) if len(s) > 1 else str(bytes(s, "utf-8"), "utf-8")


class Unit:
    """constructs nodes as the programs of NavSuite say"""

    def __init__(self):
        self.nodes, self.stack, self.n = [], [], 0

    def step(self, o):
        what, t, k = o
        self.n += 1
        if what == "leaf":
            n = P.Expression(None, "l%d" % self.n, P.Operator.EQUALS, "v", None) if t == "Expression" else P.ExpressionWildcard() if t == "Wildcard" \
                else P.SimpleWithin(P.SimpleWithinScope.SENTENCE)
        elif what == "wrap":
            c = self.stack.pop()
            n = CLS[t](c, 1, 1) if t in ("QuerySegment", "QueryGroup") else CLS[t](c)
        else:
            kids = self.stack[len(self.stack) - k:]
            del self.stack[len(self.stack) - k:]
            if what == "nary":
                n = CLS[t](kids)
            elif what == "within":
                n = P.QueryWithWithin(kids[0], kids[1] if k == 2 else None)
            else:
                n = P.ExpressionWildcard(children=kids[:-1] or None, child=kids[-1])
        self.nodes.append(n)
        self.stack.append(n)
        return n


def ask(f, number):
    try:
        v = f()
    except drive.Hang:
        raise
    except BaseException as ex:
        return "exc:" + type(ex).__name__
    return 0 if v is None else number.get(id(v), "stranger")


def nav_differs(o):
    """replay one program; what differs"""
    u = Unit()
    try:
        for s in o["p"]:
            u.step(s)
    except drive.Hang:
        raise
    except BaseException as ex:
        return ["construction: " + repr(ex)]
    number = {id(n): j + 1 for j, n in enumerate(u.nodes)}
    bad = []
    for j, n in enumerate(u.nodes):
        p = 0 if n.parent is None else number.get(id(n.parent), "stranger")
        if p != o["par"][j]:
            bad.append(f"node {j + 1}: parent {p}, specified {o['par'][j]}")
        k = [number.get(id(c), "stranger") for c in n.children]
        if k != o["k"][j]:
            bad.append(f"node {j + 1}: children {k}, specified {o['k'][j]}")
        if n.child_count != len(o["k"][j]):
            bad.append(f"node {j + 1}: child_count {n.child_count}")
        t = kind(n)
        if n.node_type is not TYPE.get(t):
            bad.append(f"node {j + 1}: a {t} has node type {n.node_type!r}")
    n, cc = u.nodes[-1], len(o["k"][-1])
    want = {(c, i): x for c, i, x in o["g"]}
    for c, name in enumerate(NAMES):
        f = FILTER[name]
        for i in range(-2, cc + 2):
            w = want.get((c + 1, i), 0)
            got = [ask(lambda: n.get_child(i, f), number), ask(lambda: n.get_child(idx=i, clazz=f), number)] + ([ask(lambda: n.get_child(i), number)] if f is None else [])
            if any(g != w for g in got):
                bad.append(f"get_child({i}, {name or None}) = {got}, specified {w}")
        w, l = want.get((c + 1, 0), 0), o["l"][c]
        got = [ask(lambda: n.get_first_child(f), number)] + ([ask(lambda: n.get_first_child(), number)] if f is None else [])
        if any(g != w for g in got):
            bad.append(f"get_first_child({name or None}) = {got}, specified {w}")
        got = [ask(lambda: n.get_last_child(clazz=f), number)] + ([ask(lambda: n.get_last_child(), number)] if f is None else [])
        if any(g != l for g in got):
            bad.append(f"get_last_child({name or None}) = {got}, specified {l}")
    for name, w in o["a"]:
        g = ask(lambda: getattr(n, name)(), number)
        if g != w:
            bad.append(f"{name}() = {g}, specified {w}")
    if kind(n) in ("And", "Or"):
        try:
            g = [number.get(id(c), "stranger") for c in n.operands]
        except Exception as ex:
            g = repr(ex)
        if g != o["k"][-1]:
            bad.append(f"operands = {g}, specified {o['k'][-1]}")
    return bad


def nav_suite(ctx, name, leaf, wrap, nary, within, wild, maxops, maxstack, minary=0):
    path = os.path.join(ctx.tmp, f"nav-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(leaf=leaf, wrap=wrap, nary=nary, within=within, wild=wild, maxops=maxops, maxstack=maxstack, minary=minary), f)
    res = ctx.tlc("NavSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "maxops": maxops}
    t = time.time()
    rs = drive.pmap(nav_differs, res.lines)
    ctx.traces += len(rs)
    ctx.cov.setdefault("suites", []).append({"name": name, "programs": len(rs), "answers": sum(14 * (len(o["k"][-1]) + 6) for o in res.lines), "replay_s": round(time.time() - t, 1)})
    ctx.sample({"suite": name, "program": res.lines[len(res.lines) // 2]["p"]})
    for o, b in zip(res.lines, rs):
        if b:
            ctx.fail("hand-built", {"program": o["p"], "differences": list(b)[:6], "suite": name})


def heap(root):
    """number the nodes reached through children, each object once per occurrence"""
    nodes, todo = [], [root]
    while todo and len(nodes) < 4000:
        n = todo.pop()
        nodes.append(n)
        try:
            todo.extend(reversed(list(n.children)))
        except Exception:
            pass
    return nodes


def observe_nav(req):
    x = req["x"]
    r = {"x": x, "h": [], "q": [], "o": [], "pr": True}
    try:
        root = drive.make_parser(loc=req["loc"]).parse(x)
    except P.QueryParserException:
        return None
    except drive.Hang:
        raise
    except BaseException as ex:
        return None
    nodes = heap(root)
    number = {}
    for j, n in enumerate(nodes):
        number.setdefault(id(n), j + 1)
    rng = random.Random(req["seed"])
    for j, n in enumerate(nodes):
        kids = [number.get(id(c), -2) for c in n.children]
        par = 0 if n.parent is None else number.get(id(n.parent), -2)
        cc = ask0(lambda: n.child_count)
        r["h"].append([kind(n), CODE.get(n.node_type, "?") if isinstance(n.node_type, P.QueryNodeType) else "?", par, kids, cc])
        t = kind(n)
        if t in ("And", "Or"):
            try:
                r["o"].append([number.get(id(c), -2) for c in n.operands])
            except Exception:
                r["o"].append([-4])
        else:
            r["o"].append([-1])
        names = ["", "Node"] + sorted({kind(c) for c in n.children}) + rng.sample(NAMES, 1)
        for name in dict.fromkeys(m for m in names if m in FILTER):
            f = FILTER[name]
            idx = sorted({-1, 0, 1, len(kids) - 1, len(kids), rng.randint(-3, len(kids) + 2)})
            for i in idx:
                r["q"].append(["g", j + 1, i, name, ask1(lambda: n.get_child(i, f), number)])
            r["q"].append(["f", j + 1, 0, name, ask1(lambda: n.get_first_child(f), number)])
            r["q"].append(["l", j + 1, 0, name, ask1(lambda: n.get_last_child(f), number)])
        for a in ACC.get(t, ()):
            r["q"].append([a, j + 1, 0, "", ask1(lambda: getattr(n, a)(), number)])
    return r


def ask1(f, number):
    v = ask(f, number)
    return v if type(v) is int else -9


def ask0(f):
    try:
        v = f()
        return v if type(v) is int else -9
    except Exception:
        return -9


def trace_check(ctx, module, recs, keep, label):
    for part in range(0, len(recs), 20000):
        chunk = recs[part:part + 20000]
        path = os.path.join(ctx.tmp, "nav.ndjson")
        with open(path, "w") as f:
            for r in chunk:
                f.write(json.dumps({k: r[k] for k in keep}, separators=(",", ":")) + "\n")
        res = ctx.tlc(module, env={"TRACE": path})
        os.unlink(path)
        for line in res.lines:
            r = chunk[line["i"] - 1]
            ctx.fail(",".join(sorted(line["bad"])), {"query": r["x"], "source": label, "specified": line["want"], "observed": {k: r[k] for k in keep} if len(r["x"]) < 60 else "..."})


def grids():
    """conditions and operands at every position"""
    out = []
    for k in range(1, 9):
        ls = ['a="%d"' % i for i in range(k)]
        for sep in (" & ", " | "):
            out.append("[" + sep.join(ls) + "]")
            out.append("[" + sep.join("!" + l if i % 3 == 1 else f"({l})" if i % 3 == 2 else l for i, l in enumerate(ls)) + "]")
        out.append(" ".join('"%d"' % i for i in range(k)))
        out.append(" | ".join('"%d"' % i if i % 2 else '("%d")' % i for i in range(k)))
        out.append(" ".join('"%d"' % i if i % 2 else '("%d" | [])+' % i for i in range(k)) + " within s")
        out.append("[" + "!" * k + "a='b']")
        out.append("[" + "(" * k + "a='b'" + ")" * k + "]")
        out.append("(" * k + "'b'" + ")" * k)
    return out


def vary(rng, **kw):
    g = Gen(rng, layout="plain", badflags=0, badrange=0, badcp=0, chars="ascii", lits=dict(plain=1, uni=0, esc=0, dict=0), budget=rng.choice([4, 9, 20]),
            items=[1, 1, 2, 3, 5], alts=[1, 1, 2, 3, 4], ands=[1, 1, 2, 3, 5], ors=[1, 1, 2, 3, 4], group=0.25, egroup=0.3, **kw)
    return dict(x=g.query(), loc=rng.random() < 0.5, seed=rng.random(), di="", op="", nf="")


def c11(ctx):
    leafs, wraps, naries = ["Expression", "Wildcard", "SimpleWithin"], ["Group", "Not", "QuerySegment", "QueryGroup"], ["Or", "And", "QueryDisjunction", "QuerySequence"]
    nav_suite(ctx, "every constructor", leafs, wraps, naries, True, True, 3, 3)
    nav_suite(ctx, "mixed children", ["Expression", "Wildcard"], ["Not"], ["And", "QuerySequence"], False, True, scale(5, 6), 4)
    nav_suite(ctx, "long lists", ["Expression", "Wildcard", "SimpleWithin"], [], ["QueryDisjunction"], False, False, scale(8, 9), scale(7, 8), minary=3)
    nav_suite(ctx, "queries", ["Expression"], ["QuerySegment", "QueryGroup"], ["QuerySequence", "QueryDisjunction"], True, False, scale(5, 6), 3)
    t = time.time()
    reqs = [dict(x=x, loc=True, seed=1) for x in grids()] + corpus("C11", scale(1500, 40000), vary)
    recs = []
    for q, r in zip(reqs, drive.pmap(observe_nav, reqs)):
        if isinstance(r, tuple):
            ctx.fail("hang", {"query": q["x"]})
        elif r is not None:
            recs.append(r)
    if len(recs) < len(reqs) * 0.5:
        ctx.cov["note"] = "fewer than half of the generated queries were accepted"
    ctx.traces += len(recs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "parsed trees", "trees": len(recs), "nodes": sum(len(r["h"]) for r in recs), "calls": sum(len(r["q"]) for r in recs),
                                               "largest": max((len(r["h"]) for r in recs), default=0), "replay_s": round(time.time() - t, 1)})
    trace_check(ctx, "NavConform", recs, ("h", "q", "o", "pr"), "parsed")


# ---- C24 ---------------------------------------------------------------------
def mkset(fl, empty):
    s = {FLAGOF[b] for b in (1, 2, 4, 8) if fl & b}
    return s if s or empty else None


def opt(t):
    return None if t == NOTEXT else fresh(text(t))


def tf(v):
    return "T" if v else "F"


def cond_differs(a):
    o, aq, aid, j = a
    bad = []
    new = o["p"][0]
    n = P.Expression(opt(new[1]), opt(new[2]), OPOF[new[3]], "v", mkset(new[4], j % 2))
    if j % 3 == 0:
        P.QuerySegment(P.ExpressionAnd([n, P.ExpressionWildcard()]), 1, 1)
    for what, v in o["p"][1:]:
        if what == "q":
            n.qualifier = opt(v)
        elif what == "id":
            n.identifier = opt(v)
        elif what == "op":
            n.operator = OPOF[v]
        elif what == "fl":
            n.regex_flags = mkset(v, j % 2)
        elif what == "add":
            n.regex_flags.add(FLAGOF[v])
        else:
            n.regex_flags.discard(FLAGOF[v])
    asked = [("has_layer_identifier", text(x), (lambda x=x: n.has_layer_identifier(fresh(text(x)))), tf(w)) for x, w in zip(aid, o["hl"])]
    asked += [("has_layer_qualifier", text(x), (lambda x=x: n.has_layer_qualifier(fresh(text(x)))), tf(w)) for x, w in zip(aq, o["hq"])]
    asked += [("has_operator", x, (lambda x=x: n.has_operator(OPOF[x])), tf(w)) for x, w in zip(("Eq", "Ne"), o["ho"])]
    asked += [("has_regex_flag", x, (lambda x=x: n.has_regex_flag(FLAGOF[x])), tf(w)) for x, w in zip((1, 2, 4, 8), o["hf"])]
    asked += [("is_layer_qualifier_empty", None, n.is_layer_qualifier_empty, tf(o["qe"])), ("is_regex_flags_empty", None, n.is_regex_flags_empty, tf(o["fe"]))]
    for name in ("has_layer_identifier", "has_layer_qualifier", "has_operator", "has_regex_flag", "has_node_type"):
        asked.append((name, "missing", (lambda name=name: getattr(n, name)(None)), "exc:TypeError"))
    for name, arg, f, w in asked:
        g = tri(f)
        if g != w:
            bad.append(f"{name}({arg!r}) -> {g}, specified {w}")
    return bad


def cond_suite(ctx, name, q, ids, fl, aq, aid, depth):
    path = os.path.join(ctx.tmp, f"cond-{name}.json")
    e = lambda l: [NOTEXT if x is None else cps(x) for x in l]
    with open(path, "w") as f:
        json.dump(dict(q=e(q), id=e(ids), fl=fl, aq=e(aq), aid=e(aid), depth=depth), f)
    res = ctx.tlc("CondSuite", env={"SUITE": path})
    t = time.time()
    rs = drive.pmap(cond_differs, [(o, e(aq), e(aid), j) for j, o in enumerate(res.lines)])
    ctx.traces += len(rs)
    ctx.cov.setdefault("suites", []).append({"name": name, "programs": len(rs), "answers": len(rs) * (len(aq) + len(aid) + 13), "replay_s": round(time.time() - t, 1)})
    ctx.sample({"suite": name, "program": res.lines[len(res.lines) // 2]["p"]})
    for o, b in zip(res.lines, rs):
        if b:
            ctx.fail("condition", {"program": o["p"], "differences": list(b)[:6], "suite": name})


KINDS12 = NAMES[2:]


def observe_cond(req):
    r = {"x": req["x"], "c": [], "n": []}
    try:
        root = drive.make_parser(loc=req["loc"]).parse(req["x"])
    except P.QueryParserException:
        return None
    except drive.Hang:
        raise
    except BaseException:
        return None
    rng = random.Random(req["seed"])
    nodes = heap(root)
    pool = ["a", "text", "A", "x", ""]
    for n in nodes:
        r["n"].append([kind(n), [tri(lambda: n.has_node_type(TYPE[k])) for k in KINDS12], tri(lambda: n.has_node_type(None))])
        if kind(n) != "Expression":
            continue
        c = [project.text(n.qualifier), project.text(n.identifier), op(n.operator), flags(n.regex_flags) & 15, []]
        words = {n.identifier, n.qualifier or "q", n.regex, (n.identifier or "")[:-1], (n.identifier or "") + "s", (n.identifier or "").upper(), rng.choice(pool)}
        for w in sorted(w for w in words if isinstance(w, str)):
            c[4].append(["has_layer_identifier", cps(w), tri(lambda: n.has_layer_identifier(fresh(w)))])
            c[4].append(["has_layer_qualifier", cps(w), tri(lambda: n.has_layer_qualifier(fresh(w)))])
        for k, v in OPOF.items():
            c[4].append(["has_operator", k, tri(lambda: n.has_operator(v))])
        for b, v in FLAGOF.items():
            c[4].append(["has_regex_flag", b, tri(lambda: n.has_regex_flag(v))])
        c[4] += [["is_layer_qualifier_empty", 0, tri(n.is_layer_qualifier_empty)], ["is_regex_flags_empty", 0, tri(n.is_regex_flags_empty)],
                 ["has_layer_identifier", NOTEXT, tri(lambda: n.has_layer_identifier(None))], ["has_layer_qualifier", NOTEXT, tri(lambda: n.has_layer_qualifier(None))],
                 ["has_operator", "", tri(lambda: n.has_operator(None))], ["has_regex_flag", 0, tri(lambda: n.has_regex_flag(None))]]
        r["c"].append(c)
    return r


def c24(ctx):
    q, ids = [None, "", " ", "\t\n", "a", "b", "text"], ["a", "text"]
    sets = [0, 1, 2, 4, 8, 9]
    args = ["a", "b", "text", "A", "tex", "texts", "", " ", "v", "Eq", "None", "q"]
    cond_suite(ctx, "contents", q, ids, list(range(16)), args, args, 0)
    cond_suite(ctx, "changes", q, ids, sets, args, args, 1)
    cond_suite(ctx, "histories", [None, "a", "b"], ["a"], [0, 1, 6], ["a", "b", ""], ["a", "b"], scale(3, 4))
    t = time.time()
    every = [f"[{q}{i}{o}'v'{f}]" for q in ("", "a:", "text:", "x-q:") for i in ("text", "a", "x-i") for o in ("=", "!=") for f in ("", "/i", "/I", "/l", "/d", "/id", "/Id", "/C", "/cd")]
    reqs = [dict(x=x, loc=True, seed=1) for x in grids() + every] + corpus("C24", scale(2500, 40000), lambda rng: vary(rng, flags=0.5, qualifier=0.5))
    recs = []
    for q, r in zip(reqs, drive.pmap(observe_cond, reqs)):
        if isinstance(r, tuple):
            ctx.fail("hang", {"query": q["x"]})
        elif r is not None:
            recs.append(r)
    ctx.traces += len(recs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "parsed conditions", "trees": len(recs), "conditions": sum(len(r["c"]) for r in recs), "nodes": sum(len(r["n"]) for r in recs),
                                               "replay_s": round(time.time() - t, 1)})
    trace_check(ctx, "CondConform", recs, ("c", "n"), "parsed")


ALL = {"C11": c11, "C24": c24}
