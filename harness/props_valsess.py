"""C20: histories of validations."""
import json
import os
import random
import time

import drive
import gen
from base import SEED, cps, text
from drive import P, V, errlist
from parsefam import scale
from project import NOTEXT, enc, kind
from props_nav import heap
from props_val import KEEPV, VGen, call as vcall, mkvalidator, preorder, rsettings, vconform
from props_visit import CLASSNAME

ALLK = list(CLASSNAME)


class Boom(Exception):
    pass


class Runner:
    """client-defined validators and the trees they work on"""

    def __init__(self, trees, txts, vals, hk, prog):
        self.trees, self.txts = trees, txts
        self.heaps = [heap(t) for t in trees]
        self.number = {}
        for h in self.heaps:
            for j, n in enumerate(h):
                self.number[id(n)] = j + 1
        self.prog = {}
        for c, n, ph, act in prog:
            self.prog.setdefault((c, n, ph), act)
        self.log, self.outs, self.running = [], [], []
        ns = {"visit_" + CLASSNAME[k]: self.handler("visit_" + CLASSNAME[k]) for k in hk}
        self.cls = type("ClientValidator", (V.Validator,), ns)
        self.box = self.cls
        self.vals = []
        for v in vals:
            kw = {"query": txts[v["q"] - 1]} if v["q"] else {}
            self.vals.append(self.cls(raise_at_first_violation=v["rf"], warnings_as_errors=v["we"], **kw))

    def num(self, n):
        return 0 if n is None else self.number.get(id(n), -7)

    def handler(self, name):
        def f(v, node):
            c, da = self.running[-1]
            act = self.note(v, node, "pre", c, [da])
            r = None
            if act[0] != "skip":
                r = getattr(super(self.box, v), name)(node)
                self.note(v, node, "post", c, ["ok"])
            return r
        f.__name__ = name
        return f

    def note(self, v, node, phase, c, default):
        n = self.num(node)
        self.log.append([phase, c, n, self.num(v.parent_node)])
        act = self.prog.get((c, n, phase), default)
        if act[0] == "err":
            v.validation_error(node, "an error of the client")
        elif act[0] == "warn":
            v.validation_warning(node, "a warning of the client")
        elif act[0] == "boom":
            raise Boom()
        elif act[0] == "nest":
            self.call(act[1])
        return act

    def entries(self, l, ty):
        out = []
        for d in errlist(l, ""):
            s, e = (d["s"], d["e"]) if d["pk"] == "loc" else (-1, -1) if d["pk"] == "none" else (-9, -9)
            out.append([s, e, d["fr"]] if d["ty"] == ty and d["ms"] else ["?", d["ty"], d["ms"]])
        return out

    def call(self, c):
        v = self.vals[c["v"] - 1]
        k = len(self.outs)
        self.outs.append(["?", [], NOTEXT, [], []])
        self.running.append((k + 1, c["da"]))
        kw = {"query": self.txts[c["q"] - 1]} if c["q"] else {}
        try:
            x = (v.is_valid if c["yes"] else v.validate)(self.trees[c["t"] - 1], **kw)
            o = "T" if x is True else "F" if x is False else "other"
            self.outs[k] = [o, [], NOTEXT, self.entries(v.errors, "validation-error"), self.entries(v.warnings, "validation-warning")]
        except V.SpecificationValidationError as ex:
            f = ex.query_fragment
            self.outs[k] = ["raise", ["", self.num(ex.node)], NOTEXT if f is None else cps(f) if isinstance(f, str) else [-2], [], []]
            raise
        except Boom:
            self.outs[k] = ["boom", [], NOTEXT, [], []]
            raise
        finally:
            self.running.pop()

    def run(self, calls):
        why = ""
        for c in calls:
            try:
                self.call(c)
            except (V.SpecificationValidationError, Boom):
                pass
            except drive.Hang:
                raise
            except BaseException as ex:
                why = type(ex).__name__ + ": " + str(ex)[:200]
                break
        return why


TREES = {}


def tree_of(x, loc):
    if len(TREES) > 200:
        TREES.clear()
    if (x, loc) not in TREES:
        TREES[x, loc] = drive.make_parser(loc=loc).parse(x)
    return TREES[x, loc]


def play(queries, loc, txts, vals, hk, prog, calls):
    trees = [tree_of(x, loc) for x in queries]
    r = Runner(trees, txts, vals, hk, prog)
    why = r.run(calls)
    return {"ts": [enc(t) for t in trees], "tx": [cps(x) for x in txts], "vals": vals, "hk": hk, "calls": calls, "prog": prog, "log": r.log, "outs": r.outs, "why": why, "x": queries}


def noid(entries):
    return [e[1:] for e in entries]


def same(o, r):
    """expected (from the model) against observed; entries are identified by place and fragment"""
    if r["why"] or o["log"] != r["log"] or len(o["outs"]) != len(r["outs"]):
        return False
    for a, b in zip(o["outs"], r["outs"]):
        if a[0] != b[0] or (a[0] == "raise" and (a[1][1] != b[1][1] or a[2] != b[2])):
            return False
        if a[3] and (noid(a[4]) != b[3] or noid(a[5]) != b[4]):
            return False
    return True


def replay(a):
    o, suite = a
    try:
        r = play(suite["x"], True, suite["x"], suite["vals"][o["vi"] - 1], suite["hks"][o["hi"] - 1], o["prog"], o["calls"])
    except P.QueryParserException as ex:
        return {"why": "rejected: " + str(ex), "x": suite["x"]}
    return None if same(o, r) else r


def fit(r):
    """observed record -> record for ValSessConform"""
    out = {k: r[k] for k in ("ts", "tx", "vals", "hk", "calls", "prog", "log")}
    out["outs"] = [[o[0], o[1][1:], o[2], o[3], o[4]] for o in r["outs"]]
    return out


def conform(ctx, recs, label):
    for part in range(0, len(recs), 20000):
        chunk = recs[part:part + 20000]
        good = [r for r in chunk if "ts" in r and not r["why"]]
        for r in chunk:
            if "ts" not in r or r["why"]:
                ctx.fail("unexpected exception", {"queries": r["x"], "why": r["why"], "calls": r.get("calls"), "actions": r.get("prog"), "source": label})
        path = os.path.join(ctx.tmp, "vsess.ndjson")
        with open(path, "w") as f:
            for r in good:
                f.write(json.dumps(fit(r), separators=(",", ":")) + "\n")
        for line in ctx.tlc("ValSessConform", env={"TRACE": path}).lines:
            r = good[line["i"] - 1]
            ctx.fail(",".join(sorted(line["bad"])), {"queries": r["x"], "validators": r["vals"], "handlers": r["hk"], "calls": r["calls"], "actions": r["prog"], "observed": {"log": r["log"], "outs": r["outs"]},
                                                     "specified": line["want"], "source": label})


def suite(ctx, name, queries, vals, hks, calls, picks, acts, simulate=None):
    path = os.path.join(ctx.tmp, f"vss-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(queries=[cps(x) for x in queries], vals=vals, hks=hks, calls=calls, picks=picks, acts=acts), f)
    res = ctx.tlc("ValSessSuite", env={"SUITE": path}, simulate=simulate, extra=["-depth", "400"] if simulate else [])
    ctx.models[-1]["suite"] = {"name": name, "queries": queries, "positions": [len(c) for c in calls], "picks": picks, "actions": len(acts)}
    t = time.time()
    st = {"x": queries, "vals": vals, "hks": hks}
    seen, lines = set(), []
    for o in res.lines:
        k = json.dumps([o["vi"], o["hi"], o["calls"], o["prog"]])
        if k not in seen:
            seen.add(k)
            lines.append(o)
    rs = drive.pmap(replay, [(o, st) for o in lines])
    bad = []
    outs = {}
    for o, r in zip(lines, rs):
        for x in o["outs"]:
            outs[x[0]] = outs.get(x[0], 0) + 1
        if isinstance(r, tuple):
            ctx.fail("hang", {"queries": queries, "calls": o["calls"], "actions": o["prog"], "why": r[1]})
        elif r:
            bad.append(r)
    ctx.traces += len(lines)
    ctx.cov.setdefault("suites", []).append({"name": name, "histories": len(lines), "outcomes": outs, "replay_s": round(time.time() - t, 1), "adjudicated": len(bad)})
    if lines:
        o = lines[len(lines) // 2]
        ctx.sample({"suite": name, "calls": o["calls"], "actions": o["prog"], "outcomes": [x[0] for x in o["outs"]]})
    if bad:
        bad.sort(key=lambda r: len(str(r.get("prog"))))
        conform(ctx, bad[:1500], name)


def v_(rf, we, q=0):
    return {"rf": rf, "we": we, "q": q}


def c_(v=1, t=1, q=0, yes=False, da="ok", pk=False):
    return {"v": v, "t": t, "q": q, "yes": yes, "da": da, "pk": pk}


ACTS = [["err"], ["warn"], ["boom"], ["skip"]]
SQ = ['[a="1" & b="2"]', '"u" "v" within s', '("w" | [!(c="3")]){2}', "[]"]


def suites(ctx):
    kinds = [ALLK]
    every = [[v_(rf, we)] for rf in (False, True) for we in (False, True)]
    probe = [c_(t=t, q=q, da=da, yes=y) for t, q in ((1, 0), (2, 2)) for da, y in (("err", False), ("warn", True), ("ok", False), ("warn", False))]
    suite(ctx, "then a probe", SQ, every, kinds, [[c_(t=t, q=q, yes=y, pk=True) for t, q in ((1, 1), (2, 0), (3, 3)) for y in (False, True)], probe], 1, ACTS)
    suite(ctx, "two actions", SQ[:2], [[v_(False, False, 1)], [v_(True, False)]], kinds, [[c_(t=1, q=0, pk=True), c_(t=2, q=2, pk=True)], [c_(t=1, q=1, da="warn", pk=True)], [c_(t=2, da="err")]], scale(1, 2), ACTS[:3])
    two = [[v_(True, False), v_(False, False, 2)], [v_(False, True, 1), v_(True, True)]]
    nests = [["nest", c_(v=2, t=t, q=q, yes=y, da=da)] for t, q, y, da in ((2, 0, False, "warn"), (2, 2, True, "err"), (1, 1, False, "ok"))]
    suite(ctx, "validators inside validators", SQ, two, kinds, [[c_(v=1, t=1, q=1, pk=True), c_(v=1, t=3, pk=True, yes=True)], [c_(v=1, t=1, da="warn"), c_(v=2, t=1, da="err")]], 1, nests + [["boom"]])
    some = [["Expression"], ["And", "QuerySegment"], ["SimpleWithin", "QueryWithWithin", "Wildcard"], ["QuerySequence", "Not", "Or", "Group", "QueryGroup", "QueryDisjunction"]]
    suite(ctx, "some handlers", SQ + ['[a="1" | (b="2" & !c="3")] []+ within p', '("a" | ("b" "c")+)'], every[:3], some, [[c_(t=t, q=t, pk=True) for t in (1, 2, 3, 5, 6)], [c_(t=t, q=0, da="warn") for t in (5, 6)]], 1, ACTS)
    mixed = [c_(v=v, t=t, q=q, yes=y, da=da, pk=True) for v in (1, 2) for t in (1, 2, 3, 5) for q in (0, t) for y in (False, True) for da in ("ok", "warn")]
    suite(ctx, "long histories", SQ + ['[(a="1" | b="2") & !c="3"] "z"{1,2}'], two + [[v_(False, False), v_(True, True, 3)]], [ALLK, ["Expression", "And", "SimpleWithin"]], [mixed] * 6, 5, ACTS + nests, simulate=f"num={scale(250, 4000)}")


def rand_program(rng):
    k = rng.randint(1, 3)
    prof = dict(badflags=0, badrange=0, chars="ascii", flags=0.1, segment=0.8, budget=6)
    xs = [VGen(rng, **dict(prof, layout=rng.choice(["plain", "wild"]))).query() for _ in range(k)]
    if any(len(x) > 250 for x in xs):
        return None
    nv = rng.randint(1, 2)
    vals = [v_(rng.random() < 0.5, rng.random() < 0.5, rng.choice([0, rng.randint(1, k)])) for _ in range(nv)]
    hk = ALLK if rng.random() < 0.7 else rng.sample(ALLK, rng.randint(1, 8))

    def rc(vs):
        t = rng.randint(1, k)
        return c_(v=rng.choice(vs), t=t, q=rng.choice([0, t, t, rng.randint(1, k)]), yes=rng.random() < 0.3, da=rng.choice(["ok"] * 4 + ["warn", "err"]))
    calls = [rc(list(range(1, nv + 1))) for _ in range(rng.randint(1, 6))]
    prog, seen = [], set()
    for c in range(1, len(calls) + 1):
        for _ in range(rng.choice([0, 1, 1, 2])):
            key = (c, rng.randint(1, rng.choice([3, 8, 20])), rng.choice(["pre", "pre", "post"]))
            if key in seen:
                continue
            seen.add(key)
            a = rng.choice([["err"], ["warn"], ["boom"], ["skip"]])
            if a[0] == "skip":
                key = (key[0], key[1], "pre")
            prog.append([*key, a])
    return {"x": xs, "vals": vals, "hk": hk, "calls": calls, "prog": prog, "loc": rng.random() < 0.8}


def play_random(p):
    try:
        return play(p["x"], p["loc"], p["x"], p["vals"], p["hk"], p["prog"], p["calls"])
    except P.QueryParserException as ex:
        return {"why": "rejected", "x": p["x"]}


def randoms(ctx, n):
    rng = gen.rng(SEED, "C20", "programs")
    progs = [p for p in (rand_program(rng) for _ in range(n)) if p]
    t = time.time()
    rs = drive.pmap(play_random, progs)
    recs = []
    for p, r in zip(progs, rs):
        if isinstance(r, tuple):
            ctx.fail("hang", {"queries": p["x"], "calls": p["calls"], "actions": p["prog"]})
        elif r["why"] != "rejected":
            recs.append(r)
    ctx.traces += len(recs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "random programs", "histories": len(recs), "handler calls": sum(len(r["log"]) for r in recs), "replay_s": round(time.time() - t, 1)})
    conform(ctx, recs, "random programs")


class Interrupt(Exception):
    pass


def reuse(job):
    """one FCSQLValidator over a history of trees -> records for ValConform (as if new, text last supplied)"""
    S, first, steps = job
    v = mkvalidator(S, **({"query": first} if first is not None else {}))
    told = first
    out = []
    for st in steps:
        x, loc, q, yes, boom = st
        try:
            tree = drive.make_parser(loc=loc).parse(x)
        except P.QueryParserException:
            continue
        if boom:      # a validation aborted by an exception of somebody else's
            class Node(type(tree)):
                pass
            nodes = preorder(tree)
            nodes[-1].accept = aborting
            try:
                v.validate(tree, query=q)
            except Interrupt:
                pass
            except V.SpecificationValidationError:
                pass
            told = q if q is not None else told
            continue
        kw = {"query": q} if q is not None else {}
        told = q if q is not None else told
        r = vcall(v, tree, q, "call" if q is not None else "none", yes)
        r.update(k="v", x=x, t=enc(tree), S={k: S[k] for k in ("ai", "aq", "rf", "we")}, qs=NOTEXT if told is None else cps(told), y=yes)
        out.append(r)
    return out


def aborting(*_):
    raise Interrupt()


def reuses(ctx, n):
    prof = dict(badflags=0, badrange=0, chars="ascii", lits=dict(plain=3, uni=1, esc=1, dict=5), segment=0.8, budget=6, qualifier=0.3)
    rng = gen.rng(SEED, "C20", "reuse")
    jobs = []
    for _ in range(n):
        def x():
            for _ in range(20):
                y = VGen(rng, **dict(prof, layout=rng.choice(["plain", "wild"]))).query()
                if 0 < len(y) < 250:
                    return y
            return "'a'"
        steps = []
        last = None
        for _ in range(rng.randint(2, 7)):
            y = x()
            steps.append((y, rng.random() < 0.85, rng.choice([y, y, None, None, last, x()]), rng.random() < 0.3, rng.random() < 0.12))
            last = y
        jobs.append((rsettings(rng), rng.choice([None, x()]), steps))
    t = time.time()
    recs = []
    for jb, r in zip(jobs, drive.pmap(reuse, jobs)):
        if isinstance(r, tuple):
            ctx.fail("hang", {"history": [s[0] for s in jb[2]]})
        else:
            recs += r
    ctx.traces += len(recs)
    ctx.cov.setdefault("recorded", []).append({"corpus": "FCSQLValidator reused", "histories": len(jobs), "calls": len(recs), "replay_s": round(time.time() - t, 1)})
    vconform(ctx, "C19", recs, "FCSQLValidator reused")


def c20(ctx):
    suites(ctx)
    randoms(ctx, scale(2500, 25000))
    reuses(ctx, scale(1200, 12000))


ALL = {"C20": c20}
