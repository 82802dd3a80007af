"""C15, C17: sessions of parse and validate calls."""
import json
import logging
import os
import random
import time

import drive
import forked
import gen
from base import SEED, cps, thorough
from drive import P, V, errlist
from gen import Gen
from parsefam import scale
from project import enc, noloc, NOTEXT
import fcsql

CONFS = [dict(di="text", op="Eq", nf="NFC", loc=True), dict(di="text", op="Eq", nf="NFC", loc=False), dict(di="word", op="Ne", nf="NFKD", loc=True), dict(di="x-a", op="Eq", nf="None", loc=False),
         dict(di="pos", op="Ne", nf="NFD", loc=True)]


class Capture(logging.Handler):
    """formats every record, as a client's handler would, and drops it"""
    seen = 0

    def emit(self, record):
        try:
            self.format(record)
            Capture.seen += 1
        except Exception:
            self.handleError(record)


def set_level(l):
    for name in ("fcsql", "fcsql.parser", "fcsql.validation"):
        logging.getLogger(name).setLevel({0: logging.NOTSET, 1: logging.DEBUG, 2: logging.INFO, 3: logging.ERROR}[l])
    lg = logging.getLogger("fcsql")
    lg.propagate = l != 1
    for h in list(lg.handlers):
        lg.removeHandler(h)
    if l == 1:
        lg.addHandler(Capture())


def frees(x):
    return json.dumps(x, separators=(",", ":"))


def errs(l, ms=True):
    """full view of an error list, messages included"""
    out = errlist(l, "")
    try:
        for d, e in zip(out, l):
            d["text"] = str(e.message)
    except Exception:
        pass
    return out


def treeval(o, locs=True):
    if o[0] == "tree":
        t = enc(o[1])
        return ["tree", t if locs else noloc(t)]
    return o


def reconfigure(parser, cf):
    """the settings of a parser are attributes a client may change between parses"""
    for name, value in (("default_identifier", cf["di"]), ("default_operator", drive.OPERATOR[cf["op"]]), ("unicode_normalization_form", None if cf["nf"] == "None" else cf["nf"]),
                        ("enableSourceLocations", cf["loc"])):
        if getattr(parser, name) != value:
            setattr(parser, name, value)


def do_call(call, parsers, confs, queries, strip):
    """-> (outcome object, error list object or None).  outcome: ["tree", node] | ["err", text] | ["value", ..] | ["other", text]"""
    k, p, c, q = call
    x = queries[q]
    cf = confs[c]
    el = None
    try:
        if k == "parse":
            reconfigure(parsers[p], cf)
            try:
                v = parsers[p].parse(x)
            finally:
                el = getattr(parsers[p], "errors", None)
        elif k == "fparse":
            v = fcsql.parse(x, enableSourceLocations=cf["loc"])
        elif k == "can":
            v = fcsql.can_parse(x)
        elif k == "validate":
            v = fcsql.validate(x)
        elif k == "validate-w":
            v = fcsql.validate(x, warnings_as_errors=True)
        elif k == "validate-list":
            v = el = fcsql.validate(x, return_errors=True, warnings_as_errors=True)
            v = bool(v)
        elif k == "validator":
            t = drive.make_parser(**cf).parse(x)
            val = V.FCSQLValidator(query=x, raise_at_first_violation=False, warnings_as_errors=True)
            v = val.validate(t)
            el = list(val.errors) + list(val.warnings)
        elif k == "antlr":
            v = fcsql.antlr_parse(x)
            return ["value", v.getText()], None
        else:
            raise KeyError(k)
        return (["tree", v] if isinstance(v, P.QueryNode) else ["value", repr(v)]), el
    except P.QueryParserException as ex:
        return ["err", str(ex)], el
    except drive.Hang:
        raise
    except BaseException as ex:
        return ["other", type(ex).__name__ + ": " + str(ex)[:200]], el


def view(o, el, strip):
    return frees(treeval(o, not strip)), frees(stripped(errs(el)) if strip else errs(el)) if el is not None else "-"


def treeless(o):
    return "altered"


def stripped(l):
    """without locations of nodes; syntax errors keep theirs"""
    return [dict(d, s=-1, e=-1, pk="", fr="") if d["ty"].startswith("validation") else d for d in l]


def fresh(a):
    """reference: this call alone, logging off"""
    call, conf, x, strip = a
    parsers = {call[1]: drive.make_parser(**conf)} if call[1] else {}
    o, el = do_call((call[0], call[1], 0, 0), parsers, [conf], [x], strip)
    return view(o, el, strip)


def nodes_of(o):
    out = []
    if o[0] == "tree":
        todo = [o[1]]
        while todo:
            n = todo.pop()
            out.append(n)
            todo.extend(n.children)
    return out


def alter_tree(o, how):
    ns = nodes_of(o)
    if not ns:
        return
    for n in ns if how % 2 else ns[-1:]:
        n.parent = None
        n.children.append(P.Expression(None, "altered", P.Operator.NOT_EQUALS, "altered", None)) if how % 3 == 0 else n.children.clear() if how % 3 == 1 else n.children.reverse()
        n.location = P.SourceLocation(7, 7)
        for a in ("identifier", "qualifier", "regex"):
            if hasattr(n, a):
                setattr(n, a, "altered")
        if getattr(n, "regex_flags", None):
            n.regex_flags.clear()
        if hasattr(n, "min_occurs"):
            n.min_occurs, n.max_occurs = 41, 42
        if hasattr(n, "scope"):
            n.scope = P.SimpleWithinScope.SESSION


def session(a):
    """run a session in this (fresh) process; -> observations"""
    calls, np, confs, queries, hist, strip, how = a
    set_level(0)
    pc = {}
    for c in calls:
        if c[1]:
            pc.setdefault(c[1], confs[c[2]])
    parsers = {p: drive.make_parser(**pc[p]) for p in pc}
    kept, out = [], []
    for act in hist:
        if act[0] == "call":
            o, el = do_call(calls[act[1] - 1], parsers, confs, queries, strip)
            kept.append((o, el))
            out.append(view(o, el, strip))
        elif act[0] == "alter":
            alter_tree(kept[act[1] - 1][0], how)
        elif act[0] == "altererr":
            l = getattr(parsers[act[1]], "errors", None)
            if isinstance(l, list):
                l.append(P.ErrorDetail("altered")) if how % 2 or not l else l.clear()
        else:
            set_level(act[1])
    z = []
    dirty = {a[1] - 1 for a in hist if a[0] == "alter"}
    for j, (o, el) in enumerate(kept):
        z.append((treeless(o) if j in dirty else view(o, None, strip)[0], "-") if el is None else (treeless(o), view(("-", 0), el, strip)[1]) if j in dirty else view(o, el, strip))
    le = [frees(stripped(errs(getattr(parsers[p], "errors", None))) if strip else errs(getattr(parsers[p], "errors", None))) if p in parsers else "-" for p in range(1, np + 1)]
    seen, share = {}, False
    for j, (o, el) in enumerate(kept):
        if any(a[0] == "alter" for a in hist):
            break
        for n in nodes_of(o):
            for y in (n, n.children):
                share = share or seen.setdefault(id(y), j) != j
    ls = [id(el) for o, el in kept if el is not None]
    share = share or len(set(ls)) != len(ls)
    set_level(0)
    return {"v": out, "z": z, "le": le, "sh": share, "dbg": Capture.seen}


def references(calls, confs, queries, strip, memo):
    """fresh outcome per call (kind, settings, query)"""
    want = []
    for c in calls:
        conf = dict(confs[c[2]], loc=False) if strip and c[0] in ("parse", "fparse", "validator") else confs[c[2]]
        key = (c[0], bool(c[1]), frees(conf), queries[c[3]], strip)
        want.append((key, ((c[0], 1 if c[1] else 0), conf, queries[c[3]], strip)))
    todo = {k: a for k, a in want if k not in memo}
    ks = list(todo)
    for k, (v, _) in zip(ks, forked.pmap(fresh, [todo[k] for k in ks])):
        memo[k] = tuple(v)
    return [memo[k] for k, _ in want]


def expand(o, calls, refs):
    """observed session -> trace record (values interned)"""
    num = {}

    def n(x):
        return num.setdefault(x, len(num) + 1)
    job, r, out = o
    hist = job[4]
    vs = iter(r["v"])
    h = []
    for a in hist:
        if a[0] == "call":
            v = next(vs)
            h.append(["call", a[1], n(v[0]), n(v[1])])
        else:
            h.append(list(a))
    return {"np": job[1], "c": [list(c) for c in calls], "h": h, "f": [[n(a), n(b)] for a, b in refs], "z": [[n(a), n(b)] for a, b in r["z"]], "le": [n(x) for x in r["le"]],
            "sh": bool(r["sh"]), "out": out}


def conform(ctx, prop, items, label):
    """items: (job, calls, refs, observed, out)"""
    recs = []
    for job, calls, refs, r, out in items:
        recs.append(expand((job, r, out), calls, refs))
    for part in range(0, len(recs), 20000):
        chunk = recs[part:part + 20000]
        path = os.path.join(ctx.tmp, "sess.ndjson")
        with open(path, "w") as f:
            for r in chunk:
                f.write(frees(r) + "\n")
        for line in ctx.tlc("SessionConform", env={"TRACE": path, "PROP": prop}).lines:
            job, calls, refs, r, out = items[part + line["i"] - 1]
            used = [a for a in job[4]]
            ctx.fail(",".join(sorted(line["bad"])), {"session": [dict(action=a[0], **({"call": list(calls[a[1] - 1][:3]), "query": job[3][calls[a[1] - 1][3]]} if a[0] == "call" else {"arg": a[1]})) for a in used],
                                                     "settings": job[2], "observed": r["v"] if len(str(r["v"])) < 6000 else "...", "kept at the end": r["z"] if len(str(r["z"])) < 6000 else "...",
                                                     "alone": [refs[a[1] - 1] for a in used if a[0] == "call"] if len(str(refs)) < 6000 else "...", "written": out, "output": forked.run.last[:300],
                                                     "source": label})


def bad_run(ctx, r, job, label):
    if isinstance(r, tuple):
        ctx.fail("no answer", {"session": job[4], "queries": job[3], "why": r[1], "source": label})
        return True
    return False


def suite(ctx, prop, name, calls, np, queries, length, alter=False, altererr=False, levels=(), strip=False, memo=None, cold=True, capture=False):
    path = os.path.join(ctx.tmp, f"sess-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(calls=[dict(k=c[0], p=c[1], c=c[2], q=c[3]) for c in calls], np=np, len=length, alter=alter, altererr=altererr, levels=list(levels)), f)
    res = ctx.tlc("SessionSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "calls": len(calls), "length": length}
    t = time.time()
    refs = references(calls, CONFS, queries, strip, memo if memo is not None else {})
    jobs = [(calls, np, CONFS, queries, [tuple(a) for a in o["h"]], strip, j) for j, o in enumerate(res.lines)]
    if cold:
        rs = forked.pmap(session, jobs, capture=capture)
    else:
        group = [jobs[i:i + 40] for i in range(0, len(jobs), 40)]
        rs = [(r, 0) for g in forked.pmap(many, group) for r in (g[0] if isinstance(g[0], list) else [g[0]])]
        if len(rs) != len(jobs):
            ctx.fail("no answer", {"suite": name, "why": str([r for r in rs if isinstance(r[0], tuple)][:1])})
            return
    ctx.traces += len(jobs)
    items = []
    logged = 0
    for job, o, (r, out) in zip(jobs, res.lines, rs):
        if bad_run(ctx, r, job, name):
            continue
        logged += r["dbg"]
        cs = [a for a in job[4] if a[0] == "call"]
        want = [refs[a[1] - 1] for a in cs]
        ok = all(tuple(v) == w for v, w in zip(r["v"], want)) and not r["sh"] and not out
        ok = ok and all((not ti or z[0] == w[0]) and (not ei or z[1] == w[1]) for z, w, ti, ei in zip(r["z"], want, o["t"], o["e"]))
        ok = ok and all(l == 0 or not o["e"][l - 1] or r["le"][p] == want[l - 1][1] for p, l in enumerate(o["last"]))
        if not ok:
            items.append((job, calls, refs, r, out))
    ctx.cov.setdefault("suites", []).append({"name": name, "sessions": len(jobs), "own process": cold, "log records": logged, "replay_s": round(time.time() - t, 1), "adjudicated": len(items)})
    if jobs:
        ctx.sample({"suite": name, "session": jobs[len(jobs) // 2][4]})
    if items:
        items.sort(key=lambda it: len(it[0][4]))
        conform(ctx, prop, items[:1500], name)


def many(jobs):
    return [session(j) for j in jobs]


QS = ['"a"', '[a="1" & !(b="2" | c!="3"/id)]{2} | ("x" [])+ within s', '"a', '[a="1" &]', '"a"/iI', '"x"{3,1}', "", "[word='w' | foo='f']", '"\\U00110000"', "a $ b",
      '"a" within p', '[a="1"] [b="2" ; c="3"]', "[pos='e\u0301\ufb01']"]


def rquery(r):
    g = Gen(r, layout=r.choice(["plain", "wild"]), chars=r.choice(["ascii", "ucd"]), badflags=0.2, badrange=0.2, badcp=0.02, budget=6)
    k = r.random()
    return g.query() if k < 0.6 else g.mutant() if k < 0.8 else g.charmutant() if k < 0.93 else g.soup()


def random_sessions(ctx, prop, n, nq, kinds, levels, strip, memo, label, capture=False):
    r = gen.rng(SEED, prop, label)
    pool = []
    while len(pool) < nq:
        x = rquery(r)
        if len(x) < 400:
            pool.append(x)
    for w in QS:
        pool.append(w)
    t = time.time()
    plan, allcalls = [], {}
    for j in range(n):
        qs = r.sample(pool, r.choice([1, 2, 3, 5]))
        np = r.choice([1, 2, 3])
        pc = [r.randrange(len(CONFS)) for _ in range(np)]
        hist, calls, ncall = [], [], 0
        lastp = {}
        dt, de = set(), set()
        for _ in range(r.choice([2, 3, 5, 8, 12])):
            k = r.random()
            if k < 0.12 and ncall and not strip:
                i = r.randint(1, ncall)
                if i not in dt:
                    dt.add(i)
                    hist.append(("alter", i))
                continue
            if k < 0.2 and lastp and not strip:
                p = r.choice(sorted(lastp))
                if lastp[p] not in de:
                    de.add(lastp[p])
                    hist.append(("altererr", p))
                continue
            if k < 0.45 and levels:
                hist.append(("level", r.choice(levels)))
                continue
            kind = r.choice(kinds)
            p = r.randint(1, np) if kind == "parse" else 0
            if p and r.random() < 0.1:
                pc[p - 1] = r.randrange(len(CONFS))
            c = (kind, p, pc[p - 1] if p else r.randrange(2) if kind == "fparse" else r.choice([0, 1]) if kind == "validator" else 0, r.randrange(len(qs)))
            if c not in calls:
                calls.append(c)
            ncall += 1
            hist.append(("call", calls.index(c) + 1))
            if p:
                lastp[p] = ncall
        if ncall:
            plan.append((calls, np, CONFS, qs, hist, strip, j))
    # references, shared between sessions
    flat, where = [], []
    for job in plan:
        where.append((len(flat), len(job[0])))
        flat += [(c, job[3][c[3]]) for c in job[0]]
    refs = references([(c[0], c[1], c[2], j) for j, (c, x) in enumerate(flat)], CONFS, [x for _, x in flat], strip, memo)
    rs = forked.pmap(session, plan, capture=capture)
    items = []
    ncalls = 0
    for job, (at, k), (o, out) in zip(plan, where, rs):
        ncalls += sum(a[0] == "call" for a in job[4])
        if not bad_run(ctx, o, job, label):
            items.append((job, job[0], refs[at:at + k], o, out))
    ctx.traces += len(items)
    ctx.cov.setdefault("recorded", []).append({"corpus": label, "sessions": len(plan), "calls": ncalls, "log records": sum(it[3]["dbg"] for it in items), "references": len(memo), "replay_s": round(time.time() - t, 1)})
    conform(ctx, prop, items, label)


def c15(ctx):
    memo = {}
    P1 = [("parse", 1, 0, q) for q in range(6)]
    suite(ctx, "C15", "one parser", P1, 1, QS, scale(3, 4), alter=True, altererr=True, memo=memo)
    two = [("parse", 1, 0, 1), ("parse", 1, 0, 3), ("parse", 2, 2, 1), ("parse", 2, 2, 4), ("fparse", 0, 0, 1), ("validate-list", 0, 0, 7), ("can", 0, 0, 11)]
    suite(ctx, "C15", "two parsers and the module functions", two, 2, QS, scale(3, 4), alter=True, altererr=True, memo=memo)
    suite(ctx, "C15", "settings changed", [("parse", 1, c, q) for c in (0, 2, 3) for q in (1, 12)] + [("parse", 1, 1, 1), ("parse", 1, 4, 3)], 1, QS, scale(3, 4), memo=memo, cold=False)
    suite(ctx, "C15", "long", [("parse", 1, 0, q) for q in (1, 3, 4)] + [("parse", 2, 3, 11)], 2, QS, scale(5, 6), alter=False, altererr=False, memo=memo, cold=False)
    suite(ctx, "C15", "long with changes", [("parse", 1, 0, 1), ("parse", 1, 0, 2), ("parse", 2, 0, 1)], 2, QS, scale(4, 5), alter=True, altererr=True, memo=memo, cold=False)
    random_sessions(ctx, "C15", scale(1200, 12000), scale(250, 2500), ["parse"] * 5 + ["fparse", "can", "validate", "validate-list", "validator", "antlr"], [], False, memo, "random sessions", capture=True)


def c17(ctx):
    memo = {}
    kinds = ["parse", "fparse", "can", "validate", "validate-w", "validate-list", "validator"]
    calls = []
    for q in range(len(QS)):
        for k in kinds:
            for c in ((0, 1) if k in ("parse", "fparse", "validator") else (0,)):
                calls.append((k, 1 + c if k == "parse" else 0, c, q))
    suite(ctx, "C17", "every call under every level", calls, 2, QS, 2, levels=[1, 2, 3], strip=True, memo=memo, capture=True)
    suite(ctx, "C17", "switching", [("parse", 1, 0, 1), ("parse", 1, 0, 3), ("parse", 2, 1, 1), ("validate-list", 0, 0, 7), ("validator", 0, 1, 7)], 2, QS, scale(4, 5), levels=[0, 1], strip=True, memo=memo, capture=True)
    random_sessions(ctx, "C17", scale(1200, 12000), scale(400, 3000), kinds[:2] * 2 + kinds, [0, 1, 1, 2, 3], True, memo, "random sessions", capture=True)


ALL = {"C15": c15, "C17": c17}
