"""C16: concurrent calls."""
import os
import random
import sys
import threading
import time
import json

import antlr4
import drive
import forked
import gen
from base import SEED, SRC, thorough
from coop import Coop
from parsefam import scale
from props_session import CONFS, QS, do_call, frees, references, rquery, view

OWN = [os.path.join(SRC, "fcsql") + "/parser.py", os.path.join(SRC, "fcsql") + "/validation.py", os.path.join(SRC, "fcsql") + "/__init__.py"]
ALLSRC = [os.path.join(SRC, "fcsql") + "/"]
WITHRT = ALLSRC + [os.path.dirname(antlr4.__file__) + "/"]
SCOPES = {"own": OWN, "all": ALLSRC, "runtime": WITHRT}


def worker(calls, queries, parsers, kept):
    def f():
        for c in calls:
            o, el = do_call(c, parsers, CONFS, queries, False)
            kept.append((o, el))
    return f


def run(a):
    """one controlled run in this process.  calls per thread; schedule in yield points or None (measure)"""
    per, queries, schedule, scope, opcodes = a
    kept = [[] for _ in per]
    fs = []
    for k, calls in enumerate(per):
        parsers = {c[1]: drive.make_parser(**CONFS[c[2]]) for c in calls if c[1]}
        fs.append(worker(calls, queries, parsers, kept[k]))
    counts, why = Coop(SCOPES[scope], opcodes).run(fs, schedule)
    if why == "hang":
        return {"n": counts, "why": why, "r": [[("?", "?")] * len(x) for x in kept]}
    return {"n": counts, "why": why, "r": [[view(o, el, False) for o, el in x] for x in kept]}


def runs(a):
    """several runs one after another in one process, within a time budget"""
    jobs, budget = a
    t = time.time()
    out = []
    for j in jobs:
        out.append(run(j) if time.time() - t < budget else None)
    return out


def stress(a):
    """free running threads"""
    per, queries = a
    kept = [[] for _ in per]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    go = threading.Barrier(len(per))
    ts = []
    for k, calls in enumerate(per):
        parsers = {c[1]: drive.make_parser(**CONFS[c[2]]) for c in calls if c[1]}
        f = worker(calls, queries, parsers, kept[k])

        def body(f=f):
            go.wait()
            f()
        ts.append(threading.Thread(target=body, daemon=True))
    for t in ts:
        t.start()
    for t in ts:
        t.join(50)
    sys.setswitchinterval(old)
    return {"n": [], "why": "", "r": [[view(o, el, False) for o, el in x] for x in kept]}


def adjudicate(ctx, items, label):
    """items: (per, queries, observed, refs by call, what)"""
    path = os.path.join(ctx.tmp, "thr.ndjson")
    for part in range(0, len(items), 20000):
        chunk = items[part:part + 20000]
        with open(path, "w") as f:
            for per, queries, o, refs, what in chunk:
                num = {}

                def n(x):
                    return num.setdefault(x, len(num) + 1)
                flat = sorted(refs)
                ix = {c: j + 1 for j, c in enumerate(flat)}
                f.write(frees({"th": [[ix[c] for c in calls] for calls in per], "r": [[[n(v[0]), n(v[1])] for v in x] for x in o["r"]],
                               "f": [[n(refs[c][0]), n(refs[c][1])] for c in flat]}) + "\n")
        for line in ctx.tlc("ThreadConform", env={"TRACE": path}).lines:
            per, queries, o, refs, what = chunk[line["i"] - 1]
            def short(x):
                return x if len(str(x)) < 4000 else str(x)[:4000]
            ctx.fail(",".join(sorted(line["bad"])), {"threads": [[list(c[:3]) + [queries[c[3]]] for c in calls] for calls in per], "schedule": what, "observed": short(o["r"]),
                                                     "alone": short([[refs[c] for c in calls] for calls in per]), "source": label})


def refs_of(per, queries, memo):
    cs = sorted({c for calls in per for c in calls})
    return dict(zip(cs, references(cs, CONFS, queries, False, memo)))


def points(h, sizes, units, rng):
    """model schedule (thread, units) -> yield points, with jitter inside the unit"""
    done = [0] * len(sizes)
    at = [0] * len(sizes)
    out = []
    for t, u in h:
        t -= 1
        done[t] += u
        tot = sum(units[t])
        if done[t] >= tot:
            out.append((t, None))
            continue
        p = (done[t] * sizes[t]) // tot
        if tot < sizes[t]:
            p -= rng.randrange(max(1, sizes[t] // tot))
        p = max(p, at[t])
        out.append((t, p - at[t]))
        at[t] = p
    return [x for x in out if x[1] is None or x[1] > 0]


def suite(ctx, name, sets, queries, bound, units, scope, opcodes=False, cold=False, memo=None, budget=25, limit=None):
    """sets: per set the calls of each thread.  units: number of units per call, or None for one per yield point"""
    rng = gen.rng(SEED, "C16", name)
    # sizes: yield points of each thread when alone, in the state it will have
    solo = [([calls], queries, [(0, None)], scope, opcodes) for per in sets for calls in per]
    if cold:
        ms = [r[0] for r in forked.pmap(run, solo)]
    else:
        ms = [(g[0][-1] if isinstance(g[0], list) else g[0]) for g in forked.pmap(runs, [([j, j], 100) for j in solo])]
    sizes, k = [], 0
    for per in sets:
        row = []
        for _ in per:
            m = ms[k]
            k += 1
            row.append(max(1, m["n"][0]) if isinstance(m, dict) else 1)
        sizes.append(row)
    js = []
    for per, row in zip(sets, sizes):
        us = [[max(1, (units or n) // len(calls))] * len(calls) for calls, n in zip(per, row)]
        js.append([{"calls": [f"{c}" for c in calls], "units": u} for calls, u in zip(per, us)])
    path = os.path.join(ctx.tmp, f"thr-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(sets=js, bound=bound), f)
    res = ctx.tlc("ThreadSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "thread sets": len(sets), "preemptions": bound}
    t = time.time()
    lines = res.lines
    rng.shuffle(lines)
    if limit:
        lines = lines[:limit]
    jobs = []
    for o in lines:
        per = sets[o["k"] - 1]
        us = [u["units"] for u in js[o["k"] - 1]]
        jobs.append((per, queries, points(o["h"], sizes[o["k"] - 1], us, rng), scope, opcodes))
    if cold:
        rs = [r[0] for r in forked.pmap(run, jobs)]
    else:
        size = max(1, min(60, len(jobs) // 16))
        rs = []
        groups = [jobs[i:i + size] for i in range(0, len(jobs), size)]
        for g, r in zip(groups, forked.pmap(runs, [(g, budget * 8 / max(1, len(groups))) for g in groups], chunk=1)):
            rs += r[0] if isinstance(r[0], list) else [r[0]] * len(g)
    items, ran, blocked = [], 0, 0
    table = [refs_of(per, queries, memo) for per in sets]
    for o, jb, r in zip(lines, jobs, rs):
        if r is None:
            continue
        ran += 1
        refs = table[o["k"] - 1]
        if isinstance(r, tuple):
            ctx.fail("no answer", {"threads": [[list(c[:3]) + [queries[c[3]]] for c in calls] for calls in jb[0]], "schedule": jb[2], "why": r[1], "source": name})
            continue
        blocked += r["why"] == "blocked"
        if r["why"] == "hang" or any([tuple(v) for v in x] != [refs[c] for c in calls] for x, calls in zip(r["r"], jb[0])):
            items.append((jb[0], queries, r, refs, jb[2]))
    ctx.traces += ran
    ctx.cov.setdefault("suites", []).append({"name": name, "schedules": len(res.lines), "replayed": ran, "infeasible": blocked, "yield points": [s for s in sizes[:4]], "cold": cold, "replay_s": round(time.time() - t, 1),
                                             "adjudicated": len(items)})
    if jobs:
        ctx.sample({"suite": name, "schedule": jobs[len(jobs) // 2][2]})
    if items:
        items.sort(key=lambda it: len(it[4]))
        adjudicate(ctx, items[:1000], name)


TQ = QS + ['[word="a" & x-foo="b"]', '"ab"{2,5}', '[ud:pos="noun"]', "'\\x41\\u00e9'", '"q" within paragraph', '"a" | "b" | "c"']


def PR(q, c=0, p=1):
    return ("parse", p, c, q)


def pairs():
    f = [("fparse", 0, 0, 1), ("fparse", 0, 1, 10), ("fparse", 0, 0, 3), ("fparse", 0, 0, 12), ("can", 0, 0, 9), ("can", 0, 0, 0), ("validate", 0, 0, 7), ("validate-list", 0, 0, 13), ("validate-list", 0, 0, 2),
         ("validate-w", 0, 0, 0), ("validator", 0, 0, 7), ("validator", 0, 1, 15), PR(1), PR(5), PR(8), PR(12, 2), PR(16), ("antlr", 0, 0, 11)]
    out = [((a,), (b,)) for j, a in enumerate(f) for b in f[j:]]
    return out


def c16(ctx):
    memo = {}
    ps = pairs()
    rng = gen.rng(SEED, "C16", "pairs")
    suite(ctx, "slices", ps, TQ, scale(2, 3), 6, "all", memo=memo, limit=scale(2500, 40000), budget=scale(15, 120))
    exact = [((("fparse", 0, 0, 0),), (("fparse", 0, 0, 3),)), ((("validate-list", 0, 0, 13),), (("validate-list", 0, 0, 15),)), ((PR(17),), (PR(2),)), ((("can", 0, 0, 2),), (("fparse", 0, 0, 16),))]
    suite(ctx, "every line of the package's own modules", exact, TQ, 1, None, "own", memo=memo, limit=scale(2500, 20000), budget=scale(15, 120))
    suite(ctx, "bytecodes", rng.sample(ps, scale(12, 60)), TQ, 2, 10, "own", opcodes=True, memo=memo, limit=scale(800, 10000), budget=scale(10, 100))
    three = [((a, b), (c,), (d,)) for a, b, c, d in ((("fparse", 0, 0, 1), ("can", 0, 0, 3), ("validate-list", 0, 0, 13), PR(4)), (PR(0), PR(11), ("fparse", 0, 0, 12), PR(8)))]
    suite(ctx, "three threads", three, TQ, 3, 4, "all", memo=memo, limit=scale(1000, 10000), budget=scale(10, 100))
    suite(ctx, "cold caches, in the runtime", [((a,), (b,)) for a, b in ((PR(1), PR(1)), (("fparse", 0, 0, 11), PR(3)), (PR(12), ("validate-list", 0, 0, 7)))], TQ, 2, 16, "runtime", cold=True, memo=memo,
          limit=scale(160, 3000))
    free(ctx, scale(60, 600), memo)


def free(ctx, n, memo):
    rng = gen.rng(SEED, "C16", "free")
    pool = list(TQ)
    while len(pool) < 150:
        x = rquery(rng)
        if len(x) < 300:
            pool.append(x)
    kinds = ["parse", "parse", "fparse", "can", "validate", "validate-list", "validate-w", "validator"]
    jobs = []
    for _ in range(n):
        per = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            calls = []
            c = rng.randrange(len(CONFS))
            for _ in range(rng.randint(4, 12)):
                k = rng.choice(kinds)
                calls.append((k, 1 if k == "parse" else 0, c if k == "parse" else rng.randrange(2) if k in ("fparse", "validator") else 0, rng.randrange(len(pool))))
            per.append(tuple(calls))
        jobs.append((tuple(per), pool))
    t = time.time()
    rs = forked.pmap(stress, jobs, chunk=1)
    allrefs = refs_of([c for per, _ in jobs for c in per], pool, memo)
    items = []
    for (per, queries), (r, _) in zip(jobs, rs):
        if isinstance(r, tuple):
            ctx.fail("no answer", {"threads": len(per), "why": r[1], "source": "free"})
            continue
        items.append((per, queries, r, {c: allrefs[c] for calls in per for c in calls}, "free running"))
    ctx.traces += len(items)
    ctx.cov.setdefault("recorded", []).append({"corpus": "free running threads", "runs": len(items), "calls": sum(len(c) for it in items for c in it[0]), "replay_s": round(time.time() - t, 1)})
    adjudicate(ctx, items, "free running")


ALL = {"C16": c16}
