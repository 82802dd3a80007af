"""Properties about one parse call (C01-C10, C13, C22): TLC explores the automaton and
emits obligations (replayed on the real code), and the real code's answers to random
texts are recorded and checked by TLC against the same specification."""
import json
import os
import random
import time

import drive
import gen
from base import SEED, cps, text, thorough
from project import noloc

ALLC = ["NFC", "NFD", "NFKC", "NFKD", "None"]


# ---- direction B: recorded calls -> specification --------------------------
KEEP = ("x", "di", "op", "nf", "loc", "o", "t", "can", "errs", "exm", "st")


def conform(ctx, prop, recs, label="trace", count=True, key=None):
    """TLC checks recorded calls; every rejected record is a violation."""
    recs = [r if isinstance(r, dict) else None for r in recs]
    bad = 0
    for part in range(0, len(recs), 40000):
        chunk = recs[part:part + 40000]
        path = os.path.join(ctx.tmp, f"trace{part}.ndjson")
        with open(path, "w") as f:
            for r in chunk:
                f.write(json.dumps({k: [] if k == "t" and prop in ("C01", "C22") else r[k] for k in KEEP}, separators=(",", ":")) + "\n")
        res = ctx.tlc("Conform", env={"TRACE": path, "PROP": prop}, count=count)
        os.unlink(path)
        for line in res.lines:
            r = chunk[line["i"] - 1]
            bad += 1
            report(ctx, r, line["bad"], line["want"], label, key and key(text(r["x"]), line["bad"]))
    return bad


def report(ctx, r, clauses, want, label, key=None):
    case = {"query": text(r["x"]), "settings": {"default_identifier": text(r["di"]), "default_operator": r["op"], "normalization": r["nf"],
                                                "locations": r["loc"], "api": r.get("api", "QP")},
            "observed": {"outcome": r["o"], "tree": r["t"], "errors": r["errs"], "can_parse": r["can"], "detail": r.get("why", "")},
            "specified": want, "source": label}
    if key:
        case["specified"] = dict(want, t="...")
    if r["st"] != [-1]:
        case["observed"]["string"] = text([c for c in r["st"] if c >= 0])
    ctx.fail(",".join(sorted(clauses)), case, key)


def req(x, di="text", op="Eq", nf="NFC", loc=True, **kw):
    return dict(x=x, di=di, op=op, nf=nf, loc=loc, **kw)


def hang_rec(q, r):
    """a call that never answered is an outcome other than tree or exception"""
    if isinstance(r, tuple):
        return {"x": cps(q["x"]), "di": cps(q["di"]), "op": q["op"], "nf": q["nf"], "loc": q["loc"], "api": q.get("api", "QP"), "o": "other", "t": [],
                "can": "-", "errs": [], "exm": False, "st": [-1], "why": r[1]}
    return r


def plain(q):
    """with the recursion limit every program starts with"""
    import sys
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        return drive.observe(q)
    finally:
        sys.setrecursionlimit(limit)


def run(reqs, f=drive.observe):
    return [hang_rec(q, r) for q, r in zip(reqs, drive.pmap(f, reqs))]


# ---- direction A: specification -> real code -------------------------------
def suite_json(ctx, name, alph, maxlen, prefix="", suffix="", sep=" ", di="text", op="Eq", nf="NFC", lit=False):
    path = os.path.join(ctx.tmp, f"suite-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(alph=[cps(a) for a in alph], maxlen=maxlen, prefix=cps(prefix), suffix=cps(suffix), sep=cps(sep), di=cps(di), op=op, nf=nf, lit=lit), f)
    return path


def obligations(ctx, name, alph, maxlen, chars=False, dead=False, **kw):
    """dead: also every word that cannot follow a viable prefix.
    [(query text, outcome, encoded tree or [], es, ee)] from an exhaustive TLC exploration"""
    path = suite_json(ctx, name, alph, maxlen, **kw)
    res = ctx.tlc("CharSuite" if chars else "Suite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "alphabet": alph if len(alph) < 40 else len(alph), "maxlen": maxlen, "prefix": kw.get("prefix", ""), "suffix": kw.get("suffix", "")}
    sep, suf = kw.get("sep", " "), kw.get("suffix", "")
    out = []
    for d in res.lines:
        x = text(d["x"])
        if chars:
            out.append((x, d["o"], d["t"], d["es"], d["ee"]))
            continue
        out.append((x + suf, d["o"], d["t"], d["es"], d["ee"]))
        for i, es, ee in d["d"] if dead else ():
            out.append((x + sep + alph[i - 1], "syntax", [], es, ee))
    return out


def differs(a):
    """replay one obligation; None when the real code does what the specification says"""
    q, (x, o, t, es, ee), errors = a
    r = drive.observe(q)
    exp = t
    if o == "ok":
        if not q["loc"]:
            exp = noloc(t)
        if r["o"] == "ok" and r["t"] == exp and r["errs"] == [] and r["can"] in ("-", "T"):
            return None
        return r
    if r["o"] != "err" or r["can"] not in ("-", "F"):
        return r
    if o == "syntax" and errors:
        if x == "" and r["errs"] and r["errs"][0]["pk"] == "none":
            return None
        if not r["errs"] or not r["exm"]:
            return r
        e = r["errs"][0]
        if ee == -1:
            ok = e["pk"] == "int" and e["s"] == es
        else:
            ok = e["pk"] == "loc" and (e["s"], e["e"]) == (es, ee) and e["fr"] == r["x"][:ee]
        if not ok or any(not f["ms"] or f["ty"] != "syntax-error" for f in r["errs"]):
            return r
    return None


def replay_suite(ctx, prop, name, alph, maxlen, modes=({},), chars=False, **kw):
    obl = obligations(ctx, name, alph, maxlen, chars=chars, dead=prop in ("C01", "C22"), **kw)
    conf = {k: kw[k] for k in ("di", "op", "nf") if k in kw}
    jobs = []
    for j, o in enumerate(obl):
        m = modes[j % len(modes)]
        jobs.append((req(o[0], **dict(conf, **m)), o, prop == "C22"))
    t = time.time()
    rs = drive.pmap(differs, jobs)
    suspects = [hang_rec(q, r) for (q, _, _), r in zip(jobs, rs) if r is not None]
    ctx.traces += len(jobs)
    ok = sum(1 for o in obl if o[1] == "ok")
    ctx.cov.setdefault("suites", []).append({"name": name, "obligations": len(jobs), "accepted": ok, "rejected": len(jobs) - ok, "replay_s": round(time.time() - t, 1)})
    if obl:
        s = random.Random(f"{SEED}{name}").choice(obl)
        ctx.sample({"suite": name, "query": s[0], "specified": s[1]})
    ctx.cov["suites"][-1]["adjudicated"] = len(suspects)
    if suspects:
        suspects.sort(key=lambda r: len(r["x"]))
        conform(ctx, prop, suspects[:2000], label="suite " + name)


# ---- random corpora --------------------------------------------------------
def corpus(prop, n, make, tag=""):
    """n distinct requests from make(rng) (deterministic in the seed)"""
    out, seen = [], set()
    k = 0
    while len(out) < n and k < 6 * n:
        q = make(gen.rng(SEED, prop, tag, k))
        k += 1
        if q is None:
            continue
        key = (q["x"], q["di"], q["op"], q["nf"], q["loc"], q.get("api"))
        if key in seen or len(q["x"]) > 3000:
            continue
        seen.add(key)
        out.append(q)
    return out


def check_random(ctx, prop, reqs, label, key=None, f=drive.observe):
    t = time.time()
    recs = run(reqs, f)
    ctx.traces += len(recs)
    ok = sum(1 for r in recs if r["o"] == "ok")
    ctx.cov.setdefault("recorded", []).append({"corpus": label, "calls": len(recs), "accepted": ok, "rejected": len(recs) - ok,
                                               "longest": max((len(r["x"]) for r in recs), default=0),
                                               "average": round(sum(len(r["x"]) for r in recs) / max(1, len(recs))), "replay_s": round(time.time() - t, 1)})
    if reqs:
        ctx.sample({"recorded": label, "query": random.Random(SEED).choice(reqs)["x"][:200]})
    conform(ctx, prop, recs, label=label, key=key)


def scale(quick, deep):
    return deep if thorough() else quick
