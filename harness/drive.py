"""Run the real code of /repo and record what it does."""
import os
import signal
import sys
from multiprocessing import get_context

from base import SRC, WORKERS, cps

sys.path.insert(0, SRC)
import fcsql  # noqa: E402
from fcsql import parser as P  # noqa: E402
from fcsql import validation as V  # noqa: E402

from project import NOTEXT, enc, offs  # noqa: E402

assert os.path.realpath(fcsql.__file__).startswith(SRC), fcsql.__file__

CASE_LIMIT = 90


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def _init():
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(3000)


def _guard(a):
    f, x = a
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        return f(x)
    except Hang:
        return ("!hang", f"no answer within {CASE_LIMIT} s")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_POOL = None


def pool():
    """one pool for the whole run, so that prediction caches warm up once per worker"""
    global _POOL
    if _POOL is None:
        import atexit
        import gc
        gc.collect()
        gc.freeze()
        _POOL = get_context("fork").Pool(WORKERS, initializer=_init)
        atexit.register(_POOL.terminate)
    return _POOL


def pmap(f, jobs, chunk=None):
    jobs = list(jobs)
    if not jobs:
        return []
    return pool().map(_guard, [(f, j) for j in jobs], chunksize=chunk or max(1, min(400, len(jobs) // (WORKERS * 8))))


OPERATOR = {"Eq": P.Operator.EQUALS, "Ne": P.Operator.NOT_EQUALS}


def make_parser(di="text", op="Eq", nf="NFC", loc=True):
    return P.QueryParser(default_identifier=di, default_operator=OPERATOR[op],
                         unicode_normalization_form=None if nf == "None" else nf, enableSourceLocations=loc)


def err(d, query):
    ty = d.type if isinstance(d.type, str) else "?"
    ms = isinstance(d.message, str) and bool(d.message)
    pos = d.position
    s = e = -1
    if pos is None:
        pk = "none"
    elif type(pos) is int:
        pk, s = "int", offs(pos)
    elif isinstance(pos, P.SourceLocation):
        pk, s, e = "loc", offs(pos.start), offs(pos.stop)
    else:
        pk = "odd"
    fr = NOTEXT if d.fragment is None else cps(d.fragment) if isinstance(d.fragment, str) else [-2]
    return {"ty": ty, "ms": ms, "pk": pk, "s": s, "e": e, "fr": fr}


def errlist(l, query):
    try:
        return [err(d, query) for d in l]
    except Exception:
        return [{"ty": "?", "ms": False, "pk": "odd", "s": -1, "e": -1, "fr": NOTEXT}]


def tri(f, exc=()):
    """answer of a yes/no call"""
    try:
        v = f()
    except Hang:
        raise
    except BaseException as ex:
        return "exc:" + type(ex).__name__
    return "T" if v is True else "F" if v is False else "other"


def observe(req):
    """req: x (str), di, op, nf, loc, api: QP | facade | default, can, st -> record for spec/Conform.tla"""
    x = req["x"]
    r = {"x": cps(x), "di": cps(req["di"]), "op": req["op"], "nf": req["nf"], "loc": req["loc"], "api": req.get("api", "QP"),
         "o": "other", "t": [], "can": "-", "errs": [], "exm": False, "st": NOTEXT, "why": ""}
    p = None
    try:
        if r["api"] == "facade":
            n = fcsql.parse(x, enableSourceLocations=req["loc"])
        elif r["api"] == "facade-default":
            n = fcsql.parse(x)
        elif r["api"] == "default":
            p = P.QueryParser()
            n = p.parse(x)
        else:
            p = make_parser(req["di"], req["op"], req["nf"], req["loc"])
            n = p.parse(x)
        if isinstance(n, P.QueryNode):
            r["o"] = "ok"
            r["t"] = enc(n)
            if req.get("st"):
                s = str(n)
                r["st"] = cps(s) if isinstance(s, str) else [-2]
        else:
            r["why"] = "returned " + type(n).__name__
    except P.QueryParserException as ex:
        r["o"] = "err"
        r["why"] = str(ex)[:120]
        try:
            r["exm"] = bool(p and p.errors and isinstance(p.errors[0].message, str) and p.errors[0].message in str(ex))
        except Exception:
            r["exm"] = False
    except Hang:
        r["why"] = "hang"
    except BaseException as ex:
        r["o"] = "other"
        r["why"] = type(ex).__name__ + ": " + str(ex)[:100]
    if p is not None:
        r["errs"] = errlist(getattr(p, "errors", None), x)
    if req.get("can"):
        c = tri(lambda: fcsql.can_parse(x))
        r["can"] = c if c in ("T", "F") else "other"
    return r
