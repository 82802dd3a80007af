"""Projection of real query trees onto the abstract nodes of spec/Tree.tla.

Total: whatever the code under test returns is mapped to *some* encoding, so that a
wrong value shows up as a difference and never as a crash of the harness.
Encoding (same as Views!Enc), by kind:
  Expression [t, s, e, q, id, op, re, fl]; SimpleWithin [t, s, e, sc];
  QuerySegment/QueryGroup [t, s, e, mn, mx, kids]; others [t, s, e, kids]
"""
from fcsql import parser as P

NOTEXT = [-1]
MAXDEPTH = 400


def cps(s):
    return [ord(c) for c in s]


def text(v):
    if v is None:
        return NOTEXT
    if isinstance(v, str):
        return cps(v)
    return [-2] + cps(repr(v))[:60]


def num(v):
    if type(v) is int:
        if v == -1:
            return [-1]
        if v >= 0:
            try:
                return [int(d) for d in str(v)]
            except ValueError:
                return [-3]
    return [-2] + cps(repr(v))[:60]


def offs(v):
    return v if type(v) is int and abs(v) < 2**31 else -99


FLAG = {"case-insensitive": 1, "case-sensitive": 2, "literal-matching": 4, "ignore-diacritics": 8}
KINDS = [
    (P.Expression, "Expression"),
    (P.ExpressionWildcard, "Wildcard"),
    (P.ExpressionGroup, "Group"),
    (P.ExpressionOr, "Or"),
    (P.ExpressionAnd, "And"),
    (P.ExpressionNot, "Not"),
    (P.QuerySegment, "QuerySegment"),
    (P.QueryGroup, "QueryGroup"),
    (P.QuerySequence, "QuerySequence"),
    (P.QueryDisjunction, "QueryDisjunction"),
    (P.QueryWithWithin, "QueryWithWithin"),
    (P.SimpleWithin, "SimpleWithin"),
]


def kind(n):
    for c, k in KINDS:
        if isinstance(n, c):
            return k
    return "?" + type(n).__name__


def op(v):
    return {P.Operator.EQUALS: "Eq", P.Operator.NOT_EQUALS: "Ne"}.get(v, "?") if isinstance(v, str) else "?"


def flags(v):
    if v is None:
        return 0
    try:
        if len(v) == 0:
            return 64  # an empty set where None is documented
        r = 0
        for f in v:
            r |= FLAG.get(str(getattr(f, "value", f)), 16)
        return r
    except Exception:
        return 32


def loc(n):
    v = getattr(n, "location", None)
    if v is None:
        return -1, -1
    return offs(getattr(v, "start", None)), offs(getattr(v, "stop", None))


def enc(n, depth=0):
    k = kind(n)
    s, e = loc(n)
    try:
        kids_raw = list(n.children)
    except Exception:
        kids_raw = []
    if depth > MAXDEPTH:
        return ["?deep", s, e, []]
    if k == "Expression" and not kids_raw:
        return [k, s, e, text(n.qualifier), text(n.identifier), op(n.operator), text(n.regex), flags(n.regex_flags)]
    if k == "SimpleWithin" and not kids_raw:
        return [k, s, e, str(getattr(n.scope, "value", n.scope)) if isinstance(n.scope, P.SimpleWithinScope) else "?"]
    kids = [enc(c, depth + 1) for c in kids_raw]
    if k in ("QuerySegment", "QueryGroup"):
        return [k, s, e, num(n.min_occurs), num(n.max_occurs), kids]
    if k in ("Expression", "SimpleWithin"):
        k = "?" + k  # a leaf with children
    return [k, s, e, kids]


def noloc(x):
    if isinstance(x[-1], list) and x[0] != "Expression":
        return [x[0], -1, -1] + x[3:-1] + [[noloc(c) for c in x[-1]]]
    return [x[0], -1, -1] + x[3:]
