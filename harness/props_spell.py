"""C14: spellings of one token sequence."""
import json
import os
import random
import re
import time

import drive
import gen
from base import SEED, MachineryError, cps, text
from drive import P
from gen import Gen
from parsefam import ALLC, corpus, scale
from project import enc, noloc


def outcome(x, conf):
    try:
        n = drive.make_parser(**conf).parse(x)
        return ["ok", noloc(enc(n))] if isinstance(n, P.QueryNode) else ["other", []]
    except P.QueryParserException:
        return ["err", []]
    except drive.Hang:
        raise
    except BaseException as ex:
        return ["other", [type(ex).__name__]]


# ---- direction A ---------------------------------------------------------------
def lit(s):
    return dict(c="lit", v=cps(s))


def tok(s):
    return dict(c="tok", v=cps(s))


def quant(mn, mx):
    return dict(c="quant", mn=cps(str(mn)), mx=[] if mx is None else cps(str(mx)))


def flags(s):
    return dict(c="flags", v=cps(s))


def scope(s):
    return dict(c="scope", v=cps(s))


def base(*parts):
    out = []
    for p in parts:
        out += [p] if isinstance(p, dict) else [tok(w) for w in p.split()]
    return out


L = lit
BASES = [
    base(L("a")), base(L("")), base(L("a\"b'c\\d")), base(L("\n\t\r x")), base(L("\\.x\\[y\\\\n")), base(L("\u00e9e\u0301")), base(L("\U0001F600\uFFFD\x00")), base(L("\\x41 \\u0041 \\n")),
    base(L("a"), flags("iIld")), base(L("a"), flags("i")), base(L("a"), flags("IdI")), base(L("a"), flags("l"), quant(0, 1)), base(L("a"), flags("id"), quant(1, None)),
    base("[ a = ", L("v"), flags("id"), "]", quant(2, 2)), base("[ x : text != ", L("\\+"), "]", quant(0, 3), "within", scope("s")),
    base("[ !", "a = ", L("i"), "& ( b != ", L("\""), "| c =", L("'"), ") ]", quant(0, None)),
    base("( ", L("w"), "|", L("x"), quant(0, 1), "[ ]", ")", quant(1, None), L("y"), "within", scope("paragraph")),
    base(L("a"), quant(3, 2)), base(L("a"), flags("iI")), base("[ i : c = ", L("c"), flags("c"), "]"), base("[ s = ", L("s"), "] within", scope("turn")), base("[ within = ", L("w"), "] within", scope("session")),
    base(L("a"), quant(0, 0)), base(L("a"), quant(1, 1)), base(L("a"), quant(12, None)), base(L("a"), "within", scope("u")), base(L("a"), "within", scope("text")), base(L("a"), "within", scope("sentence")),
    base("[ a = ", L("x"), "] (", L("y"), "[ b =", L("z"), flags("I"), "] |", L("\t"), quant(0, 1), ")"),
    base(L("a"), "within"), base("[ a = b ]"), base("[ ! ! ( a =", L("x"), ") ] ]"), base(L("a"), "/"), base(L("a"), quant(1, 2), quant(1, 2)),
]
GAPS = [" ", "\n", "\t ", "\r\n", "\u2003", "\u0085\u3000"]


def group_outcomes(a):
    xs, conf = a
    return [outcome(x, dict(conf, loc=bool(j % 3))) for j, x in enumerate(xs)]


def suite(ctx, name, bases, gaps, maxdev, conf):
    path = os.path.join(ctx.tmp, f"spell-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(bases=bases, gaps=[cps(g) for g in gaps], maxdev=maxdev), f)
    res = ctx.tlc("SpellSuite", env={"SUITE": path})
    ctx.models[-1]["suite"] = {"name": name, "bases": len(bases), "deviations": maxdev, "gaps": [cps(g) for g in gaps]}
    t = time.time()
    plain, rest = {}, {}
    for o in res.lines:
        if o["d"] == 0:
            plain[o["b"]] = text(o["x"])
        else:
            rest.setdefault(o["b"], set()).add(text(o["x"]))
    jobs = []
    for b in sorted(rest):
        xs = sorted(rest[b] - {plain[b]})
        for i in range(0, len(xs), 60):
            jobs.append((b, xs[i:i + 60]))
    cs = [(conf[j % len(conf)]) for j in range(len(jobs))]
    rs = drive.pmap(group_outcomes, [([plain[b]] + xs, c) for (b, xs), c in zip(jobs, cs)], chunk=1)
    n, acc = 0, 0
    for (b, xs), c, r in zip(jobs, cs, rs):
        n += len(xs)
        if isinstance(r, tuple):
            ctx.fail("hang", {"base": plain[b]})
            continue
        acc += len(xs) if r[0][0] == "ok" else 0
        for x, o in zip(xs, r[1:]):
            if o != r[0] or o[0] == "other":
                ctx.fail("spelling", {"query": plain[b], "other spelling": x, "outcome": r[0], "other outcome": o, "settings": c, "suite": name})
    ctx.traces += n
    ctx.cov.setdefault("suites", []).append({"name": name, "bases": len(plain), "spellings": n, "accepted": acc, "rejected": n - acc, "replay_s": round(time.time() - t, 1)})
    if jobs:
        b, xs = jobs[len(jobs) // 2]
        ctx.sample({"suite": name, "query": plain[b], "spelling": xs[0]})


# ---- direction B ---------------------------------------------------------------
UNIT = re.compile(r"\\x([0-9a-fA-F]{2})|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\(.)|(.)", re.S)


def respell_lit(r, t, rate):
    units = []
    for m in UNIT.finditer(t[1:-1]):
        h = m.group(1) or m.group(2) or m.group(3)
        if h:
            v = int(h, 16)
            if v > 0x10FFFF:
                return t
            units.append(chr(v))
        elif m.group(4):
            c = m.group(4)
            units += ["\n"] if c == "n" else ["\t"] if c == "t" else [c] if c in "\\\"'" else ["\\" + c]
        else:
            units.append(m.group(5))
    q = r.choice("\"'")

    def one(c):
        v = ord(c)
        fs = [] if r.random() > rate else ["\\U%08x" % v] + (["\\u%04X" % v, "\\u%04x" % v] if v < 65536 else []) + (["\\x%02x" % v, "\\x%02X" % v] if v < 256 else [])
        if c == "\n" and r.random() < rate:
            fs.append("\\n")
        if c == "\t" and r.random() < rate:
            fs.append("\\t")
        if c in "\\\"'" and (c in ("\\", q) or r.random() < rate):
            fs += ["\\" + c] * 3
        if c not in ("\\", q):
            fs.append(c)
        return r.choice(fs)
    out = []
    for u in units:
        if len(u) == 2:
            out.append(u if r.random() > rate else one(u[0]) + one(u[1]))
        else:
            out.append(one(u))
    return q + "".join(out) + q


SC = {}
for ws in (["sentence", "s"], ["utterance", "u"], ["paragraph", "p"], ["turn", "t"], ["text"], ["session"]):
    for w in ws:
        SC[w] = ws


def zeros(r, n):
    return "0" * r.choice([0, 0, 0, 1, 2]) + n


def respell(r, toks, rate):
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t[0] in "\"'":
            out.append(respell_lit(r, t, rate))
        elif out and toks[i - 1] == "/" and set(t) <= set(gen.FLAGS):
            out.append("".join(r.choice({"i": "ic", "c": "ic", "I": "IC", "C": "IC"}.get(c, c)) for c in t))
        elif out and toks[i - 1] == "within" and t in SC:
            out.append(r.choice(SC[t]))
        elif t in "+*?" or t == "{":
            j = i
            if t == "{":
                if "}" not in toks[i:i + 5]:
                    out.append(t)
                    i += 1
                    continue
                j = i + toks[i:].index("}")
            s = "".join(toks[i:j + 1])
            m = re.fullmatch(r"\+|\*|\?|\{(\d*)(,?)(\d*)\}", s)
            if not m or s in ("{}", "{,}"):
                out += toks[i:j + 1]
            else:
                mn, mx = {"+": ("1", ""), "*": ("0", ""), "?": ("0", "1")}.get(s) or ((m.group(1) or "0"), m.group(3) if m.group(2) else m.group(1))
                mn, mx = str(int(mn)), str(int(mx)) if mx else ""
                fs = [["{", zeros(r, mn), ","] + ([zeros(r, mx)] if mx else []) + ["}"]]
                if mn == "0" and mx:
                    fs.append(["{", ",", zeros(r, mx), "}"])
                if mn == mx:
                    fs.append(["{", zeros(r, mn), "}"])
                k = {("1", ""): "+", ("0", ""): "*", ("0", "1"): "?"}.get((mn, mx))
                if k:
                    fs.append([k])
                out += r.choice(fs)
            i = j
        else:
            out.append(t)
        i += 1
    return out


def make(r):
    prof = dict(chars=r.choice(["ucd", "any", "ascii"]), lits=dict(plain=2, uni=3, esc=4, long=0.5, dict=1), badflags=0.1, badrange=0.1, badcp=0.03, flags=0.35, quant=0.4, within=0.35, budget=7)
    g = Gen(r, layout="wild", **prof)
    toks = g.tokens()
    if r.random() < 0.15:
        i = r.randrange(len(toks))
        k = r.randrange(3)
        toks = toks[:i] + ([] if k == 0 else [g.anytoken()] + toks[i:][k - 1:]) if k else toks[:i] + toks[i + 1:]
        if not toks:
            return None
    pair = []
    for _ in range(2):
        g.p["layout"] = r.choice(["wild", "wild", "plain"])
        t = respell(r, toks, r.choice([0, 0.2, 0.6]))
        s = []
        for a, b in zip([""] + t, t):      # '!' '=' must not fuse
            s += [" ", b] if a == "!" and b == "=" else [b]
        pair.append("".join(g.join(s)))
    return dict(x=pair[0], y=pair[1], di=r.choice(["text", "word", "x-a"]), op=r.choice(["Eq", "Ne"]), nf=r.choice(ALLC), loc=r.random() < 0.5)


def observe(q):
    c = {k: q[k] for k in ("di", "op", "nf", "loc")}
    a, b = outcome(q["x"], c), outcome(q["y"], c)
    return dict(x=cps(q["x"]), y=cps(q["y"]), xo=a[0], xt=a[1], yo=b[0], yt=b[1])


def c14(ctx):
    confs = [dict(di="text", op="Eq", nf="NFC"), dict(di="word", op="Ne", nf="NFKD"), dict(di="text", op="Eq", nf="None")]
    suite(ctx, "near", BASES, GAPS, 1, confs)
    suite(ctx, "two changes", BASES[:14] + BASES[17:20] + BASES[22:28], GAPS[1::4], scale(2, 3), confs)
    suite(ctx, "two changes, structure", BASES[14:17] + BASES[20:22] + BASES[28:], GAPS[2:4], 2, confs)
    t = time.time()
    reqs = corpus("C14", scale(7000, 120000), make)
    recs = []
    for q, r in zip(reqs, drive.pmap(observe, reqs)):
        recs.append(dict(x=cps(q["x"]), y=cps(q["y"]), xo="other", yo="other", xt=[], yt=[]) if isinstance(r, tuple) else r)
    ctx.traces += len(recs)
    dif = sum(r["x"] != r["y"] for r in recs)
    acc = sum(r["xo"] == "ok" for r in recs)
    path = os.path.join(ctx.tmp, "pairs.ndjson")
    prem = 0
    for part in range(0, len(recs), 30000):
        chunk = recs[part:part + 30000]
        with open(path, "w") as f:
            for r in chunk:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        for line in ctx.tlc("SpellConform", env={"TRACE": path}).lines:
            r = chunk[line["i"] - 1]
            if "premise" in line["bad"]:
                prem += 1
                if os.environ.get("VERIF_DEBUG"):
                    print("premise", repr(text(r["x"])), repr(text(r["y"])))
                continue
            q = reqs[part + line["i"] - 1]
            ctx.fail("spelling", {"query": q["x"], "other spelling": q["y"], "outcome": [r["xo"], r["xt"]], "other outcome": [r["yo"], r["yt"]],
                                  "settings": {k: q[k] for k in ("di", "op", "nf", "loc")}})
    if prem > len(recs) * 0.05:
        raise MachineryError(f"{prem} of {len(recs)} generated pairs are not spellings of the same tokens")
    ctx.cov.setdefault("recorded", []).append({"corpus": "random pairs of spellings", "pairs": len(recs), "different texts": dif, "accepted": acc, "discarded": prem, "replay_s": round(time.time() - t, 1)})
    if recs:
        ctx.sample({"pair": [reqs[7]["x"][:200], reqs[7]["y"][:200]]})


ALL = {"C14": c14}
