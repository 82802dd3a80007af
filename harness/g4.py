"""Read ANTLR 4 grammar files into a table of expression nodes (spec/Grammar.tla).

Nodes: {"k": "set", "r": [[lo, hi], ..]} one character; {"k": "tok", "n": name} one token; {"k": "seq"|"alt"|"star", "a": [node numbers]}; {"k": "end", "i": number of the lexer rule}.
Node numbers are 1-based."""
import re

MAXCP = 0x10FFFF


class G4Error(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>'(?:\\u\{[0-9A-Fa-f]+\}|\\u[0-9A-Fa-f]{4}|\\.|[^'\\\n])*')
  | (?P<set>\[(?:\\.|[^\]\\])*\])
  | (?P<arrow>->)
  | (?P<range>\.\.)
  | (?P<pluseq>\+=)
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
  | (?P<num>[0-9]+)
  | (?P<op>[:;|()?*+~.=,@{}<>\#])
""", re.X | re.S)


def tokenize(text):
    out, i = [], 0
    while i < len(text):
        if text[i] == "{":      # an action: balanced braces
            d, j = 0, i
            while j < len(text):
                d += text[j] == "{"
                d -= text[j] == "}"
                j += 1
                if d == 0:
                    break
            out.append(("action", text[i:j]))
            i = j
            continue
        m = TOKEN.match(text, i)
        if not m:
            raise G4Error(f"cannot read {text[i:i + 20]!r}")
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}


def unescape(s, inset=False):
    """-> list of (char code, escaped?)"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            d = s[i + 1]
            if d == "u" and s[i + 2] == "{":
                j = s.index("}", i)
                out.append((int(s[i + 3:j], 16), True))
                i = j + 1
            elif d == "u":
                out.append((int(s[i + 2:i + 6], 16), True))
                i += 6
            elif d in "pP":
                raise G4Error("unicode property")
            else:
                out.append((ord(ESC.get(d, d)), True))
                i += 2
        else:
            out.append((ord(c), False))
            i += 1
    return out


def norm(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if out and lo <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return out


def complement(ranges):
    out, at = [], 0
    for lo, hi in norm(ranges):
        if lo > at:
            out.append([at, lo - 1])
        at = hi + 1
    if at <= MAXCP:
        out.append([at, MAXCP])
    return out


def charset(body):
    cs = unescape(body, True)
    out, i = [], 0
    while i < len(cs):
        if i + 2 < len(cs) and cs[i + 1] == (ord("-"), False):
            out.append([cs[i][0], cs[i + 2][0]])
            i += 3
        else:
            out.append([cs[i][0], cs[i][0]])
            i += 1
    return out


class File:
    """one grammar file: rules in order, each (name, fragment?, alternatives as a tree, commands)"""

    def __init__(self, text):
        self.toks = tokenize(text)
        self.i = 0
        self.rules = []
        self.literals = {}
        self.kind = ""
        self.file()

    def peek(self, *vals):
        return self.i < len(self.toks) and self.toks[self.i][1] in vals

    def pk(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else ""

    def take(self, val=None):
        t = self.toks[self.i]
        if val is not None and t[1] != val:
            raise G4Error(f"expected {val}, found {t[1]}")
        self.i += 1
        return t

    def file(self):
        if self.peek("lexer", "parser"):
            self.kind = self.take()[1]
        self.take("grammar")
        self.take()
        self.take(";")
        while self.i < len(self.toks):
            if self.peek("options", "tokens", "channels") and self.toks[self.i + 1][0] == "action":
                self.i += 2
            elif self.peek("@"):
                while self.pk() != "action":
                    self.i += 1
                self.i += 1
            elif self.peek("import"):
                raise G4Error("import")
            elif self.peek("mode"):
                raise G4Error("mode")
            else:
                self.rule()

    def rule(self):
        frag = False
        while self.peek("fragment", "public", "private", "protected"):
            frag = self.take()[1] == "fragment" or frag
        k, name = self.take()
        if k != "id":
            raise G4Error(f"rule name expected, found {name}")
        while not self.peek(":"):
            self.i += 1          # arguments, returns, locals, actions
            if self.i >= len(self.toks):
                raise G4Error("rule body expected")
        self.take(":")
        self.cmds = []
        e = self.alts()
        self.take(";")
        while self.peek("catch", "finally"):
            while self.pk() != "action":
                self.i += 1
            self.i += 1
        self.rules.append((name, frag, e, self.cmds))

    def alts(self):
        out = [self.alt()]
        while self.peek("|"):
            self.take()
            out.append(self.alt())
        return out[0] if len(out) == 1 else ("alt", out)

    def alt(self):
        out = []
        while self.i < len(self.toks) and not self.peek("|", ";", ")"):
            if self.peek("->"):
                self.take()
                depth = 0
                while not (depth == 0 and self.peek("|", ";")):
                    v = self.take()[1]
                    depth += (v == "(") - (v == ")")
                    if v not in ("(", ")", ","):
                        self.cmds.append(v)
                break
            if self.peek("#"):
                self.take()
                self.take()
                continue
            if self.pk() == "action":
                self.take()
                if self.peek("?"):
                    raise G4Error("predicate")
                continue
            if self.peek("<"):
                while not self.peek(">"):
                    self.i += 1
                self.take(">")
                continue
            out.append(self.element())
        return ("seq", out)

    def element(self):
        if self.pk() == "id" and self.i + 1 < len(self.toks) and self.toks[self.i + 1][1] in ("=", "+="):
            self.i += 2
        neg = False
        while self.peek("~"):
            self.take()
            neg = not neg
        k, v = self.take()
        if v == "(":
            e = self.alts()
            self.take(")")
        elif k == "str":
            cs = [c for c, _ in unescape(v[1:-1])]
            if self.pk() == "range":
                self.take()
                hi = [c for c, _ in unescape(self.take()[1][1:-1])]
                e = ("set", [[cs[0], hi[0]]])
            else:
                e = ("str", cs)
        elif k == "set":
            e = ("set", charset(v[1:-1]))
        elif k == "id":
            e = ("ref", v)
        elif v == ".":
            e = ("any",)
        else:
            raise G4Error(f"unexpected {v}")
        if neg:
            e = ("not", e)
        if self.peek("?", "*", "+"):
            op = self.take()[1]
            if self.peek("?"):
                raise G4Error("non-greedy")
            e = {"?": ("alt", [e, ("seq", [])]), "*": ("star", e), "+": ("seq", [e, ("star", e)])}[op]
        return e


class Table:
    def __init__(self):
        self.nodes = []

    def add(self, **n):
        d = {"k": "", "r": [], "a": [], "n": "", "i": 0}
        d.update(n)
        self.nodes.append(d)
        return len(self.nodes)

    def seq(self, *a):
        return self.add(k="seq", a=list(a))


def charsof(e, frags):
    """a set-like lexer expression -> ranges"""
    if e[0] == "set":
        return e[1]
    if e[0] == "str" and len(e[1]) == 1:
        return [[e[1][0]] * 2]
    if e[0] == "alt":
        return [r for x in e[1] for r in charsof(x, frags)]
    if e[0] == "seq" and len(e[1]) == 1:
        return charsof(e[1][0], frags)
    if e[0] == "ref":
        return charsof(frags[e[1]], frags)
    if e[0] == "not":
        return complement(charsof(e[1], frags))
    raise G4Error("not a set of characters")


def lexer_table(t, f):
    """-> list of (name, node number of the whole rule incl. its end mark, skipped?)"""
    bodies = {n: e for n, _, e, _ in f.rules}
    done = {}

    def go(e):
        if e[0] == "seq":
            return t.seq(*[go(x) for x in e[1]])
        if e[0] == "alt":
            return t.add(k="alt", a=[go(x) for x in e[1]])
        if e[0] == "star":
            return t.add(k="star", a=[go(e[1])])
        if e[0] == "str":
            return t.seq(*[t.add(k="set", r=[[c, c]]) for c in e[1]])
        if e[0] == "set":
            return t.add(k="set", r=norm(e[1]))
        if e[0] == "any":
            return t.add(k="set", r=[[0, MAXCP]])
        if e[0] == "not":
            return t.add(k="set", r=complement(charsof(e[1], bodies)))
        if e[1] == "EOF":
            raise G4Error("EOF in a lexer rule")
        if e[1] not in bodies:
            raise G4Error(f"unknown rule {e[1]}")
        if e[1] not in done:
            done[e[1]] = None
            done[e[1]] = go(bodies[e[1]])
        if done[e[1]] is None:
            raise G4Error("recursive lexer rule")
        return t.seq(done[e[1]])
    out = []
    for n, frag, e, cmds in f.rules:
        if frag:
            continue
        if set(cmds) - {"skip", "channel", "HIDDEN", "type"} or "type" in cmds:
            raise G4Error(f"lexer command {cmds}")
        i = len(out) + 1
        out.append({"n": n, "top": t.seq(go(e), t.add(k="end", i=i)), "skip": bool(cmds)})
    return out


def parser_table(t, f, lexer):
    """-> {rule name: node number of its body}"""
    lits = {}
    for n, _, e, _ in lexer.rules:
        x = e
        while x[0] == "seq" and len(x[1]) == 1:
            x = x[1][0]
        if x[0] == "str":
            lits.setdefault(tuple(x[1]), n)
    num = {n: t.add(k="seq") for n, _, _, _ in f.rules}
    names = {n for n, fr, _, _ in lexer.rules if not fr} | {"EOF"}

    def go(e):
        if e[0] == "seq":
            return t.seq(*[go(x) for x in e[1]])
        if e[0] == "alt":
            return t.add(k="alt", a=[go(x) for x in e[1]])
        if e[0] == "star":
            return t.add(k="star", a=[go(e[1])])
        if e[0] == "str":
            if tuple(e[1]) not in lits:
                raise G4Error("unknown literal")
            return t.add(k="tok", n=lits[tuple(e[1])])
        if e[0] == "not":
            inner = {t.nodes[j - 1]["n"] for j in toks(e[1])}
            return t.add(k="alt", a=[t.add(k="tok", n=x) for x in sorted(names - inner - {"EOF"})])
        if e[0] == "any":
            return t.add(k="alt", a=[t.add(k="tok", n=x) for x in sorted(names - {"EOF"})])
        if e[0] == "ref":
            if e[1] in num:
                return t.seq(num[e[1]])
            if e[1] in names:
                return t.add(k="tok", n=e[1])
            raise G4Error(f"unknown symbol {e[1]}")
        raise G4Error(e[0])

    def toks(e):
        if e[0] == "alt" or e[0] == "seq":
            return [j for x in e[1] for j in toks(x)]
        return [go(e)]
    for n, _, e, _ in f.rules:
        t.nodes[num[n] - 1]["a"] = [go(e)]
    return num


def atn_table(t, atn, leaf, tops):
    """the states of an ATN reachable from the given start states, as nodes.  leaf(transition) -> node number or None (not a leaf).
    -> {state number: node number}"""
    from antlr4.atn.ATNState import ATNState
    from antlr4.atn.Transition import Transition
    num = {}
    todo = list(tops)

    def node(s):
        if s.stateNumber not in num:
            num[s.stateNumber] = t.add(k="alt")
            todo.append(s)
        return num[s.stateNumber]

    def at_end(s):
        got = set()
        while s.stateNumber not in got:
            got.add(s.stateNumber)
            if s.stateType == ATNState.RULE_STOP:
                return True
            trs = s.transitions
            if len(trs) != 1 or not trs[0].isEpsilon or trs[0].serializationType == Transition.RULE:
                return False
            s = trs[0].target
        return False
    for s in tops:
        node(s)
    seen = set()
    while todo:
        s = todo.pop()
        if s.stateNumber in seen:
            continue
        seen.add(s.stateNumber)
        me = num[s.stateNumber]
        if s.stateType == ATNState.RULE_STOP:
            t.nodes[me - 1].update(k="seq", a=[])
            continue
        a = []
        for tr in s.transitions:
            if tr.serializationType == Transition.RULE:
                # a call at the end of a rule leaves nothing to return to
                a.append(t.seq(node(tr.target)) if at_end(tr.followState) else t.seq(node(tr.target), node(tr.followState)))
            elif tr.isEpsilon:
                a.append(t.seq(node(tr.target)))
            else:
                a.append(t.seq(leaf(tr), node(tr.target)))
        t.nodes[me - 1]["a"] = a
    return num


def ranges_of(tr, maxv=MAXCP):
    from antlr4.atn.Transition import Transition
    if tr.serializationType == Transition.WILDCARD:
        return [[0, maxv]]
    out = [[r.start, r.stop - 1] for r in tr.label.intervals]
    if tr.serializationType == Transition.NOT_SET:
        out = complement(out)
    return norm(out)


def classes(t):
    """representative characters: two for every class that the sets of the table distinguish"""
    cuts = {0}
    for n in t.nodes:
        for lo, hi in n["r"]:
            cuts.add(lo)
            cuts.add(hi + 1)
    cuts = sorted(c for c in cuts if c <= MAXCP)
    sets = {tuple(map(tuple, n["r"])) for n in t.nodes if n["r"]}
    seen = {}
    for j, c in enumerate(cuts):
        hi = (cuts[j + 1] if j + 1 < len(cuts) else MAXCP + 1) - 1
        sig = tuple(any(lo <= c <= h for lo, h in s) for s in sorted(sets))
        for x in (c, hi):
            if not 0xD800 <= x <= 0xDFFF:
                seen.setdefault(sig, []).append(x)
    return [sorted(set(v)) for v in seen.values()]
