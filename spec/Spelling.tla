-------------------------------- MODULE Spelling --------------------------------
(* The ways to write one and the same query.  An abstract token is                 *)
(*  [c "lit", v code points]  [c "flags", v text of i I l d]  [c "scope", v text]     *)
(*  [c "quant", mn, mx texts of digits (mx <<>>: unbounded)]  [c "tok", v text]        *)
(* Spellings(t) is the set of its token texts: a sequence of concrete token texts.   *)
EXTENDS Lexer, Decode, Tree

Hexd(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Hex(_, _, _)
Hex(c, n, up) == IF n = 0 THEN <<>> ELSE Append(Hex(c \div 16, n - 1, up), IF up THEN HexD(c % 16) ELSE Hexd(c % 16))
HexForms(c) ==
  (IF c < 256 THEN {<<BS, 120>> \o Hex(c, 2, u) : u \in BOOLEAN} ELSE {}) \cup
  (IF c < 65536 THEN {<<BS, 117>> \o Hex(c, 4, u) : u \in BOOLEAN} ELSE {}) \cup
  {<<BS, 85>> \o Hex(c, 8, u) : u \in BOOLEAN}
(* one character inside quotes q *)
CharForms(c, q) ==
  HexForms(c) \cup (IF c = q \/ c = BS THEN {} ELSE {<<c>>}) \cup (IF c \in QuoteEsc THEN {<<BS, c>>} ELSE {})
  \cup (IF c = 10 THEN {<<BS, 110>>} ELSE IF c = 9 THEN {<<BS, 116>>} ELSE {})
(* a backslash and a metacharacter may also be written as the metacharacter escaped *)
PairForms(a, b) == IF a = BS /\ b \in MetaChars THEN {<<BS, b>>} ELSE {}
PlainForm(c, q) == IF c = q \/ c = BS THEN <<BS, c>> ELSE <<c>>

(* quantifiers *)
Zero == <<48>>  OneT == <<49>>
QuantForms(mn, mx) ==
  (IF mn = Zero /\ mx = <<>> THEN {<<<<42>>>>} ELSE IF mn = OneT /\ mx = <<>> THEN {<<<<43>>>>}
   ELSE IF mn = Zero /\ mx = OneT THEN {<<<<63>>>>} ELSE {})
  \cup {<<<<123>>, mn, <<44>>>> \o (IF mx = <<>> THEN <<>> ELSE <<mx>>) \o <<<<125>>>>}
  \cup (IF mn = Zero /\ mx # <<>> THEN {<<<<123>>, <<44>>, mx, <<125>>>>} ELSE {})
  \cup (IF mn = mx THEN {<<<<123>>, mn, <<125>>>>} ELSE {})

ScopeForms(w) == {v \in ScopeWords : ScopeOf(v) = ScopeOf(w)}
FlagForms(c) == CASE c = 105 -> {105, 99} [] c = 73 -> {73, 67} [] OTHER -> {c}

(* ---- the reverse: what a text spells ---- *)
AliasFlag(c) == CASE c = 99 -> 105 [] c = 67 -> 73 [] OTHER -> c
Qn(a, b) == <<"quant", a, b>>
RECURSIVE CanonFrom(_, _)
CanonFrom(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE LET ty(j) == IF i + j <= Len(ts) THEN ts[i + j].ty ELSE "none"
           tx(j) == ts[i + j].tx
           D(x) == StripZeros([k \in 1..Len(x) |-> x[k] - 48])
           q(v, n) == <<v>> \o CanonFrom(ts, i + n)
       IN CASE ty(0) = "REGEXP" -> LET d == DecodeLiteral(tx(0)) IN q(<<"lit", d.ok, d.acc>>, 1)
            [] ty(0) = "/" /\ ty(1) = "FLAGS" -> q(<<"flags", [k \in 1..Len(tx(1)) |-> AliasFlag(tx(1)[k])]>>, 2)
            [] ty(0) = "WITHIN" /\ ty(1) = "SCOPE" -> q(<<"within", ScopeOf(tx(1))>>, 2)
            [] ty(0) = "+" -> q(Qn(<<1>>, <<-1>>), 1)
            [] ty(0) = "*" -> q(Qn(<<0>>, <<-1>>), 1)
            [] ty(0) = "?" -> q(Qn(<<0>>, <<1>>), 1)
            [] ty(0) = "{" /\ ty(1) = "INT" /\ ty(2) = "}" -> q(Qn(D(tx(1)), D(tx(1))), 3)
            [] ty(0) = "{" /\ ty(1) = "," /\ ty(2) = "INT" /\ ty(3) = "}" -> q(Qn(<<0>>, D(tx(2))), 4)
            [] ty(0) = "{" /\ ty(1) = "INT" /\ ty(2) = "," /\ ty(3) = "}" -> q(Qn(D(tx(1)), <<-1>>), 4)
            [] ty(0) = "{" /\ ty(1) = "INT" /\ ty(2) = "," /\ ty(3) = "INT" /\ ty(4) = "}" -> q(Qn(D(tx(1)), D(tx(3))), 5)
            [] OTHER -> q(<<ty(0), tx(0)>>, 1)
Canon(inp) == LET l == Lex(inp) IN [bad |-> l.bad # -1, ts |-> CanonFrom(l.ts, 1)]
SameSpelled(x, y) == LET a == Canon(x) b == Canon(y) IN ~a.bad /\ ~b.bad /\ a.ts = b.ts
=============================================================================
