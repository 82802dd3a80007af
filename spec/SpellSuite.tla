------------------------------ MODULE SpellSuite ------------------------------
(* The spelling machine: writes an abstract query token by token, character by     *)
(* character inside literals, choosing spellings; at most maxdev choices deviate    *)
(* from the plain spelling, all such choices explored.                             *)
EXTENDS Spelling, Pda, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* bases: abstract queries; gaps: texts; maxdev
VARIABLES b, k, j, txt, q, dev
vars == <<b, k, j, txt, q, dev>>
Base == P.bases[b]
T == Base[k]

Wordy(c) == IsAlnum(c) \/ c = HYPHEN
Join(a, x) == \* plain join: a blank where two words would fuse, or '!' '='
  IF a # <<>> /\ x # <<>> /\ ((Wordy(a[Len(a)]) /\ Wordy(x[1])) \/ (a[Len(a)] = 33 /\ x[1] = 61)) THEN a \o <<32>> \o x ELSE a \o x
RECURSIVE JoinAll(_, _)
JoinAll(a, xs) == IF xs = <<>> THEN a ELSE JoinAll(Join(a, Head(xs)), Tail(xs))
(* join with gap g before every token of xs *)
RECURSIVE GapAll(_, _, _)
GapAll(a, xs, g) == IF xs = <<>> THEN a ELSE GapAll(a \o g \o Head(xs), Tail(xs), g)

Plain(t) == CASE t.c = "flags" -> <<<<47>>, t.v>>
              [] t.c = "scope" -> <<t.v>>
              [] t.c = "quant" -> CHOOSE s \in QuantForms(t.mn, t.mx) : \A r \in QuantForms(t.mn, t.mx) : Len(s) <= Len(r)
              [] OTHER -> <<t.v>>
FlagTexts(v) == {w \in [1..Len(v) -> {105, 99, 73, 67, 108, 100}] : \A m \in 1..Len(v) : w[m] \in FlagForms(v[m])}
Forms(t) == CASE t.c = "flags" -> {<<<<47>>, w>> : w \in FlagTexts(t.v)}
              [] t.c = "scope" -> {<<w>> : w \in ScopeForms(t.v)}
              [] t.c = "quant" -> QuantForms(t.mn, t.mx)
              [] OTHER -> {<<t.v>>}

Init == /\ b \in 1..Len(P.bases) /\ k = 1 /\ j = 0 /\ q = 0 /\ dev = 0
        /\ txt = <<>>
Budget == dev < P.maxdev
Adv(d, x) == /\ txt' = x /\ dev' = dev + d /\ k' = k + 1 /\ UNCHANGED <<b, j, q>>
(* a token other than a literal *)
Token == /\ k <= Len(Base) /\ T.c # "lit"
         /\ \/ Adv(0, JoinAll(txt, Plain(T)))
            \/ Budget /\ \E s \in Forms(T) : s # Plain(T) /\ Adv(1, JoinAll(txt, s))
            \/ Budget /\ \E g \in 1..Len(P.gaps) : Adv(1, GapAll(txt, Plain(T), P.gaps[g]))
(* a literal: opened with a quote, written character by character, closed *)
Open == /\ k <= Len(Base) /\ T.c = "lit" /\ q = 0
        /\ \E qq \in {SQ, DQ} : \E g \in 0..Len(P.gaps) :
             LET d == (IF qq = DQ THEN 0 ELSE 1) + (IF g = 0 THEN 0 ELSE 1) IN
             /\ dev + d <= P.maxdev
             /\ q' = qq /\ dev' = dev + d /\ j' = 0
             /\ txt' = txt \o (IF g = 0 THEN <<>> ELSE P.gaps[g]) \o <<qq>>
        /\ UNCHANGED <<b, k>>
Put(n, f, d) == txt' = txt \o f /\ j' = j + n /\ dev' = dev + d /\ UNCHANGED <<b, k, q>>
Char == /\ q # 0 /\ j < Len(T.v)
        /\ LET c == T.v[j + 1] pl == PlainForm(c, q) IN
           \/ Put(1, pl, 0)
           \/ Budget /\ \E f \in CharForms(c, q) : f # pl /\ Put(1, f, 1)
           \/ Budget /\ j + 1 < Len(T.v) /\ \E f \in PairForms(c, T.v[j + 2]) : Put(2, f, 1)
Close == /\ q # 0 /\ j = Len(T.v)
         /\ txt' = Append(txt, q) /\ q' = 0 /\ j' = 0 /\ k' = k + 1 /\ UNCHANGED <<b, dev>>
(* layout after the last token *)
Trail == /\ k = Len(Base) + 1 /\ Budget
         /\ \E g \in 1..Len(P.gaps) : txt' = txt \o P.gaps[g]
         /\ dev' = dev + 1 /\ k' = k + 1 /\ UNCHANGED <<b, j, q>>
Next == Token \/ Open \/ Char \/ Close \/ Trail

Written == k > Len(Base)
RECURSIVE PlainText(_, _)
PlainBody(v) == Flatten([m \in 1..Len(v) |-> PlainForm(v[m], DQ)])
PlainText(a, bs) == IF bs = <<>> THEN a
                    ELSE PlainText(IF Head(bs).c = "lit" THEN a \o <<DQ>> \o PlainBody(Head(bs).v) \o <<DQ>> ELSE JoinAll(a, Plain(Head(bs))), Tail(bs))
Plains == [i \in 1..Len(P.bases) |-> PlainText(<<>>, P.bases[i])]
ASSUME TLCSet(7, TLCEval([i \in 1..Len(P.bases) |-> TLCEval(LET m == Meaning(DefaultConf, Plains[i]) IN [out |-> m.out = "ok", t |-> NoLoc(m.tree)])]))
PlainMeaning == TLCGet(7)
Emit == Written => PrintT("@@" \o ToJson([b |-> b, d |-> dev, x |-> txt]))

(* design: the meaning of a query does not depend on its spelling *)
SpellingInvariant == Written => LET m == Meaning(DefaultConf, txt) IN [out |-> m.out = "ok", t |-> NoLoc(m.tree)] = PlainMeaning[b]
Spelled == Written => SameSpelled(txt, Plains[b])
=============================================================================
