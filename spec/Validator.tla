------------------------------ MODULE Validator ------------------------------
(* What the specification validator reports for a query tree.                  *)
(* Settings S:                                                                *)
(*   ai  allowed layer names (a sequence of texts; empty: no restriction)       *)
(*   aq  qualifier restrictions: a sequence of [id, none, qs]; the first entry   *)
(*       for a layer counts, none = TRUE allows no qualifier (empty sequence:    *)
(*       no restriction)                                                       *)
(*   we  warnings count as errors      rf  raise at the first counted issue     *)
EXTENDS Views

KnownLayers == {<<116,101,120,116>>, <<108,101,109,109,97>>, <<112,111,115>>, <<111,114,116,104>>, <<110,111,114,109>>, <<112,104,111,110,101,116,105,99>>}   \* text lemma pos orth norm phonetic
LegacyLayers == {<<119,111,114,100>>}
K_pos == <<112,111,115>>
IsCustom(id) == Len(id) >= 2 /\ id[1] = 120 /\ id[2] = 45     \* x-...
UD17 == {<<65,68,74>>, <<65,68,86>>, <<73,78,84,74>>, <<78,79,85,78>>, <<80,82,79,80,78>>, <<86,69,82,66>>, <<65,68,80>>, <<65,85,88>>, <<67,67,79,78,74>>, <<68,69,84>>, <<78,85,77>>, <<80,65,82,84>>, <<80,82,79,78>>, <<83,67,79,78,74>>, <<80,85,78,67,84>>, <<83,89,77>>, <<88>>}  \* ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X

(* a character, other than a space, that would have to be escaped in a regex    *)
RegexChars == {9, 10, 11, 12, 13, 35, 36, 38, 40, 41, 42, 43, 45, 46, 63, 91, 92, 93, 94, 123, 124, 125, 126}
RegexLike(v) == \E i \in 1..Len(v) : v[i] \in RegexChars

InSeq(x, ss) == \E i \in 1..Len(ss) : ss[i] = x

LayerIssue(S, n) ==
  IF S.ai # <<>> THEN (IF InSeq(n.id, S.ai) THEN <<>> ELSE <<"error">>)
  ELSE IF n.id \in KnownLayers THEN <<>>
  ELSE IF n.id \in LegacyLayers \/ IsCustom(n.id) THEN <<"warning">>
  ELSE <<"error">>

QualifierIssue(S, n) ==
  IF n.q = NoText \/ S.aq = <<>> THEN <<>>
  ELSE LET hits == {i \in 1..Len(S.aq) : S.aq[i].id = n.id}
           first == CHOOSE i \in hits : \A j \in hits : i <= j
       IN IF hits = {} THEN <<"error">>
          ELSE IF S.aq[first].none \/ ~InSeq(n.q, S.aq[first].qs) THEN <<"error">>
          ELSE <<>>

PosIssue(S, n) ==
  IF n.id = K_pos /\ n.q = NoText /\ n.re \notin UD17 /\ ~RegexLike(n.re) /\ n.fl = 0
  THEN <<"warning">> ELSE <<>>

(* issues of one condition, in the order they are found; ix = its place in the  *)
(* document order of all nodes                                                *)
CondIssues(S, n, ix) ==
  LET l == LayerIssue(S, n) \o QualifierIssue(S, n) \o PosIssue(S, n)
  IN [j \in 1..Len(l) |-> [lv |-> l[j], ix |-> ix, s |-> n.s, e |-> n.e]]

Issues(S, tree) ==
  LET p == PreOrder(tree)
  IN Flatten([i \in 1..Len(p) |-> IF p[i].t = "Expression" THEN CondIssues(S, p[i], i) ELSE <<>>])

Errors(is) == SelectSeq(is, LAMBDA y : y.lv = "error")
Warnings(is) == SelectSeq(is, LAMBDA y : y.lv = "warning")
Counted(S, is) == SelectSeq(is, LAMBDA y : y.lv = "error" \/ S.we)
Verdict(S, is) == IF Counted(S, is) = <<>> THEN "T" ELSE "F"

(* the text of a condition in the query last supplied (NoText: none supplied)   *)
Min(a, b) == IF a < b THEN a ELSE b
Fragment(q, s, e) == IF q = NoText \/ s < 0 THEN NoText ELSE SubSeq(q, s + 1, Min(e, Len(q)))

(* the outcome of a validation: verdict, or the issue raised *)
Outcome(S, is) == IF S.rf /\ Counted(S, is) # <<>> THEN "raise" ELSE Verdict(S, is)
=============================================================================
