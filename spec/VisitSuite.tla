------------------------------ MODULE VisitSuite ------------------------------
(* Every visitor the suite allows on every tree of the suite: the client's choice  *)
(* of handler for a kind is made when a node of that kind is first met.            *)
EXTENDS Pda, Visitor, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.SUITE)   \* queries, hooks: visitor settings, styles, entries
ASSUME TLCSet(7, TLCEval([i \in 1..Len(P.queries) |-> TLCEval(HeapOf(Meaning(DefaultConf, P.queries[i]).tree))]))
Heaps == TLCGet(7)      \* the trees, computed once
VARIABLES qi, hi, en, sty, c
vars == <<qi, hi, en, sty, c>>
H == Heaps[qi]
V == P.hooks[hi]

Init == /\ qi \in 1..Len(P.queries) /\ hi \in 1..Len(P.hooks) /\ en \in 1..Len(P.entries)
        /\ sty = [k \in Kinds |-> "?"]
        /\ c = VStart(P.entries[en], V)
Unknown == c.to # 0 /\ sty[H[c.to].t] = "?"
Choose(j) == /\ Unknown
             /\ sty' = [sty EXCEPT ![H[c.to].t] = P.styles[j]]
             /\ c' = StepV(H, V, c, P.styles[j])
             /\ UNCHANGED <<qi, hi, en>>
Go == /\ ~Unknown /\ ~Done(c)
      /\ c' = StepV(H, V, c, IF c.to # 0 THEN sty[H[c.to].t] ELSE "none")
      /\ UNCHANGED <<qi, hi, en, sty>>
Next == Go \/ \E j \in 1..Len(P.styles) : Choose(j)

Emit == Done(c) => PrintT("@@" \o ToJson([q |-> qi, h |-> hi, e |-> en, log |-> c.log, r |-> c.ret.v,
                                         sty |-> [k \in {x \in Kinds : sty[x] # "?"} |-> sty[k]]]))

(* design *)
Handled == [j \in 1..Len(SelectSeq(c.log, LAMBDA v : v[1] = "H")) |-> SelectSeq(c.log, LAMBDA v : v[1] = "H")[j][2]]
Ordinary == \A k \in Kinds : sty[k] \in {"?", "none", "descend", "super", "post", "stop"}
OnceInOrder == Ordinary => \A i, j \in 1..Len(Handled) : i < j => Handled[i] < Handled[j]
\* nothing held back: every node with a handler is handled
Everything == (Done(c) /\ V.ct[1] = "always" /\ \A k \in Kinds : sty[k] \in {"?", "none", "descend", "super", "post"} /\ P.entries[en] # "children") =>
                {Handled[j] : j \in 1..Len(Handled)} = {n \in 1..Len(H) : sty[H[n].t] \notin {"?", "none"}}
\* every child is preceded by one consultation, and a refusal stops only the siblings
Consulted == (Done(c) /\ V.os /\ V.ct[1] = "always" /\ \A k \in Kinds : sty[k] \in {"?", "none", "descend", "super", "post"}) =>
                Len(SelectSeq(c.log, LAMBDA v : v[1] = "S")) = Len(H) - 1
Nested == \A i \in 1..(Len(c.fr) - 1) : c.fr[i + 1].n >= c.fr[i].n
SameAsRun == Done(c) => RunV(H, V, sty, VStart(P.entries[en], V)) = c
=============================================================================
