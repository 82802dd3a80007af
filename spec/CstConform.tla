------------------------------- MODULE CstConform -------------------------------
(* Recorded low-level parses against the specification.  Record:                      *)
(*   x text   o "ok" / "syntax" (SyntaxError) / "other"                              *)
(*   hi outcome of the high-level parser: "ok" / "syntax" / "static" / "other"        *)
(*   cst the tree, link: every child names its parent                                *)
(*   tour, every   events of the listener's own and general handlers                   *)
(*   vis  nodes reached by a visitor with every handler replaced and passed on;          *)
(*   gen  nodes reached by the stock visitor (seen from visitChildren)                  *)
(*   one  <<rule, nodes>> reached by a visitor with only that rule's handler            *)
(*   acc  <<node, child kind, many, answers>> the named accessors of every rule node     *)
EXTENDS Cst, Json, IOUtils, TLC
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i

Numbers(r) == [j \in 1..Len(r) |-> r[j][2]]
RulePos(cst) == LET S == {j \in 1..Len(cst) : cst[j][2] \in RuleNames} IN
                [n \in 1..Cardinality(S) |-> CHOOSE j \in S : Cardinality({k \in S : k <= j}) = n]
(* answers: ordinals (from 1) among the children; -1 for "none" *)
AccOK(cst, pos, a) ==
  LET ls == KidLabels(cst, pos[a[1]])
      mine == SelectSeq([j \in 1..Len(ls) |-> j], LAMBDA j : ls[j] = a[2])
  IN IF a[3] THEN a[4] = mine ELSE a[4] = <<IF mine = <<>> THEN 0 - 1 ELSE mine[1]>>
Clauses(e, l) ==
  LET t == Tour(l.cst) r == Reached(l.cst) IN
  {c \in {"outcome", "high-level", "tree", "links", "listener", "visitor", "accessor"} :
     ~(CASE c = "outcome" -> e.o = l.o
         [] c = "high-level" -> (e.hi = "syntax") <=> (e.o = "syntax")
         [] e.o # "ok" \/ l.o # "ok" -> TRUE
         [] c = "tree" -> e.cst = l.cst
         [] e.cst # l.cst -> TRUE
         [] c = "links" -> e.link
         [] c = "listener" -> e.tour = t /\ e.every = t
         [] c = "visitor" -> e.vis = r /\ e.gen = Numbers(r) /\ e.one[2] = Numbers(SelectSeq(r, LAMBDA y : y[1] = e.one[1]))
         [] OTHER -> LET pos == RulePos(l.cst) IN \A j \in 1..Len(e.acc) : AccOK(l.cst, pos, e.acc[j]))}
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET l == LowLevel(Ev[Idx].x) b == Clauses(Ev[Idx], l) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> [o |-> l.o, cst |-> l.cst]]))
        /\ i' = i + 1 /\ UNCHANGED sh
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
