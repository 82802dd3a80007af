----------------------------- MODULE VisitConform -----------------------------
(* Recorded traversals.  Record: h heap <<kind, children>>, V settings, sty handler  *)
(* styles by kind, en entry, log, r result                                         *)
EXTENDS Visitor, Json, IOUtils, TLC
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i
Heap(e) == [n \in 1..Len(e.h) |-> [t |-> e.h[n][1], k |-> e.h[n][2]]]
Want(e) == RunV(Heap(e), e.V, e.sty, VStart(e.en, e.V))
OfK(l, k) == SelectSeq(l, LAMBDA v : v[1] = k)
Bad(e) == LET w == Want(e) IN
  (IF OfK(w.log, "H") = OfK(e.log, "H") THEN {} ELSE {"handlers"}) \cup
  (IF w.log = e.log THEN {} ELSE {"hooks"}) \cup (IF w.ret.v = e.r THEN {} ELSE {"result"})
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Bad(Ev[Idx]) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> [log |-> Want(Ev[Idx]).log, r |-> Want(Ev[Idx]).ret.v]]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
