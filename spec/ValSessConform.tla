---------------------------- MODULE ValSessConform ----------------------------
(* Recorded histories of client-defined validators.  Record: ts trees (encoded, as   *)
(* the code built them), tx query texts, vals, hk handled kinds, calls, prog, and     *)
(* what was observed: log, outs <<outcome, raised <<node>> or <<>>, fragment,          *)
(* errors, warnings>> with entries <<s, e, fragment>>.                               *)
EXTENDS ValSession, Json, IOUtils, TLC
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i
Result(e) == LET H == TLCEval([j \in 1..Len(e.ts) |-> TLCEval(HeapWithLoc(Rec(e.ts[j])))]) IN RunCalls(H, e.tx, e.hk, e.prog, e.calls, Sess(e.vals))
Short(ys) == [j \in 1..Len(ys) |-> <<ys[j].s, ys[j].e, ys[j].fr>>]
Parents(e, r) == r.log = e.log
Same(e, r, P(_, _)) == Len(r.outs) = Len(e.outs) /\ \A j \in 1..Len(r.outs) : P(r.outs[j], e.outs[j])
Verdicts(e, r) == Same(e, r, LAMBDA a, b : a.o = b[1])
Raised(e, r) == Same(e, r, LAMBDA a, b : a.o = "raise" => b[2] = <<a.n[2]>> /\ b[3] = a.fr)
Listed(e, r) == Same(e, r, LAMBDA a, b : a.l => Short(a.es) = b[4] /\ Short(a.ws) = b[5])
Bad(e, r) == (IF Parents(e, r) THEN {} ELSE {"handlers and parents"}) \cup (IF Verdicts(e, r) THEN {} ELSE {"outcome"})
             \cup (IF Raised(e, r) THEN {} ELSE {"raised"}) \cup (IF Listed(e, r) THEN {} ELSE {"lists"})
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET r == Result(Ev[Idx]) b == Bad(Ev[Idx], r) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> [log |-> r.log, outs |-> [j \in 1..Len(r.outs) |-> <<r.outs[j].o, r.outs[j].n, Short(r.outs[j].es), Short(r.outs[j].ws)>>]]]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
