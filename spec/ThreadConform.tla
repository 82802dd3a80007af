----------------------------- MODULE ThreadConform -----------------------------
(* Recorded concurrent runs; values interned per record.  Record: th threads        *)
(* [calls], r per thread the <<value, errors>> of its calls, f per call the <<value,   *)
(* errors>> of the call alone.  Every call of every thread ended (Threads: AllOver),   *)
(* with what it yields alone (Threads: AsAlone).                                    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i
Ended(e) == \A t \in 1..Len(e.th) : Len(e.r[t]) = Len(e.th[t])
Results(e) == Ended(e) => \A t \in 1..Len(e.th) : \A j \in 1..Len(e.th[t]) : e.r[t][j][1] = e.f[e.th[t][j]][1]
Errors(e) == Ended(e) => \A t \in 1..Len(e.th) : \A j \in 1..Len(e.th[t]) : e.r[t][j][2] = e.f[e.th[t][j]][2]
Bad(e) == (IF Ended(e) THEN {} ELSE {"not ended"}) \cup (IF Results(e) THEN {} ELSE {"result"}) \cup (IF Errors(e) THEN {} ELSE {"errors"})
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Bad(Ev[Idx]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> "as alone"]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
