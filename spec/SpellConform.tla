----------------------------- MODULE SpellConform -----------------------------
(* Recorded pairs of queries x, y with the real outcomes xo, yo ("ok", "err",       *)
(* "other") and trees xt, yt without locations: queries that spell the same token   *)
(* sequence have the same tree or are both rejected.                               *)
EXTENDS Spelling, Json, IOUtils, TLC
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i
Bad(e) == IF ~SameSpelled(e.x, e.y) THEN {"premise"}
          ELSE IF e.xo = e.yo /\ e.xo # "other" /\ e.xt = e.yt THEN {} ELSE {"spelling"}
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Bad(Ev[Idx]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> "the same outcome"]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
