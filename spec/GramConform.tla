------------------------------ MODULE GramConform ------------------------------
(* Recorded behaviour of the shipped lexer and parser against the grammar files.        *)
(* Record: x text, tk tokens <<name, start, end>> before the first lexical error,        *)
(* bad its offset (-1: none), acc accepted by the parser ("T"/"F"/"other").             *)
EXTENDS Grammar, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* nodes, rules, start
T == P.nodes
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
ASSUME TLCSet(8, Config(T, {<<P.rules[j].top>> : j \in 1..Len(P.rules)}))
LexStart == TLCGet(8)
ASSUME TLCSet(9, Config(T, {<<P.start>>}))
VARIABLES sh, i
Idx == sh + Shards * i
Toks(e) == TokensFrom(T, P.rules, LexStart, e.x, 1, <<>>)
Names(l) == [k \in 1..Len(l.ts) |-> l.ts[k][1]]
Bad(e, l) ==
  (IF l.ts = e.tk /\ l.bad = e.bad THEN {} ELSE {"tokens"})
  \cup (IF l.bad >= 0 \/ e.bad >= 0 THEN (IF e.acc = "F" \/ l.bad # e.bad THEN {} ELSE {"accepted"})
        ELSE IF e.acc = (IF Derives(T, ReadAll(T, TLCGet(9), Names(l))) THEN "T" ELSE "F") THEN {} ELSE {"accepted"})
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET l == Toks(Ev[Idx]) b == Bad(Ev[Idx], l) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> [tk |-> l.ts, bad |-> l.bad, derives |-> Derives(T, ReadAll(T, TLCGet(9), Names(l)))]]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
