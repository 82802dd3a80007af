------------------------------ MODULE ThreadSuite ------------------------------
(* Every schedule with at most P.bound preemptions of the suite's threads.          *)
EXTENDS Threads, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* sets: choices of threads [calls, units]; bound
VARIABLES k, s
vars == <<k, s>>
Th == P.sets[k]
Init == k \in 1..Len(P.sets) /\ s = T0(P.sets[k])
Run(t) == May(Th, s, t, P.bound) /\ s' = Unit(Th, s, t) /\ UNCHANGED k
Next == \E t \in 1..Len(Th) : Run(t)
Emit == AllOver(Th, s) => PrintT("@@" \o ToJson([k |-> k, h |-> s.hist]))
(* design: no interleaving changes what a call yields *)
AsAlone == /\ \A t \in 1..Len(Th) : s.ok[t]
           /\ \A t \in 1..Len(Th) : s.out[t] = SubSeq(Th[t].calls, 1, s.pc[t].c)
Bounded == s.np <= P.bound
=============================================================================
