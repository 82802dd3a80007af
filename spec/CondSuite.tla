------------------------------- MODULE CondSuite -------------------------------
(* A condition is built, then changed by the client; after every step all the     *)
(* questions are asked.                                                          *)
EXTENDS Cond, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* q, id: texts (NoText = none); fl: flag sets; aq, aid: arguments; depth
VARIABLES c, prog
vars == <<c, prog>>

Init == /\ \E q \in 1..Len(P.q), d \in 1..Len(P.id), o \in {"Eq", "Ne"}, f \in 1..Len(P.fl) :
             /\ c = [q |-> Stored(P.q[q]), id |-> P.id[d], op |-> o, fl |-> P.fl[f]]
             /\ prog = <<<<"new", P.q[q], P.id[d], o, P.fl[f]>>>>
Step(op, v, d) == c' = d /\ prog' = Append(prog, <<op, v>>)
Next == /\ Len(prog) <= P.depth
        /\ \/ \E q \in 1..Len(P.q) : ~(P.q[q] # NoText /\ Blank(P.q[q])) /\ Step("q", P.q[q], [c EXCEPT !.q = P.q[q]])
           \/ \E d \in 1..Len(P.id) : Step("id", P.id[d], [c EXCEPT !.id = P.id[d]])
           \/ \E o \in {"Eq", "Ne"} : Step("op", o, [c EXCEPT !.op = o])
           \/ \E f \in 1..Len(P.fl) : Step("fl", P.fl[f], [c EXCEPT !.fl = P.fl[f]])
           \/ c.fl # 0 /\ \E b \in 1..4 : Step("add", Bits[b], [c EXCEPT !.fl = WithFlag(c.fl, Bits[b])])
           \/ c.fl # 0 /\ \E b \in 1..4 : Step("del", Bits[b], [c EXCEPT !.fl = WithoutFlag(c.fl, Bits[b])])

Emit == PrintT("@@" \o ToJson([p |-> prog,
           hl |-> [j \in 1..Len(P.aid) |-> HasLayer(c, P.aid[j])],
           hq |-> [j \in 1..Len(P.aq) |-> HasQualifier(c, P.aq[j])],
           ho |-> <<HasOperator(c, "Eq"), HasOperator(c, "Ne")>>,
           hf |-> [b \in 1..4 |-> HasFlag(c, Bits[b])],
           qe |-> QualifierEmpty(c), fe |-> FlagsEmpty(c)]))

\* design: the questions agree with each other
OneOperator == HasOperator(c, "Eq") # HasOperator(c, "Ne")
EmptyMeansNo == /\ QualifierEmpty(c) => \A j \in 1..Len(P.aq) : ~HasQualifier(c, P.aq[j])
                /\ FlagsEmpty(c) <=> \A b \in 1..4 : ~HasFlag(c, Bits[b])
AtMostOne == \A j, k \in 1..Len(P.aid) : HasLayer(c, P.aid[j]) /\ HasLayer(c, P.aid[k]) => P.aid[j] = P.aid[k]
=============================================================================
