------------------------------ MODULE SessionSuite ------------------------------
(* All sessions of the given length over the suite's calls.  Every complete session *)
(* is emitted: the actions, and for each kept result whether it must still have the  *)
(* value its call returned.                                                       *)
EXTENDS Session, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)    \* calls, np, len, alter, altererr, levels
VARIABLES s, h
vars == <<s, h>>
Init == s = Begin(P.np) /\ h = <<>>
Room == Len(h) < P.len
Call(i) == s' = Called(s, P.calls[i]) /\ h' = Append(h, <<"call", i>>)
\* altering is only interesting when something follows
Alter(i) == s.kept[i].d = FALSE /\ Len(h) + 1 < P.len /\ s' = Altered(s, i) /\ h' = Append(h, <<"alter", i>>)
AlterErr(p) == /\ s.last[p] # 0 /\ ~s.kept[s.last[p]].ed /\ Len(h) + 1 < P.len
               /\ s' = ErrorsAltered(s, p) /\ h' = Append(h, <<"altererr", p>>)
Level(l) == s.dbg # P.levels[l] /\ Len(h) + 1 < P.len /\ s' = DebugSet(s, P.levels[l]) /\ h' = Append(h, <<"level", P.levels[l]>>)
Next == Room /\ \/ \E i \in 1..Len(P.calls) : Call(i)
                \/ P.alter /\ \E i \in 1..Len(s.kept) : Alter(i)
                \/ P.altererr /\ \E p \in 1..P.np : AlterErr(p)
                \/ \E l \in 1..Len(P.levels) : Level(l)
Emit == ~Room => PrintT("@@" \o ToJson([h |-> h, t |-> [i \in 1..Len(s.kept) |-> TreeIntact(s, i)], e |-> [i \in 1..Len(s.kept) |-> ErrorsIntact(s, i)], last |-> s.last]))
\* design: only the client alters; a call alters nothing that was kept
CallsAlterNothing == [][Len(s'.kept) > Len(s.kept) => \A i \in 1..Len(s.kept) : s'.kept[i] = s.kept[i]]_vars
AtMostOneEach == \A p \in 1..P.np : s.last[p] <= Len(s.kept)
=============================================================================
