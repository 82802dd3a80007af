---------------------------- MODULE SessionConform ----------------------------
(* Recorded sessions.  Values are interned per session: equal numbers mean equal      *)
(* outcomes.  Record: np, c calls <<kind, parser, settings, query>>;                  *)
(*  h  actions <<"call", call, value, errors value>> <<"alter", i>> <<"altererr", p>>  *)
(*     <<"level", l>>;                                                              *)
(*  f  fresh reference per call: <<value, errors value>> (a process that did nothing   *)
(*     else, logging off);                                                          *)
(*  z  at the end: per kept result <<value, errors value>>, le  per parser the value   *)
(*     of its error list;  sh  two results share a node or list                      *)
(*  out  characters written to standard output or error                             *)
EXTENDS Session, Json, IOUtils, TLC, SequencesExt
Ev == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i
CallOf(e, j) == [k |-> e.c[j][1], p |-> e.c[j][2], c |-> e.c[j][3], q |-> e.c[j][4]]
(* replay: s the session, ok the calls' values agree with the fresh reference *)
Replay(e, s0) ==
  FoldLeft(LAMBDA s, a : CASE a[1] = "call" -> Called(s, CallOf(e, a[2])) [] a[1] = "alter" -> Altered(s, a[2])
                           [] a[1] = "altererr" -> ErrorsAltered(s, a[2]) [] OTHER -> DebugSet(s, a[2]), s0, e.h)
Calls(e) == SelectSeq(e.h, LAMBDA a : a[1] = "call")
ValueOK(e) == \A j \in 1..Len(e.h) : e.h[j][1] = "call" => e.h[j][3] = e.f[e.h[j][2]][1]
ErrorsOK(e) == \A j \in 1..Len(e.h) : e.h[j][1] = "call" => e.h[j][4] = e.f[e.h[j][2]][2]
KeptOK(e) == LET s == Replay(e, Begin(e.np)) cs == Calls(e) IN
  /\ \A j \in 1..Len(s.kept) : /\ TreeIntact(s, j) => e.z[j][1] = e.f[cs[j][2]][1]
                               /\ ErrorsIntact(s, j) => e.z[j][2] = e.f[cs[j][2]][2]
  /\ \A p \in 1..e.np : s.last[p] # 0 /\ ErrorsIntact(s, s.last[p]) => e.le[p] = e.f[cs[s.last[p]][2]][2]
Bad(e) == (IF ValueOK(e) THEN {} ELSE {"result"}) \cup (IF ErrorsOK(e) THEN {} ELSE {"errors"})
          \cup (IF KeptOK(e) THEN {} ELSE {"kept"}) \cup (IF e.sh THEN {"shared"} ELSE {})
          \cup (IF Prop = "C17" /\ e.out # 0 THEN {"output"} ELSE {})
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Bad(Ev[Idx]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> "as in a fresh process"]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
