-------------------------------- MODULE Threads --------------------------------
(* Threads making calls, one unit of work at a time, under a scheduler that may      *)
(* preempt the running thread at most Bound times.  A unit of a call is determined     *)
(* by the call alone; threads share nothing but a table of units already worked out    *)
(* (the prediction caches), filled by whoever comes first.                           *)
(*   pc    per thread [c calls finished, u units done of the present call]             *)
(*   memo  per call the values of the units worked out so far                          *)
(*   ok    per thread: every unit it used had the value it has when computed alone     *)
(*   cur, np running thread (0: none yet), preemptions so far                          *)
(*   hist  the schedule: <<thread, units run>>                                        *)
EXTENDS Integers, Sequences, FiniteSets

Value(c, u) == u                            \* what the call itself determines
T0(th) == [pc |-> [t \in 1..Len(th) |-> [c |-> 0, u |-> 0]], memo |-> [c \in UNION {{th[t].calls[j] : j \in 1..Len(th[t].calls)} : t \in 1..Len(th)} |-> <<>>], ok |-> [t \in 1..Len(th) |-> TRUE], out |-> [t \in 1..Len(th) |-> <<>>], cur |-> 0, np |-> 0, hist |-> <<>>]
Over(th, s, t) == s.pc[t].c = Len(th[t].calls)
AllOver(th, s) == \A t \in 1..Len(th) : Over(th, s, t)
\* may t run next?
Preempts(th, s, t) == s.cur # 0 /\ s.cur # t /\ ~Over(th, s, s.cur)
May(th, s, t, bound) == ~Over(th, s, t) /\ (Preempts(th, s, t) => s.np < bound)
Unit(th, s, t) ==
  LET p == s.pc[t] c == th[t].calls[p.c + 1] u == p.u + 1
      known == u <= Len(s.memo[c])         \* units of a call are worked out in order
      val == IF known THEN s.memo[c][u] ELSE Value(c, u)
      last == u >= th[t].units[p.c + 1]
  IN [s EXCEPT !.pc[t] = IF last THEN [c |-> p.c + 1, u |-> 0] ELSE [c |-> p.c, u |-> u],
               !.memo[c] = IF known THEN @ ELSE Append(@, val),
               !.ok[t] = @ /\ val = Value(c, u),
               !.out[t] = IF last THEN Append(@, c) ELSE @,
               !.np = IF Preempts(th, s, t) THEN @ + 1 ELSE @,
               !.cur = t,
               !.hist = IF @ # <<>> /\ @[Len(@)][1] = t THEN [@ EXCEPT ![Len(@)][2] = @ + 1] ELSE Append(@, <<t, 1>>)]
=============================================================================
