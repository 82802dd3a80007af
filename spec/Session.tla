-------------------------------- MODULE Session --------------------------------
(* A process in which clients call the parsing functions, keep what they get,      *)
(* alter some of it, and switch debug logging.                                    *)
(* A call is [k kind, p parser or 0, c settings, q query].  Its value is a function  *)
(* of kind, settings and query alone: Key.  kept: the calls made so far, with the    *)
(* marks d (client altered the tree), ed (client altered the error list).           *)
(* last: per parser the call whose error list it shows (0: none yet).               *)
EXTENDS Integers, Sequences, FiniteSets

NoSession == [kept |-> <<>>, last |-> <<>>, dbg |-> 0]
Key(call) == <<call.k, call.c, call.q>>
Begin(np) == [kept |-> <<>>, last |-> [p \in 1..np |-> 0], dbg |-> 0]
Called(s, call) ==
  LET k == Append(s.kept, [key |-> Key(call), d |-> FALSE, ed |-> FALSE]) IN
  [s EXCEPT !.kept = k, !.last = IF call.p = 0 THEN @ ELSE [@ EXCEPT ![call.p] = Len(k)]]
Altered(s, i) == [s EXCEPT !.kept[i].d = TRUE]
ErrorsAltered(s, p) == [s EXCEPT !.kept[s.last[p]].ed = TRUE]
DebugSet(s, l) == [s EXCEPT !.dbg = l]

(* what a client finds when it looks again at the i-th thing it kept *)
TreeIntact(s, i) == ~s.kept[i].d
ErrorsIntact(s, i) == ~s.kept[i].ed
=============================================================================
