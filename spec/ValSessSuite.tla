----------------------------- MODULE ValSessSuite -----------------------------
(* Histories of validations: at every position one of the call templates allowed   *)
(* there, at every handler possibly one of the suite's actions (at most P.picks per  *)
(* history and template permission).  Complete histories are emitted with the whole  *)
(* log, the outcomes and the issue lists.                                         *)
EXTENDS Pda, ValSession, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* queries, vals: choices of validators, hks, calls: per position templates, picks, acts
ASSUME TLCSet(7, TLCEval([i \in 1..Len(P.queries) |-> TLCEval(HeapWithLoc(Meaning(DefaultConf, P.queries[i]).tree))]))
H == TLCGet(7)      \* the trees, computed once
Txts == P.queries
VARIABLES vi, hi, s, made, prog, left
vars == <<vi, hi, s, made, prog, left>>
Hk == P.hks[hi]
Init == /\ vi \in 1..Len(P.vals) /\ hi \in 1..Len(P.hks)
        /\ s = Sess(P.vals[vi]) /\ made = <<>> /\ prog = <<>> /\ left = P.picks
Call(c) == /\ Idle(s) /\ Len(made) < Len(P.calls)
           /\ s' = Begin(s, c) /\ made' = Append(made, c)
           /\ UNCHANGED <<vi, hi, prog, left>>
Silent == ~Idle(s) /\ (Top(s).todo = <<>> \/ ~Handled(H, Hk, s))
Quiet == /\ ~Idle(s) /\ UNCHANGED <<vi, hi, made, prog, left>>
         /\ s' = VsStep(H, Txts, Hk, s, IF Silent THEN <<"ok">> ELSE Act(<<>>, s))
Pick(a) == /\ ~Idle(s) /\ ~Silent /\ left > 0
           /\ made[Len(made)].pk            \* this call's template allows actions
           /\ a[1] = "skip" => Item(s)[1] = "pre"
           /\ a # Act(<<>>, s)
           /\ a[1] = "nest" => ~Busy(s, a[2].v)
           /\ s' = VsStep(H, Txts, Hk, s, a)
           /\ prog' = Append(prog, At(s) \o <<a>>)
           /\ left' = left - 1 /\ UNCHANGED <<vi, hi, made>>
Next == \/ \E j \in 1..(IF Len(made) < Len(P.calls) THEN Len(P.calls[Len(made) + 1]) ELSE 0) : Call(P.calls[Len(made) + 1][j])
        \/ Quiet \/ \E j \in 1..Len(P.acts) : Pick(P.acts[j])
Done == Idle(s) /\ Len(made) = Len(P.calls)
Short(ys) == [j \in 1..Len(ys) |-> <<ys[j].n, ys[j].s, ys[j].e, ys[j].fr>>]
Emit == Done => PrintT("@@" \o ToJson([vi |-> vi, hi |-> hi, calls |-> made, prog |-> prog, log |-> s.log,
                 outs |-> [j \in 1..Len(s.outs) |-> <<s.outs[j].o, s.outs[j].n, s.outs[j].fr, s.outs[j].l, Short(s.outs[j].es), Short(s.outs[j].ws)>>]]))

(* design *)
ParentOf(t, n) == CHOOSE p \in 0..Len(H[t]) : IF n = 1 THEN p = 0 ELSE p > 0 /\ \E j \in 1..Len(H[t][p].k) : H[t][p].k[j] = n
RealParents == \A j \in 1..Len(s.fr) : \A k \in 1..Len(s.fr[j].st) :
  ParentOf(s.fr[j].t, s.fr[j].st[k]) = IF k = 1 THEN 0 ELSE s.fr[j].st[k - 1]
\* what a finished call reports is what it would report alone on a new validator given the same text
TextAt(i) == LET v == made[i].v told == {j \in 1..i : made[j].v = v /\ made[j].q # 0} IN
  IF told = {} THEN P.vals[vi][v].q ELSE made[CHOOSE j \in told : \A k \in told : k <= j].q
NoNest == \A j \in 1..Len(prog) : prog[j][4][1] # "nest"
Mine(i) == LET mine == SelectSeq(prog, LAMBDA p : p[1] = i) IN [j \in 1..Len(mine) |-> <<1, mine[j][2], mine[j][3], mine[j][4]>>]
Alone(i) == RunCalls(H, Txts, Hk, Mine(i), <<made[i]>>, Sess([P.vals[vi] EXCEPT ![made[i].v].q = TextAt(i)])).outs[1]
Memoryless == (Done /\ NoNest) => \A i \in 1..Len(made) :
   LET a == Alone(i) b == s.outs[i] IN a.o = b.o /\ a.es = b.es /\ a.ws = b.ws /\ a.fr = b.fr
SameAsProgram == Done => RunCalls(H, Txts, Hk, prog, made, Sess(P.vals[vi])) = s
=============================================================================
