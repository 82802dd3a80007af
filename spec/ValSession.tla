------------------------------ MODULE ValSession ------------------------------
(* Client-defined validators at work: small steps of a validation, over a history  *)
(* of calls on several validators.  A handler is met before ("pre") and after       *)
(* ("post") the inherited handler of its node; there the client may act:            *)
(*   <<"ok">>  <<"err">>  <<"warn">>  <<"skip">> (pre only: do not descend)          *)
(*   <<"boom">> (an exception of the client's own)                                 *)
(*   <<"nest", call>> (a validation on another validator, from inside the handler)  *)
(* call = [v validator, t tree, q text supplied (0: none), yes is_valid?, da what      *)
(* handlers do by default in pre].  Trees: heaps of [t kind, k numbers of children,   *)
(* s, e].  Machine state:                                                        *)
(*   vs    per validator [rf, we, q text last supplied, es, ws issues so far]         *)
(*   fr    running validations, the innermost last: [c call number, v, t, yes, da,    *)
(*         todo, st ancestors]                                                    *)
(*   outs  per call [o "?"/"T"/"F"/"raise"/"boom", n <<call, raised node>>, fr its      *)
(*         fragment, l ran to its end: lists es, ws]                               *)
(*   log   <<"pre" | "post", call number, node, parent or 0>>                        *)
EXTENDS Validator

Sess(vals) == [vs |-> [j \in 1..Len(vals) |-> [rf |-> vals[j].rf, we |-> vals[j].we, q |-> vals[j].q, es |-> <<>>, ws |-> <<>>]],
               fr |-> <<>>, outs |-> <<>>, log |-> <<>>]
Idle(s) == s.fr = <<>>
Top(s) == s.fr[Len(s.fr)]
Front(ss) == SubSeq(ss, 1, Len(ss) - 1)
Busy(s, v) == \E j \in 1..Len(s.fr) : s.fr[j].v = v

Begin(s, c) ==
  [s EXCEPT !.vs[c.v].q = IF c.q = 0 THEN @ ELSE c.q, !.vs[c.v].es = <<>>, !.vs[c.v].ws = <<>>,
            !.fr = Append(@, [c |-> Len(s.outs) + 1, v |-> c.v, t |-> c.t, yes |-> c.yes, da |-> c.da, todo |-> <<<<"pre", 1>>>>, st |-> <<>>]),
            !.outs = Append(@, [o |-> "?", n |-> <<>>, fr |-> NoText, l |-> FALSE, es |-> <<>>, ws |-> <<>>])]

Parent(f) == IF f.st = <<>> THEN 0 ELSE f.st[Len(f.st)]
Item(s) == Head(Top(s).todo)
WithTop(s, f) == [s EXCEPT !.fr[Len(s.fr)] = f]

(* the text of a node in the query its validator was last given *)
Text(txts, s, v, x) == IF s.vs[v].q = 0 THEN NoText ELSE Fragment(txts[s.vs[v].q], x.s, x.e)

RECURSIVE Unwind(_, _, _, _)   \* an exception leaves the innermost validation; spec: the validator's own
Unwind(s, how, n, fr) ==
  IF s.fr = <<>> THEN s
  ELSE LET f == Top(s) t == [s EXCEPT !.fr = Front(@)] IN
       IF how = "raise" /\ f.yes THEN [t EXCEPT !.outs[f.c].o = "F"]
       ELSE Unwind([t EXCEPT !.outs[f.c].o = how, !.outs[f.c].n = n, !.outs[f.c].fr = fr], how, n, fr)

Report(txts, s, lv, n, x) ==     \* the client reports an issue at node n (= record x)
  LET f == Top(s) v == s.vs[f.v] fr == Text(txts, s, f.v, x) y == [n |-> n, s |-> x.s, e |-> x.e, fr |-> fr] IN
  IF v.rf /\ (lv = "err" \/ v.we) THEN Unwind(s, "raise", <<f.c, n>>, fr)
  ELSE IF lv = "err" THEN [s EXCEPT !.vs[f.v].es = Append(@, y)] ELSE [s EXCEPT !.vs[f.v].ws = Append(@, y)]

Descend(H, f, n) == [f EXCEPT !.st = Append(@, n), !.todo = [j \in 1..Len(H[n].k) |-> <<"pre", H[n].k[j]>>] \o <<<<"post", n>>>> \o Tail(@)]

(* one step; act: what the client does at this handler; handled: the kind has one *)
Handled(H, hk, s) == \E j \in 1..Len(hk) : hk[j] = H[Top(s).t][Item(s)[2]].t
At(s) == <<Top(s).c, Item(s)[2], Item(s)[1]>>
VsStep(H, txts, hk, s, act) ==
  LET f == Top(s) h == H[f.t] IN
  IF f.todo = <<>> THEN
    LET v == s.vs[f.v] good == v.es = <<>> /\ (v.we => v.ws = <<>>) IN
    [s EXCEPT !.fr = Front(@), !.outs[f.c] = [o |-> IF good THEN "T" ELSE "F", n |-> <<>>, fr |-> NoText, l |-> TRUE, es |-> v.es, ws |-> v.ws]]
  ELSE LET n == Item(s)[2] pre == Item(s)[1] = "pre" IN
    IF ~Handled(H, hk, s)
    THEN WithTop(s, IF pre THEN Descend(h, f, n) ELSE [f EXCEPT !.st = Front(@), !.todo = Tail(@)])
    ELSE LET g0 == IF pre THEN (IF act[1] = "skip" THEN [f EXCEPT !.todo = Tail(@)] ELSE Descend(h, f, n))
                   ELSE [f EXCEPT !.st = Front(@), !.todo = Tail(@)]
             par == IF pre THEN Parent(f) ELSE Parent(g0)
             t == [WithTop(s, g0) EXCEPT !.log = Append(@, <<Item(s)[1], f.c, n, par>>)]
         IN CASE act[1] \in {"err", "warn"} -> Report(txts, t, act[1], n, h[n])
              [] act[1] = "boom" -> Unwind(t, "boom", <<f.c, n>>, NoText)
              [] act[1] = "nest" -> Begin(t, act[2])
              [] OTHER -> t

(* what a program says: prog a sequence of <<call, node, phase, act>>; else the default *)
Act(prog, s) ==
  LET hits == {j \in 1..Len(prog) : <<prog[j][1], prog[j][2], prog[j][3]>> = At(s)} IN
  IF hits # {} THEN prog[CHOOSE j \in hits : \A k \in hits : j <= k][4]
  ELSE IF Item(s)[1] = "pre" THEN <<Top(s).da>> ELSE <<"ok">>
RECURSIVE RunAll(_, _, _, _, _)
RunAll(H, txts, hk, prog, s) ==
  IF Idle(s) THEN s ELSE RunAll(H, txts, hk, prog, VsStep(H, txts, hk, s, IF Top(s).todo = <<>> THEN <<"ok">> ELSE Act(prog, s)))
RECURSIVE RunCalls(_, _, _, _, _, _)
RunCalls(H, txts, hk, prog, calls, s) ==
  IF calls = <<>> THEN s ELSE RunCalls(H, txts, hk, prog, Tail(calls), RunAll(H, txts, hk, prog, Begin(s, Head(calls))))

RECURSIVE Siz(_)
RECURSIVE Sum(_)
Sum(ks) == IF ks = <<>> THEN 0 ELSE Siz(Head(ks)) + Sum(Tail(ks))
Siz(x) == 1 + Sum(x.k)
RECURSIVE Numbers(_, _)
Numbers(ks, n) == IF ks = <<>> THEN <<>> ELSE <<n + 1>> \o Numbers(Tail(ks), n + Siz(Head(ks)))
HeapWithLoc(x) ==
  LET RECURSIVE Go(_, _)
      Go(y, n) == <<[t |-> y.t, k |-> Numbers(y.k, n), s |-> y.s, e |-> y.e]>> \o Flatten([j \in 1..Len(y.k) |-> Go(y.k[j], Numbers(y.k, n)[j])])
  IN Go(x, 1)
=============================================================================
