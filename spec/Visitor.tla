-------------------------------- MODULE Visitor --------------------------------
(* Traversal of a query tree by a client's visitor, as a machine.                *)
(* The tree is a heap: node n is [t, k] (kind, children), node 1 the root, nodes   *)
(* numbered in document order.                                                   *)
(* A visitor program V:                                                          *)
(*   how the handler for a kind behaves (sty):                                    *)
(*     "none" no handler   "stop" returns its own value   "descend" returns what    *)
(*     the generic traversal returns ("super": through the inherited handler)      *)
(*     "post" generic traversal, then adds its own value  "rev" visits its children *)
(*     itself, last first   "skip" generic traversal of its first child only        *)
(*   df  default result: "none" "empty" "zero"                                      *)
(*   ag  aggregation: "last" "concat" "first" "len"      oa: hook overridden         *)
(*   ct  continue hook: <<"always">> <<"short", k>> (result shorter than k)          *)
(*       <<"not", kind>> <<"budget", k>> (first k consultations)  os: overridden      *)
(* Results are sequences of numbers; None is "nothing".                            *)
(* The log: <<"H", n>> handler of n called; <<"S", n, r>> continue hook consulted;   *)
(* <<"A", r, x>> aggregation hook called.                                          *)
EXTENDS Tree

None == <<-1>>
Plain(r) == IF r = None THEN <<>> ELSE r
Default(V) == CASE V.df = "none" -> None [] V.df = "empty" -> <<>> [] OTHER -> <<0>>
Agg(V, r, x) == CASE V.ag = "last" -> x
                  [] V.ag = "concat" -> Plain(r) \o Plain(x)
                  [] V.ag = "first" -> IF r = None THEN x ELSE r
                  [] OTHER -> <<Len(Plain(r)) + Len(Plain(x)) + 1>>
Continue(V, t, r, used) ==
  CASE V.ct[1] = "always" -> TRUE
    [] V.ct[1] = "short" -> Len(Plain(r)) < V.ct[2]
    [] V.ct[1] = "not" -> t # V.ct[2]
    [] OTHER -> used < V.ct[2]

(* configuration: fr frames [f, n, i, r]; f "gen" generic traversal of n, i children *)
(* done, r so far; "post" / "rev"; ret: a value on its way back (ok TRUE) ; to: node *)
(* to be visited next (0: none)                                                    *)
Idle == [ok |-> FALSE, v |-> None]
VFrame(f, n, r) == [f |-> f, n |-> n, i |-> 0, r |-> r]
VStart(entry, V) == [fr |-> IF entry = "children" THEN <<VFrame("gen", 1, Default(V))>> ELSE <<>>,
                    to |-> IF entry = "children" THEN 0 ELSE 1, ret |-> Idle, log |-> <<>>, used |-> 0]
Done(c) == c.fr = <<>> /\ c.to = 0 /\ c.ret.ok
TopF(c) == c.fr[Len(c.fr)]
PushF(c, f) == [c EXCEPT !.fr = Append(@, f), !.to = 0, !.ret = Idle]
PopF(c) == [c EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Return(c, v) == [c EXCEPT !.ret = [ok |-> TRUE, v |-> v], !.to = 0]
Log(c, yes, ev) == IF yes THEN [c EXCEPT !.log = Append(@, ev)] ELSE c

(* a node is dispatched to the handler of its kind, style s *)
Dispatch(h, V, c, s) ==
  LET n == c.to
      d == Log(c, s # "none", <<"H", n>>)
      gen(m) == PushF(d, VFrame("gen", m, Default(V)))
  IN CASE s \in {"none", "descend", "super"} -> gen(n)
       [] s = "stop" -> Return(d, <<n>>)
       [] s = "post" -> PushF(PushF(d, VFrame("post", n, <<>>)), VFrame("gen", n, Default(V)))
       [] s = "rev" -> PushF(d, VFrame("rev", n, <<>>))
       [] OTHER -> IF h[n].k = <<>> THEN Return(d, <<n>>) ELSE gen(h[n].k[1])

(* a value comes back to the frame that asked for it *)
Receive(V, c) ==
  LET f == TopF(c) v == c.ret.v d == [c EXCEPT !.ret = Idle] IN
  CASE f.f = "gen" -> [Log(d, V.oa, <<"A", f.r, v>>) EXCEPT !.fr[Len(c.fr)].r = Agg(V, f.r, v)]
    [] f.f = "post" -> Return(PopF(d), Append(Plain(v), f.n))
    [] OTHER -> [d EXCEPT !.fr[Len(c.fr)].r = f.r \o Plain(v)]

(* a frame goes on to its next child, or returns *)
Proceed(h, V, c) ==
  LET f == TopF(c) k == h[f.n].k IN
  IF f.i >= Len(k) THEN Return(PopF(c), IF f.f = "rev" THEN Append(f.r, f.n) ELSE f.r)
  ELSE IF f.f = "rev" THEN [c EXCEPT !.fr[Len(c.fr)].i = f.i + 1, !.to = k[Len(k) - f.i]]
  ELSE LET d == [Log(c, V.os, <<"S", f.n, f.r>>) EXCEPT !.used = @ + 1] IN
       IF Continue(V, h[f.n].t, f.r, c.used) THEN [d EXCEPT !.fr[Len(c.fr)].i = f.i + 1, !.to = k[f.i + 1]]
       ELSE Return(PopF(d), f.r)

StepV(h, V, c, s) ==     \* s: style of the kind of the node to be dispatched
  IF c.to # 0 THEN Dispatch(h, V, c, s)
  ELSE IF c.ret.ok THEN Receive(V, c)
  ELSE Proceed(h, V, c)

RECURSIVE RunV(_, _, _, _)     \* sty: kind -> style
RunV(h, V, sty, c) == IF Done(c) THEN c ELSE RunV(h, V, sty, StepV(h, V, c, IF c.to # 0 THEN sty[h[c.to].t] ELSE "none"))

(* ---- a tree as a heap, numbered in document order ---- *)
RECURSIVE Size(_)
Size(x) == Len(PreOrder(x))
RECURSIVE Nums(_, _)   \* numbers of the children of a node numbered n
Nums(ks, n) == IF ks = <<>> THEN <<>> ELSE <<n + 1>> \o Nums(Tail(ks), n + Size(Head(ks)))
HeapOf(x) == LET p == PreOrder(x) IN
  LET RECURSIVE Go(_, _)
      Go(y, n) == <<[t |-> y.t, k |-> Nums(y.k, n)]>> \o
                  Flatten([j \in 1..Len(y.k) |-> Go(y.k[j], Nums(y.k, n)[j])])
  IN Go(x, 1)
=============================================================================
