-------------------------------- MODULE Views --------------------------------
(* Projections of a query tree: each property speaks about one of them, so     *)
(* that a fault is attributed to the property it breaks.                      *)
EXTENDS Tree

(* the JSON encoding of a node (harness/project.py) <-> the record             *)
RECURSIVE Enc(_)
EncKids(x) == [j \in 1..Len(x.k) |-> Enc(x.k[j])]
Enc(x) ==
  CASE x.t = "Expression" -> <<x.t, x.s, x.e, x.q, x.id, x.op, x.re, x.fl>>
    [] x.t = "SimpleWithin" -> <<x.t, x.s, x.e, x.sc>>
    [] x.t \in {"QuerySegment", "QueryGroup"} -> <<x.t, x.s, x.e, x.mn, x.mx, EncKids(x)>>
    [] OTHER -> <<x.t, x.s, x.e, EncKids(x)>>
RECURSIVE Rec(_)
RecKids(y) == [j \in 1..Len(y) |-> Rec(y[j])]
Rec(y) ==
  LET t == y[1] IN
  CASE t = "Expression" -> MkExpr(y[4], y[5], y[6], y[7], y[8], y[2], y[3])
    [] t = "SimpleWithin" -> MkScope(y[4], y[2], y[3])
    [] t \in {"QuerySegment", "QueryGroup"} -> [Node(t, y[2], y[3], RecKids(y[6])) EXCEPT !.mn = y[4], !.mx = y[5]]
    [] OTHER -> Node(t, y[2], y[3], RecKids(y[4]))

MainOf(n) == IF n.t = "QueryWithWithin" /\ Len(n.k) > 0 THEN n.k[1] ELSE n
OfKind(n, S) == SelectSeq(PreOrder(n), LAMBDA y : y.t \in S)
Conds(n) == OfKind(n, {"Expression"})
Map(F(_), ss) == [j \in 1..Len(ss) |-> F(ss[j])]

(* C02: query-level shape; a segment is identified by the leaves it holds      *)
LeafMark(y) == <<y.t, y.id, y.re>>
RECURSIVE QShape(_)
QShape(n) == IF n.t \in {"QueryGroup", "QuerySequence", "QueryDisjunction"}
             THEN [t |-> n.t, l |-> <<>>, k |-> [j \in 1..Len(n.k) |-> QShape(n.k[j])]]
             ELSE [t |-> n.t, l |-> Map(LeafMark, OfKind(n, {"Expression", "Wildcard"})), k |-> <<>>]
VStructure(n) == QShape(MainOf(n))

(* C03: the expression under each segment, in order                            *)
RECURSIVE EShape(_)
EShape(n) == [t |-> n.t, l |-> IF n.t = "Expression" THEN <<n.id, n.re>> ELSE <<>>,
              k |-> [j \in 1..Len(n.k) |-> EShape(n.k[j])]]
SegShape(y) == [j \in 1..Len(y.k) |-> EShape(y.k[j])]
VExpr(n) == Map(SegShape, OfKind(n, {"QuerySegment"}))

(* C04 *) CondName(y) == <<y.q, y.id, y.op>>       VCond(n) == Map(CondName, Conds(n))
(* C05, C06 *) CondVal(y) == y.re                  VVal(n) == Map(CondVal, Conds(n))
(* C07 *) CondFlags(y) == y.fl                     VFlags(n) == Map(CondFlags, Conds(n))
(* C08 *) ItemOcc(y) == <<y.t, y.mn, y.mx>>        VOcc(n) == Map(ItemOcc, OfKind(n, QItem))
(* C09 *) ScopeMark(y) == y.sc
VWithin(n) == [top |-> n.t = "QueryWithWithin", sc |-> Map(ScopeMark, OfKind(n, {"SimpleWithin"})),
               ww |-> Len(OfKind(n, {"QueryWithWithin"})), main |-> NoLoc(MainOf(n))]
(* C10 *) LocMark(y) == <<y.t, y.s, y.e>>          VLoc(n) == Map(LocMark, PreOrder(n))
=============================================================================
