-------------------------------- MODULE Tree --------------------------------
(* The simplified query tree.  Every node is a record with the same fields,   *)
(* so nodes of different kinds can be compared:                              *)
(*   t  kind          q,id,re  qualifier / layer / value (code points;        *)
(*   op "Eq"/"Ne"/""           NoText when absent)                            *)
(*   fl flag bits (1 i, 2 I, 4 l, 8 d)   mn,mx bounds as digit sequences      *)
(*   sc scope         s,e  location (or -1,-1)     k  children                *)
EXTENDS Chars
LOCAL INSTANCE SequencesExt

NoText == <<-1>>
One == <<1>>
Unbounded == <<-1>>

Node(t, s, e, k) == [t |-> t, q |-> NoText, id |-> NoText, op |-> "", re |-> NoText, fl |-> 0,
                     mn |-> One, mx |-> One, sc |-> "", s |-> s, e |-> e, k |-> k]
NullNode == Node("None", -1, -1, <<>>)

Kinds == {"Expression", "Wildcard", "Group", "Or", "And", "Not", "QuerySegment", "QueryGroup",
          "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin"}

MkExpr(q, id, op, re, fl, s, e) ==
  [Node("Expression", s, e, <<>>) EXCEPT !.q = q, !.id = id, !.op = op, !.re = re, !.fl = fl]
MkScope(sc, s, e) == [Node("SimpleWithin", s, e, <<>>) EXCEPT !.sc = sc]

(* one operand stands for itself; two or more become one flat node *)
MkNary(t, ns) == IF Len(ns) = 1 THEN ns[1] ELSE Node(t, ns[1].s, ns[Len(ns)].e, ns)

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

RECURSIVE PreOrder(_)
PreOrder(n) == <<n>> \o Flatten([i \in 1..Len(n.k) |-> PreOrder(n.k[i])])

RECURSIVE NoLoc(_)
NoLoc(n) == [n EXCEPT !.s = -1, !.e = -1, !.k = [i \in 1..Len(n.k) |-> NoLoc(n.k[i])]]

RECURSIVE Shape(_)   \* kinds and arity only
Shape(n) == [t |-> n.t, k |-> [i \in 1..Len(n.k) |-> Shape(n.k[i])]]

(* ---- decimal numbers of any size: canonical digit sequences ------------- *)
StripZeros(d) == FoldLeft(LAMBDA a, x : IF a = <<0>> THEN <<x>> ELSE Append(a, x), <<>>, d)
Digits(tx) == StripZeros([i \in 1..Len(tx) |-> tx[i] - 48])
LexLess(a, b) == FoldLeftDomain(LAMBDA r, i : IF r # 0 THEN r ELSE b[i] - a[i], 0, a) > 0     \* equal lengths
NumLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b)

(* ---- structural facts every tree satisfies ------------------------------ *)
ArityOK(n) ==
  CASE n.t \in {"Expression", "Wildcard", "SimpleWithin"} -> Len(n.k) = 0
    [] n.t \in {"Group", "Not", "QuerySegment", "QueryGroup"} -> Len(n.k) = 1
    [] n.t \in {"Or", "And", "QueryDisjunction"} -> Len(n.k) >= 2
    [] n.t = "QuerySequence" -> Len(n.k) >= 1
    [] n.t = "QueryWithWithin" -> Len(n.k) = 2
    [] OTHER -> FALSE

ExprOperand == {"Expression", "Group", "Not"}
QItem == {"QuerySegment", "QueryGroup"}
ChildKinds(t) ==
  CASE t = "Group" -> {"Expression", "Group", "Not", "And", "Or"}
    [] t = "Not" -> {"Expression", "Group", "Not"}           \* NOT binds strongest
    [] t = "And" -> {"Expression", "Group", "Not"}           \* then AND, flat
    [] t = "Or" -> {"Expression", "Group", "Not", "And"}     \* then OR, flat
    [] t = "QuerySegment" -> {"Wildcard", "Expression", "Group", "Not", "And", "Or"}
    [] t = "QueryGroup" -> {"QuerySequence", "QueryDisjunction"}
    [] t = "QuerySequence" -> QItem
    [] t = "QueryDisjunction" -> {"QuerySegment", "QuerySequence"}
    [] t = "QueryWithWithin" -> {"QuerySegment", "QueryGroup", "QuerySequence", "QueryDisjunction", "SimpleWithin"}
    [] OTHER -> {}

RECURSIVE WellFormed(_)
WellFormed(n) ==
  /\ n.t \in Kinds
  /\ ArityOK(n)
  /\ \A i \in 1..Len(n.k) : n.k[i].t \in ChildKinds(n.t) /\ WellFormed(n.k[i])
  /\ n.t = "QueryWithWithin" => n.k[1].t # "SimpleWithin" /\ n.k[2].t = "SimpleWithin"

RECURSIVE LocNested(_)
LocNested(n) ==
  /\ n.s >= 0 /\ n.s < n.e
  /\ \A i \in 1..Len(n.k) : n.k[i].s >= n.s /\ n.k[i].e <= n.e /\ LocNested(n.k[i])
  /\ \A i \in 1..(Len(n.k) - 1) : n.k[i].e <= n.k[i + 1].s
=============================================================================
