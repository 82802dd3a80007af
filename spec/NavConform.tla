------------------------------ MODULE NavConform ------------------------------
(* Recorded trees: TLC checks that the recorded heap is one well-formed tree with *)
(* agreeing parent links, and that every recorded navigation answer is right.     *)
(* Record: h  per node <<class, kind code, parent, children, child_count>>        *)
(*         q  calls <<op, node, index, class filter, answer>>;  op "g" get_child,  *)
(*            "f" get_first_child, "l" get_last_child, or an accessor's name       *)
(*         o  per node: operands, or <<-1>> when the class has none               *)
(*         pr parsed: the shape rules for parsed trees apply                       *)
EXTENDS Nav, Json, IOUtils, TLC

Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i

Heap(e) == [n \in 1..Len(e.h) |-> [t |-> e.h[n][1], par |-> e.h[n][3], k |-> e.h[n][4]]]
ShapeOK(e) == LET h == Heap(e) IN
  /\ \A n \in 1..Len(h) : h[n].t \in Kinds /\ \A j \in 1..Len(h[n].k) : h[n].k[j] \in 1..Len(h)
  /\ ParentsAgree(h) /\ EachOnce(h) /\ RootOnly(h)
  /\ e.pr => AllArity(h)
KindOK(e) == \A n \in 1..Len(e.h) : e.h[n][2] = e.h[n][1]
CallOK(h, q) == CASE q[1] = "g" -> q[5] = GetChild(h, q[2], q[3], q[4])
                  [] q[1] = "f" -> q[5] = FirstChild(h, q[2], q[4])
                  [] q[1] = "l" -> q[5] = LastChild(h, q[2], q[4])
                  [] OTHER -> q[5] = Accessor(h, q[2], q[1])
CallsOK(e) == LET h == Heap(e) IN
  /\ \A n \in 1..Len(h) : e.h[n][5] = ChildCount(h, n)
  /\ \A j \in 1..Len(e.q) : CallOK(h, e.q[j])
  /\ \A n \in 1..Len(h) : h[n].t \in HasOperands => e.o[n] = h[n].k
Holds(e, c) == CASE c = "shape" -> ShapeOK(e) [] c = "kind" -> KindOK(e) [] OTHER -> CallsOK(e)
Clauses(e) == {c \in {"shape", "kind", "navigation"} : ~Holds(e, c)}
Expect(e) == LET h == Heap(e) IN [wrong |-> SelectSeq(e.q, LAMBDA q : ~CallOK(h, q))]

Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Clauses(Ev[Idx]) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> IF b = {"navigation"} THEN Expect(Ev[Idx]) ELSE <<>>]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
