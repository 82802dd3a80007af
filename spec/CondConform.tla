------------------------------ MODULE CondConform ------------------------------
(* Recorded answers on the nodes of parsed queries.  Record: per query            *)
(*  c  conditions <<q, id, op, fl, calls>>, calls <<name, argument, answer>>        *)
(*  n  nodes <<kind, answers of has_node_type for each kind of Kinds12, missing>>   *)
(* answers "T" "F" or an exception's name; a missing argument is <<-1>> / ""        *)
EXTENDS Cond, Json, IOUtils, TLC
Ev == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i
Kinds12 == <<"Expression", "Wildcard", "Group", "Or", "And", "Not", "QuerySegment", "QueryGroup",
             "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin">>
TF(b) == IF b THEN "T" ELSE "F"
Content(y) == [q |-> y[1], id |-> y[2], op |-> y[3], fl |-> y[4]]
Missing == "exc:TypeError"
Answer(c, name, a) ==
  CASE name = "has_layer_identifier" -> IF a = NoText THEN Missing ELSE TF(HasLayer(c, a))
    [] name = "has_layer_qualifier" -> IF a = NoText THEN Missing ELSE TF(HasQualifier(c, a))
    [] name = "has_operator" -> IF a = "" THEN Missing ELSE TF(HasOperator(c, a))
    [] name = "has_regex_flag" -> IF a = 0 THEN Missing ELSE TF(HasFlag(c, a))
    [] name = "is_layer_qualifier_empty" -> TF(QualifierEmpty(c))
    [] OTHER -> TF(FlagsEmpty(c))
CallOK(c, y) == y[3] = Answer(c, y[1], y[2])
CondsOK(e) == \A j \in 1..Len(e.c) : LET c == Content(e.c[j]) IN \A k \in 1..Len(e.c[j][5]) : CallOK(c, e.c[j][5][k])
NodesOK(e) == \A j \in 1..Len(e.n) : LET y == e.n[j] IN
                 /\ \A k \in 1..12 : y[2][k] = TF(HasKind(y[1], Kinds12[k]))
                 /\ y[3] = Missing
Holds(e, c) == IF c = "answers" THEN CondsOK(e) ELSE NodesOK(e)
Clauses(e) == {c \in {"answers", "node-kind"} : ~Holds(e, c)}
Expect(e) == [wrong |-> [j \in 1..Len(e.c) |-> LET c == Content(e.c[j]) IN SelectSeq(e.c[j][5], LAMBDA y : ~CallOK(c, y))]]
Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Clauses(Ev[Idx]) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> Expect(Ev[Idx])]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
