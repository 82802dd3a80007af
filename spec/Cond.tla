--------------------------------- MODULE Cond ---------------------------------
(* One condition node as a client sees it: its content, and the yes/no questions. *)
(* A content is [q, id, op, fl]: qualifier (NoText: none), layer, operator, flag    *)
(* bits.  Answers are TRUE or FALSE; a question with its argument missing raises.   *)
EXTENDS Tree

Bits == <<1, 2, 4, 8>>     \* i I l d
HasBit(fl, b) == (fl \div b) % 2 = 1
HasLayer(c, a) == c.id = a
QualifierEmpty(c) == c.q = NoText
HasQualifier(c, a) == c.q # NoText /\ c.q = a
HasOperator(c, o) == c.op = o
FlagsEmpty(c) == c.fl = 0
HasFlag(c, b) == HasBit(c.fl, b)

(* the constructor keeps a blank qualifier and an empty flag set as "none" *)
Blank(tx) == \A i \in 1..Len(tx) : IsWS(tx[i])
Stored(q) == IF q = NoText \/ Blank(q) THEN NoText ELSE q
HasKind(t, a) == t = a
WithoutFlag(fl, b) == IF HasBit(fl, b) THEN fl - b ELSE fl
WithFlag(fl, b) == IF HasBit(fl, b) THEN fl ELSE fl + b
=============================================================================
