---------------------------------- MODULE Cst ----------------------------------
(* The low-level parse.  The parse tree of an accepted word is the derivation that     *)
(* underlies the simplified tree: CstOf unfolds the automaton's tree over the tokens.   *)
(* A parse tree is written as the list of its nodes in document order,                *)
(*   <<depth, label, s, e>>   label: rule name (lower case) or token type;             *)
(*                            s, e: from the first to the last token below           *)
(* A listener walking it sees Tour, a visitor reaches Reached.                        *)
EXTENDS Pda, FiniteSets

Inside(ts, n) == SelectSeq(ts, LAMBDA t : t.s >= n.s /\ t.e <= n.e /\ t.ty # "EOF")
FirstFrom(ts, pos) == Head(SelectSeq(ts, LAMBDA t : t.s >= pos))
From(ts, j) == SubSeq(ts, j, Len(ts))
Last(s) == s[Len(s)]

Leaves(d, ts) == [j \in 1..Len(ts) |-> <<d, ts[j].ty, ts[j].s, ts[j].e>>]
Leaf(d, t) == Leaves(d, <<t>>)
(* a rule over the nodes of its children; the end mark has no extent *)
Rule(d, name, kids) == <<<<d, name, kids[1][3], kids[IF Last(kids)[2] = "EOF" THEN Len(kids) - 1 ELSE Len(kids)][4]>>>> \o kids

(* ---- patterns, quantifiers: ts starts with them ---------------------------- *)
RegexpLen(ts) == IF Len(ts) >= 3 /\ ts[2].ty = "/" THEN 3 ELSE 1
RegexpC(d, ts) ==
  Rule(d, "regexp", Rule(d + 1, "regexp_pattern", Leaf(d + 2, ts[1]))
                    \o (IF RegexpLen(ts) = 3 THEN Leaf(d + 1, ts[2]) \o Rule(d + 1, "regexp_flag", Leaf(d + 2, ts[3])) ELSE <<>>))
QuantC(d, ts) == IF ts = <<>> THEN <<>> ELSE Rule(d, "quantifier", Leaves(d + 1, ts))

(* ---- expressions: x a node, ts its tokens ----------------------------------- *)
AttrC(d, ts) ==
  IF ts[2].ty = ":"
  THEN Rule(d, "attribute", Rule(d + 1, "qualifier", Leaf(d + 2, ts[1])) \o Leaf(d + 1, ts[2]) \o Rule(d + 1, "identifier", Leaf(d + 2, ts[3])))
  ELSE Rule(d, "attribute", Rule(d + 1, "identifier", Leaf(d + 2, ts[1])))
BasicC(d, ts) ==
  LET k == IF ts[2].ty = ":" THEN 4 ELSE 2 IN
  Rule(d, "expression_basic", AttrC(d + 1, ts) \o Leaf(d + 1, ts[k]) \o RegexpC(d + 1, From(ts, k + 1)))

RECURSIVE ExprC(_, _, _), OperandsC(_, _, _, _)
OperandsC(d, x, j, ts) ==
  ExprC(d, x.k[j], Inside(ts, x.k[j])) \o
  (IF j = Len(x.k) THEN <<>> ELSE Leaf(d, FirstFrom(ts, x.k[j].e)) \o OperandsC(d, x, j + 1, ts))
ExprC(d, x, ts) ==
  CASE x.t = "Expression" -> BasicC(d, ts)
    [] x.t = "Not" -> Rule(d, "expression_not", Leaf(d + 1, ts[1]) \o ExprC(d + 1, x.k[1], Inside(ts, x.k[1])))
    [] x.t = "Group" -> Rule(d, "expression_group", Leaf(d + 1, ts[1]) \o ExprC(d + 1, x.k[1], Inside(ts, x.k[1])) \o Leaf(d + 1, Last(ts)))
    [] x.t = "And" -> Rule(d, "expression_and", OperandsC(d + 1, x, 1, ts))
    [] x.t = "Or" -> Rule(d, "expression_or", OperandsC(d + 1, x, 1, ts))

(* ---- query level -------------------------------------------------------- *)
(* the closing bracket of the bracket that opens ts *)
RECURSIVE Closing(_, _, _)
Closing(ts, j, open) ==
  LET o == open + (IF ts[j].ty \in {"(", "["} THEN 1 ELSE IF ts[j].ty \in {")", "]"} THEN 0 - 1 ELSE 0) IN
  IF o = 0 THEN j ELSE Closing(ts, j + 1, o)
SegmentC(d, x, ts) ==
  IF ts[1].ty = "REGEXP"
  THEN Rule(d, "query_simple", Rule(d + 1, "query_implicit", RegexpC(d + 2, ts)) \o QuantC(d + 1, From(ts, RegexpLen(ts) + 1)))
  ELSE LET c == Closing(ts, 1, 0) IN
       Rule(d, "query_simple",
            Rule(d + 1, "query_segment", Leaf(d + 2, ts[1])
                  \o (IF x.k[1].t = "Wildcard" THEN <<>> ELSE LET y == SubSeq(ts, 2, c - 1) IN Rule(d + 2, "expression", ExprC(d + 3, x.k[1], y)))
                  \o Leaf(d + 2, ts[c]))
            \o QuantC(d + 1, From(ts, c + 1)))
RECURSIVE QueryC(_, _, _), ItemsC(_, _, _, _)
ItemsC(d, x, j, ts) ==     \* the children of a node, with the token that follows each but the last (none in a sequence)
  QueryC(d, x.k[j], Inside(ts, x.k[j])) \o
  (IF j = Len(x.k) THEN <<>>
   ELSE (IF x.t = "QuerySequence" THEN <<>> ELSE Leaf(d, FirstFrom(ts, x.k[j].e))) \o ItemsC(d, x, j + 1, ts))
QueryC(d, x, ts) ==
  CASE x.t = "QuerySegment" -> SegmentC(d, x, ts)
    [] x.t = "QueryGroup" -> LET c == Closing(ts, 1, 0) IN
         Rule(d, "query_group", Leaf(d + 1, ts[1]) \o QueryC(d + 1, x.k[1], SubSeq(ts, 2, c - 1)) \o Leaf(d + 1, ts[c]) \o QuantC(d + 1, From(ts, c + 1)))
    [] x.t = "QuerySequence" -> Rule(d, "query_sequence", ItemsC(d + 1, x, 1, ts))
    [] x.t = "QueryDisjunction" -> Rule(d, "query_disjunction", ItemsC(d + 1, x, 1, ts))

CstOf(n, ts) ==      \* n the automaton's tree, ts all tokens with the end mark
  LET m == IF n.t = "QueryWithWithin" THEN n.k[1] ELSE n
      scope == ts[Len(ts) - 1]
  IN Rule(0, "query", Rule(1, "main_query", QueryC(2, m, Inside(ts, m)))
           \o (IF n.t = "QueryWithWithin"
               THEN Leaf(1, ts[Len(ts) - 2]) \o Rule(1, "within_part", Rule(2, "within_part_simple", Leaf(3, scope))) ELSE <<>>)
           \o Leaf(1, Last(ts)))

(* the low-level parse of a text: "syntax" or "ok" with the tree; static rules do not matter *)
LowLevel(inp) ==
  LET lx == Lex(inp)
      r == Run(DefaultConf, Start, lx.ts)
  IN IF r.c.m = "dead" \/ lx.bad >= 0 THEN [o |-> "syntax", cst |-> <<>>] ELSE [o |-> "ok", cst |-> CstOf(r.c.w, lx.ts)]

(* ---- walks ------------------------------------------------------------- *)
RuleNames == {"query", "main_query", "query_disjunction", "query_sequence", "query_group", "query_simple", "quantifier", "query_implicit",
              "query_segment", "within_part", "within_part_simple", "expression", "expression_or", "expression_and", "expression_group",
              "expression_not", "expression_basic", "attribute", "qualifier", "identifier", "regexp", "regexp_pattern", "regexp_flag"}
(* rule nodes are numbered in document order; a walk enters (n) and leaves (-n) them *)
RECURSIVE LeaveTo(_, _, _)
LeaveTo(open, d, ev) == IF open = <<>> \/ Last(open)[1] < d THEN [open |-> open, ev |-> ev]
                        ELSE LeaveTo(SubSeq(open, 1, Len(open) - 1), d, Append(ev, <<Last(open)[2], 0 - Last(open)[3]>>))
RECURSIVE TourFrom(_, _, _, _, _)
TourFrom(cst, j, n, open, ev) ==
  IF j > Len(cst) THEN LeaveTo(open, 0, ev).ev
  ELSE LET l == LeaveTo(open, cst[j][1], ev) IN
       IF cst[j][2] \notin RuleNames THEN TourFrom(cst, j + 1, n, l.open, l.ev)
       ELSE TourFrom(cst, j + 1, n + 1, Append(l.open, <<cst[j][1], cst[j][2], n + 1>>), Append(l.ev, <<cst[j][2], n + 1>>))
Tour(cst) == TourFrom(cst, 1, 0, <<>>, <<>>)
Rules(cst) == SelectSeq(cst, LAMBDA y : y[2] \in RuleNames)
Reached(cst) == LET r == Rules(cst) IN [j \in 1..Len(r) |-> <<r[j][2], j>>]
(* the children of node j: positions in the list *)
KidsAt(cst, j) == {k \in (j + 1)..Len(cst) : cst[k][1] = cst[j][1] + 1 /\ \A l \in (j + 1)..k : cst[l][1] > cst[j][1]}

(* ---- what every derivation satisfies --------------------------------------- *)
KidLabels(cst, j) == LET ks == KidsAt(cst, j) IN [n \in 1..Cardinality(ks) |-> cst[CHOOSE k \in ks : Cardinality({l \in ks : l <= k}) = n][2]]
All(ss, S) == \A j \in 1..Len(ss) : ss[j] \in S
Separated(ss, S, sep) == Len(ss) >= 3 /\ Len(ss) % 2 = 1 /\ \A j \in 1..Len(ss) : IF j % 2 = 1 THEN ss[j] \in S ELSE ss[j] = sep
Opt(ss, n, name) == Len(ss) = n \/ (Len(ss) = n + 1 /\ ss[n + 1] = name)
Operands == {"expression_basic", "expression_group", "expression_not"}
QItems == {"query_simple", "query_group", "query_sequence"}
Produces(name, ss) ==
  CASE name = "query" -> ss[1] = "main_query" /\ (ss = <<"main_query", "EOF">> \/ ss = <<"main_query", "WITHIN", "within_part", "EOF">>)
    [] name = "main_query" -> Len(ss) = 1 /\ ss[1] \in QItems \cup {"query_disjunction"}
    [] name = "query_disjunction" -> Separated(ss, QItems, "|")
    [] name = "query_sequence" -> All(ss, {"query_simple", "query_group"})
    [] name = "query_group" -> ss[1] = "(" /\ ss[2] \in {"query_disjunction", "query_sequence"} /\ ss[3] = ")" /\ Opt(ss, 3, "quantifier")
    [] name = "query_simple" -> ss[1] \in {"query_implicit", "query_segment"} /\ Opt(ss, 1, "quantifier")
    [] name = "quantifier" -> ss \in {<<"+">>, <<"*">>, <<"?">>, <<"{", "INT", "}">>, <<"{", "INT", ",", "INT", "}">>, <<"{", "INT", ",", "}">>, <<"{", ",", "INT", "}">>}
    [] name = "query_implicit" -> ss = <<"regexp">>
    [] name = "query_segment" -> ss \in {<<"[", "]">>, <<"[", "expression", "]">>}
    [] name = "within_part" -> ss = <<"within_part_simple">>
    [] name = "within_part_simple" -> ss = <<"SCOPE">>
    [] name = "expression" -> Len(ss) = 1 /\ ss[1] \in Operands \cup {"expression_or", "expression_and"}
    [] name = "expression_or" -> Separated(ss, Operands \cup {"expression_and"}, "|")
    [] name = "expression_and" -> Separated(ss, Operands, "&")
    [] name = "expression_group" -> Len(ss) = 3 /\ ss[1] = "(" /\ ss[2] \in Operands \cup {"expression_or", "expression_and"} /\ ss[3] = ")"
    [] name = "expression_not" -> Len(ss) = 2 /\ ss[1] = "!" /\ ss[2] \in Operands
    [] name = "expression_basic" -> Len(ss) = 3 /\ ss[1] = "attribute" /\ ss[2] \in {"=", "!="} /\ ss[3] = "regexp"
    [] name = "attribute" -> ss \in {<<"identifier">>, <<"qualifier", ":", "identifier">>}
    [] name \in {"qualifier", "identifier"} -> Len(ss) = 1 /\ ss[1] \in NameTypes
    [] name = "regexp" -> ss \in {<<"regexp_pattern">>, <<"regexp_pattern", "/", "regexp_flag">>}
    [] name = "regexp_pattern" -> ss = <<"REGEXP">>
    [] name = "regexp_flag" -> ss = <<"FLAGS">>
Derivation(cst) == \A j \in 1..Len(cst) : cst[j][2] \in RuleNames => Produces(cst[j][2], KidLabels(cst, j))
Yield(cst) == SelectSeq(cst, LAMBDA y : y[2] \notin RuleNames)
YieldIs(cst, ts) == LET y == Yield(cst) IN Len(y) = Len(ts) /\ \A j \in 1..Len(y) : y[j][2] = ts[j].ty /\ y[j][3] = ts[j].s /\ y[j][4] = ts[j].e
Balanced(tour) ==      \* every rule node entered once and left once, properly nested
  \A n \in 1..(Len(tour) \div 2) :
    /\ Cardinality({j \in 1..Len(tour) : tour[j][2] = n}) = 1 /\ Cardinality({j \in 1..Len(tour) : tour[j][2] = 0 - n}) = 1
    /\ LET a == CHOOSE j \in 1..Len(tour) : tour[j][2] = n
           b == CHOOSE j \in 1..Len(tour) : tour[j][2] = 0 - n
       IN a < b /\ \A j \in (a + 1)..(b - 1) : \E k \in (a + 1)..(b - 1) : tour[k][2] = 0 - tour[j][2]
=============================================================================
