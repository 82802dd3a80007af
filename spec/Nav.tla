---------------------------------- MODULE Nav ----------------------------------
(* A forest of query nodes held by reference, and what navigation answers.      *)
(* A heap is a sequence of nodes [t kind, par parent or 0, k children]; nodes    *)
(* are named by their place in the heap.  Node 0 stands for "nothing".           *)
EXTENDS Tree

ClassNames == <<"", "Node", "Expression", "Wildcard", "Group", "Or", "And", "Not", "QuerySegment", "QueryGroup",
                "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin">>
Instance(h, x, cls) == cls \in {"", "Node"} \/ h[x].t = cls

(* the children that a class filter leaves, in order *)
Filtered(h, n, cls) == SelectSeq(h[n].k, LAMBDA x : Instance(h, x, cls))
Nth(ss, i) == IF i >= 0 /\ i < Len(ss) THEN ss[i + 1] ELSE 0
GetChild(h, n, i, cls) == Nth(Filtered(h, n, cls), i)
FirstChild(h, n, cls) == GetChild(h, n, 0, cls)
LastChild(h, n, cls) == LET f == Filtered(h, n, cls) IN Nth(f, Len(f) - 1)
ChildCount(h, n) == Len(h[n].k)

(* named accessors: which kinds have them, and their answer *)
HasOperands == {"And", "Or"}
Accessor(h, n, name) ==
  CASE name = "get_expression" -> Nth(h[n].k, 0)
    [] name = "get_content" -> Nth(h[n].k, 0)
    [] name = "get_query" -> Nth(h[n].k, 0)
    [] name = "get_within" -> Nth(h[n].k, 1)
AccessorsOf(t) == CASE t = "QuerySegment" -> <<"get_expression">> [] t = "QueryGroup" -> <<"get_content">>
                    [] t = "QueryWithWithin" -> <<"get_query", "get_within">> [] OTHER -> <<>>

(* ---- a heap that is one tree, node 1 its root ---- *)
RECURSIVE Reach(_, _)     \* pre-order, by descending into children
Reach(h, n) == <<n>> \o Flatten([i \in 1..Len(h[n].k) |-> Reach(h, h[n].k[i])])
Once(ss) == \A i, j \in 1..Len(ss) : i # j => ss[i] # ss[j]
ParentsAgree(h) == \A n \in 1..Len(h) : \A i \in 1..Len(h[n].k) : h[n].k[i] \in 1..Len(h) /\ h[h[n].k[i]].par = n
RootOnly(h) == \A n \in 1..Len(h) : h[n].par = 0 <=> n = 1
AllArity(h) == \A n \in 1..Len(h) : ArityOK(h[n]) /\ \A i \in 1..Len(h[n].k) : h[h[n].k[i]].t \in ChildKinds(h[n].t)
EachOnce(h) == LET all == Flatten([n \in 1..Len(h) |-> h[n].k]) IN Once(all) /\ Len(all) = Len(h) - 1
=============================================================================
