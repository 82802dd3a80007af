------------------------------- MODULE NavSuite -------------------------------
(* Client programs that build nodes by hand: a stack of finished subtrees; every  *)
(* constructor of the package is a transition.  Each state is emitted with the    *)
(* program that reaches it, every node's parent and children, and every answer    *)
(* of the navigation functions on the newest node that is not "nothing".          *)
EXTENDS Nav, Json, IOUtils, TLC, SequencesExt

P == JsonDeserialize(IOEnv.SUITE)     \* leaf, wrap, nary: kinds; within, wild, maxops, maxstack
VARIABLES h, st, prog
vars == <<h, st, prog>>

RECURSIVE SetPar(_, _, _)
SetPar(hh, ks, n) == IF ks = <<>> THEN hh ELSE SetPar([hh EXCEPT ![Head(ks)].par = n], Tail(ks), n)
Build(t, ks, op) == LET n == Len(h) + 1 IN
  /\ h' = SetPar(Append(h, [t |-> t, par |-> 0, k |-> ks]), ks, n)
  /\ st' = Append(SubSeq(st, 1, Len(st) - Len(ks)), n)
  /\ prog' = Append(prog, op)
LastN(k) == SubSeq(st, Len(st) - k + 1, Len(st))

Leaf(t) == Len(st) < P.maxstack /\ Build(t, <<>>, <<"leaf", t, 0>>)
Wrap(t) == Len(st) >= 1 /\ Build(t, LastN(1), <<"wrap", t, 0>>)
Nary(t, k) == k <= Len(st) /\ Build(t, LastN(k), <<"nary", t, k>>)
Within(k) == k <= Len(st) /\ Build("QueryWithWithin", LastN(k), <<"within", "QueryWithWithin", k>>)
\* children list plus one more child
Wild(k) == k <= Len(st) /\ Build("Wildcard", LastN(k), <<"wild", "Wildcard", k>>)

Init == h = <<>> /\ st = <<>> /\ prog = <<>>
Next == /\ Len(prog) < P.maxops
        /\ \/ \E i \in 1..Len(P.leaf) : Leaf(P.leaf[i])
           \/ \E i \in 1..Len(P.wrap) : Wrap(P.wrap[i])
           \/ \E i \in 1..Len(P.nary), k \in P.minary..P.maxstack : Nary(P.nary[i], k)
           \/ P.within /\ \E k \in 1..2 : Within(k)
           \/ P.wild /\ \E k \in 1..3 : Wild(k)

New == Len(h)
Places(n) == -2..(ChildCount(h, n) + 1)
Answers(n) == {<<c, i, GetChild(h, n, i, ClassNames[c])>> : c \in 1..Len(ClassNames), i \in Places(n)}
Emit == h # <<>> => PrintT("@@" \o ToJson([p |-> prog, par |-> [n \in 1..Len(h) |-> h[n].par], k |-> [n \in 1..Len(h) |-> h[n].k],
            g |-> SetToSeq({a \in Answers(New) : a[3] # 0}),
            l |-> [c \in 1..Len(ClassNames) |-> LastChild(h, New, ClassNames[c])],
            a |-> LET an == AccessorsOf(h[New].t) IN [j \in 1..Len(an) |-> <<an[j], Accessor(h, New, an[j])>>]]))

(* design: parents and children agree; the stack holds exactly the parentless nodes; *)
(* first and last are the ends of the indexed children; indexing by class enumerates *)
(* the children of that class in order                                              *)
Agree == ParentsAgree(h)
Roots == {n \in 1..Len(h) : h[n].par = 0} = {st[i] : i \in 1..Len(st)}
Ends == h # <<>> => \A c \in 1..Len(ClassNames) : LET cls == ClassNames[c] f == Filtered(h, New, cls) IN
          /\ FirstChild(h, New, cls) = GetChild(h, New, 0, cls)
          /\ LastChild(h, New, cls) = GetChild(h, New, Len(f) - 1, cls)
          /\ GetChild(h, New, -1, cls) = 0 /\ GetChild(h, New, Len(f), cls) = 0
Partition == h # <<>> => ChildCount(h, New) = Len(Flatten([c \in 1..12 |-> Filtered(h, New, ClassNames[c + 2])]))
=============================================================================
