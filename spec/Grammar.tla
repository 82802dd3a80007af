-------------------------------- MODULE Grammar --------------------------------
(* The published grammar as an automaton.  A node of an expression table is           *)
(*   [k |-> "set", r ranges]   one character      [k |-> "tok", n name]   one token     *)
(*   [k |-> "seq"/"alt"/"star", a parts]          [k |-> "end", i rule number]          *)
(* A configuration is the set of all stacks of nodes still to be matched, every head    *)
(* expanded down to a character, a token, an end mark or nothing.  Reading a character  *)
(* or token keeps the stacks whose head matches it (partial derivatives), so that a      *)
(* configuration covers all derivations at once.                                      *)
EXTENDS Integers, Sequences, FiniteSets

MaxStack == 120
Leaf(T, st) == st = <<>> \/ T[st[1]].k \in {"set", "tok", "end"}
Expand(T, st) ==
  IF Leaf(T, st) \/ Len(st) > MaxStack THEN {}
  ELSE LET n == T[st[1]] IN
       CASE n.k = "seq" -> {n.a \o Tail(st)}
         [] n.k = "alt" -> {<<n.a[j]>> \o Tail(st) : j \in 1..Len(n.a)}
         [] OTHER -> {Tail(st), <<n.a[1]>> \o st}
RECURSIVE Close(_, _, _)
Close(T, done, todo) ==
  IF todo = {} THEN {st \in done : Leaf(T, st)}
  ELSE LET new == UNION {Expand(T, st) : st \in todo} IN Close(T, done \cup todo, new \ (done \cup todo))
Config(T, sts) == Close(T, {}, sts)

(* reading *)
Within(c, r) == \E j \in 1..Len(r) : r[j][1] <= c /\ c <= r[j][2]
ReadChar(T, S, c) == Config(T, {Tail(st) : st \in {x \in S : x # <<>> /\ T[x[1]].k = "set" /\ Within(c, T[x[1]].r)}})
ReadTok(T, S, n) == Config(T, {Tail(st) : st \in {x \in S : x # <<>> /\ T[x[1]].k = "tok" /\ T[x[1]].n = n}})
(* the token rule that matches what was read so far: the first one wins; 0: none *)
Ends(T, S) == {T[st[1]].i : st \in {x \in S : x # <<>> /\ T[x[1]].k = "end"}}
Winner(T, S) == LET e == Ends(T, S) IN IF e = {} THEN 0 ELSE CHOOSE i \in e : \A j \in e : i <= j

(* ---- tokens: at every position the longest match ------------------------- *)
RECURSIVE Longest(_, _, _, _, _)
Longest(T, S, inp, i, best) ==     \* best <<end (exclusive, 1-based), rule>>
  IF S = {} \/ i > Len(inp) THEN best
  ELSE LET S2 == ReadChar(T, S, inp[i]) w == Winner(T, S2) IN
       Longest(T, S2, inp, i + 1, IF w = 0 THEN best ELSE <<i + 1, w>>)
(* all tokens up to the end or the first position where none starts; R: rules [n, skip] *)
RECURSIVE TokensFrom(_, _, _, _, _, _)
TokensFrom(T, R, S0, inp, i, ts) ==
  IF i > Len(inp) THEN [ts |-> ts, bad |-> 0 - 1]
  ELSE LET b == Longest(T, S0, inp, i, <<i, 0>>) IN
       IF b[2] = 0 \/ b[1] = i THEN [ts |-> ts, bad |-> i - 1]
       ELSE TokensFrom(T, R, S0, inp, b[1], IF R[b[2]].skip THEN ts ELSE Append(ts, <<R[b[2]].n, i - 1, b[1] - 1>>))

(* ---- phrases ------------------------------------------------------------ *)
RECURSIVE ReadAll(_, _, _)
ReadAll(T, S, ns) == IF ns = <<>> \/ S = {} THEN S ELSE ReadAll(T, ReadTok(T, S, Head(ns)), Tail(ns))
Derives(T, S) == <<>> \in S \/ <<>> \in ReadTok(T, S, "EOF")
=============================================================================
