------------------------------ MODULE ParseProduct ------------------------------
(* The phrase grammar of the grammar file against the push-down automaton Pda and the   *)
(* transition network compiled into the parser: all three read the same words, for     *)
(* queries of any length whose brackets nest at most P.depth deep.  The automaton's     *)
(* configuration is reduced to what decides about acceptance.                         *)
(* Every reachable combination is emitted once: the words that led to it, whether they  *)
(* form a phrase of the published grammar, and for every word what happens with it.     *)
EXTENDS Pda, Grammar, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* nodes, rules (lexer), start, astart, words, depth, extra
T == P.nodes
ASSUME TLCSet(8, Config(T, {<<P.rules[j].top>> : j \in 1..Len(P.rules)}))
LexStart == TLCGet(8)
ASSUME TLCSet(9, TLCEval([j \in 1..Len(P.words) |-> LET l == TokensFrom(T, P.rules, LexStart, P.words[j], 1, <<>>) IN
                   [g |-> IF l.bad >= 0 THEN <<"?">> ELSE [k \in 1..Len(l.ts) |-> l.ts[k][1]],
                    p |-> LET s == Lex(P.words[j]) IN IF s.bad >= 0 THEN <<>> ELSE SubSeq(s.ts, 1, Len(s.ts) - 1)]]))
Words == TLCGet(9)

Rep == Segment(MkExpr(NoText, <<97>>, "Eq", <<97>>, 0, 0, 0), 0, 0)
Reduced(c) == IF c.m = "dead" THEN [Start EXCEPT !.m = "dead"]
  ELSE [m |-> c.m, pd |-> NoPd, sem |-> {}, w |-> NullNode,
        fr |-> [j \in 1..Len(c.fr) |-> [f |-> c.fr[j].f, o |-> c.fr[j].o, s |-> 0, alts |-> IF c.fr[j].alts = <<>> THEN <<>> ELSE <<Rep>>,
                                        seq |-> IF c.fr[j].seq = <<>> THEN <<>> ELSE <<Rep>>, nots |-> <<>>]]]
\* tokens of no extent: only their kinds matter here
Bare(t) == [t EXCEPT !.s = 0, !.e = 0]
RECURSIVE Feed(_, _)
Feed(c, ts) == IF ts = <<>> THEN c ELSE IF c.m = "dead" THEN c
  ELSE Feed(Reduced(Step(DefaultConf, [c EXCEPT !.pd = [NoPd EXCEPT !.q = <<97>>, !.id = <<97>>, !.re = <<49>>]], Bare(Head(ts)))), Tail(ts))
PEnd(c) == c.m # "dead" /\ Step(DefaultConf, [c EXCEPT !.pd = [NoPd EXCEPT !.re = <<49>>]], EofTok(<<>>)).m = "acc"

VARIABLES h, c, sg, sa, x
vars == <<h, c, sg, sa, x>>
View == <<c, sg, sa, x>>
Init == h = <<>> /\ c = Reduced(Start) /\ sg = Config(T, {<<P.start>>}) /\ sa = (IF P.astart = 0 THEN {} ELSE Config(T, {<<P.astart>>})) /\ x = 0
Read(j) == /\ c.m # "dead" \/ sg # {}
           /\ c.m = "dead" => x < P.extra          \* a little way on where only the grammar file goes
           /\ c' = Feed(c, Words[j].p) /\ sg' = ReadAll(T, sg, Words[j].g) /\ sa' = ReadAll(T, sa, Words[j].g)
           /\ h' = Append(h, j)
           /\ x' = IF c'.m = "dead" THEN (IF sg' = {} THEN P.extra ELSE x + 1) ELSE 0
           /\ Len(c'.fr) <= P.depth /\ Len(h) < P.long
           /\ c'.m # "dead" \/ sg' # {}
Next == \E j \in 1..Len(P.words) : Read(j)

\* the way to an accepted query, as words
RECURSIVE Ending(_, _)
Ending(d, fuel) ==
  LET w == CASE d.m = "item" -> <<DQ, DQ>> [] d.m \in {"reflag", "ereflag"} -> <<105>> [] d.m \in {"re", "postQ", "post"} -> (IF Len(d.fr) = 1 THEN <<>> ELSE <<41>>)
             [] d.m \in {"q1", "q3"} -> <<57>> [] d.m \in {"q2", "q4", "q5"} -> <<125>> [] d.m = "seg0" -> <<93>> [] d.m \in {"e", "attr2"} -> <<97>>
             [] d.m \in {"attr1", "attr3"} -> <<61>> [] d.m = "op" -> <<DQ, DQ>> [] d.m \in {"ere", "ePost"} -> (IF d.fr[Len(d.fr)].o = "(" THEN <<41>> ELSE <<93>>)
             [] d.m = "within" -> K_s [] OTHER -> <<>>
  IN IF w = <<>> \/ fuel = 0 THEN <<>> ELSE LET l == Lex(w) IN <<w>> \o Ending(Feed(d, SubSeq(l.ts, 1, Len(l.ts) - 1)), fuel - 1)
EndOf(d) == IF d.m = "dead" THEN <<>> ELSE Ending(d, 8 + 2 * Len(d.fr))
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<>> ELSE <<32>> \o Head(ws) \o Spaced(Tail(ws))
Names(tx) == LET l == TokensFrom(T, P.rules, LexStart, tx, 1, <<>>) IN IF l.bad >= 0 THEN <<"?">> ELSE [k \in 1..Len(l.ts) |-> l.ts[k][1]]
InFile(S, tx) == Derives(T, ReadAll(T, S, Names(tx)))
Try(j) ==      \* one more word, then the shortest way to the end: <<word, ending, phrase of the grammar file?>>
  LET d == Feed(c, Words[j].p) e == Spaced(EndOf(IF d.m = "dead" THEN c ELSE d)) IN <<j, e, InFile(ReadAll(T, sg, Words[j].g), e)>>
Emit == PrintT("@@" \o ToJson([h |-> h, acc |-> Derives(T, sg), same |-> (PEnd(c) <=> Derives(T, sg)) /\ ((c.m = "dead") <=> (sg = {})),
                  net |-> P.astart = 0 \/ (Derives(T, sa) <=> Derives(T, sg)), t |-> [j \in 1..Len(P.words) |-> Try(j)]]))
=============================================================================
