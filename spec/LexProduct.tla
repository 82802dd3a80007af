------------------------------- MODULE LexProduct -------------------------------
(* The token definitions of the grammar file against those compiled into the lexer     *)
(* (its transition network), character by character, for texts of any length: the       *)
(* product of the two automata over one representative of every class of characters.    *)
EXTENDS Grammar, Json, IOUtils, TLC
P == JsonDeserialize(IOEnv.SUITE)   \* nodes, g: rules [n, top, skip] of the file, a: of the network, chars
T == P.nodes
GStart == Config(T, {<<P.g[j].top>> : j \in 1..Len(P.g)})
AStart == Config(T, {<<P.a[j].top>> : j \in 1..Len(P.a)})
VARIABLES txt, sg, sa
vars == <<txt, sg, sa>>
View == <<sg, sa>>
Init == txt = <<>> /\ sg = GStart /\ sa = AStart
Next == \E j \in 1..Len(P.chars) :
          /\ sg # {} \/ sa # {}
          /\ sg' = ReadChar(T, sg, P.chars[j]) /\ sa' = ReadChar(T, sa, P.chars[j])
          /\ txt' = Append(txt, P.chars[j])
Name(R, S) == LET w == Winner(T, S) IN IF w = 0 THEN "" ELSE R[w].n
Same == Name(P.g, sg) = Name(P.a, sa)
Emit == PrintT("@@" \o ToJson([x |-> txt, same |-> Same, g |-> Name(P.g, sg), a |-> Name(P.a, sa)]))
=============================================================================
