------------------------------ MODULE CharSuite ------------------------------
(* Character-level exploration: every string over an alphabet of characters,   *)
(* up to a length bound, between a prefix and a suffix, and its meaning.        *)
(* Exercises the lexer's longest match and the literal decoder, which the      *)
(* token-level exploration of Suite keeps fixed.                              *)
(* The decoder runs along as a state machine (one transition per character)     *)
(* and is compared with the meaning of the whole text when the prefix opens a  *)
(* literal (P.lit = TRUE).                                                    *)
EXTENDS Pda, Views, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.SUITE)
Conf == [di |-> P.di, op |-> P.op, nf |-> P.nf]
VARIABLES txt, n, d
vars == <<txt, n, d>>

Q == P.prefix[Len(P.prefix)]
(* decoder state along the way: "off" once the text is no longer inside the literal *)
Off == [m |-> "off", acc |-> <<>>, v |-> 0, left |-> 0, ok |-> FALSE]
EscOK(c) == c \in QuoteEsc \cup MetaChars \cup {110, 116} \/ HexEscLen(c) > 0
Along(s, c) ==
  CASE s.m = "off" -> Off
    [] s.m = "n" /\ c = Q -> Off
    [] s.m = "e" /\ ~EscOK(c) -> Off
    [] s.m = "h" /\ ~IsHex(c) -> Off
    [] OTHER -> DStep(s, c)

Init == txt = <<>> /\ n = 0 /\ d = IF P.lit THEN DInit ELSE Off
Feed(w) == /\ n < P.maxlen
           /\ txt' = txt \o w
           /\ n' = n + 1
           /\ d' = IF Len(w) = 1 THEN Along(d, w[1]) ELSE
                   LET RECURSIVE F(_, _)
                       F(s, j) == IF j > Len(w) THEN s ELSE F(Along(s, w[j]), j + 1)
                   IN F(d, 1)
Next == \E j \in 1..Len(P.alph) : Feed(P.alph[j])
Spec == Init /\ [][Next]_vars

Full == P.prefix \o txt \o P.suffix
M == Meaning(Conf, Full)
EncT(x) == IF x.t = "None" THEN <<>> ELSE Enc(x)
Emit == LET m == M IN
        PrintT("@@" \o ToJson([x |-> Full, o |-> m.out, t |-> EncT(m.tree), es |-> m.es, ee |-> m.ee]))

DecoderAgrees ==
  P.lit => LET m == M IN
    /\ (d.m = "n" /\ d.ok) => m.out = "ok" /\ VVal(m.tree) = <<Normalize(P.nf, d.acc)>>
    /\ (d.m = "n" /\ ~d.ok) => m.out = "static"
    /\ (d.m \in {"e", "h"}) => m.out # "ok" \/ P.suffix # <<Q>>
NormLaws ==
  P.lit /\ d.m = "n" /\ d.ok =>
    /\ \A f \in {"NFC", "NFD", "NFKC", "NFKD"} : Normalize(f, Normalize(f, d.acc)) = Normalize(f, d.acc)
    /\ Normalize("NFC", Normalize("NFD", d.acc)) = Normalize("NFC", d.acc)
    /\ Normalize("NFD", Normalize("NFC", d.acc)) = Normalize("NFD", d.acc)
    /\ Normalize("NFKC", Normalize("NFD", d.acc)) = Normalize("NFKC", d.acc)
TreeOK == LET m == M IN m.out = "ok" => WellFormed(m.tree) /\ LocNested(m.tree)
=============================================================================
