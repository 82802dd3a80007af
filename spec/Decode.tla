------------------------------- MODULE Decode -------------------------------
(* Meaning of literals, flags.                                               *)
EXTENDS Chars
LOCAL INSTANCE SequencesExt

(* One character of a quoted body is consumed per step.                      *)
(*  m: "n" plain, "e" after a backslash, "h" inside a hexadecimal escape      *)
DInit == [m |-> "n", acc |-> <<>>, v |-> 0, left |-> 0, ok |-> TRUE]
DStep(d, c) ==
  CASE d.m = "n" -> IF c = BS THEN [d EXCEPT !.m = "e"] ELSE [d EXCEPT !.acc = Append(@, c)]
    [] d.m = "e" ->
         IF HexEscLen(c) > 0 THEN [d EXCEPT !.m = "h", !.v = 0, !.left = HexEscLen(c)]
         ELSE [d EXCEPT !.m = "n", !.acc = @ \o (CASE c \in QuoteEsc -> <<c>>
                                                   [] c = 110 -> <<10>>
                                                   [] c = 116 -> <<9>>
                                                   [] OTHER -> <<BS, c>>)]
    [] d.m = "h" ->
         LET v0 == d.v * 16 + HexVal(c)
             v == IF v0 > MaxCodePoint THEN MaxCodePoint + 1 ELSE v0    \* saturate (32-bit ints)
         IN IF d.left > 1 THEN [d EXCEPT !.v = v, !.left = @ - 1]
            ELSE IF v > MaxCodePoint THEN [d EXCEPT !.m = "n", !.left = 0, !.ok = FALSE]
            ELSE [d EXCEPT !.m = "n", !.left = 0, !.acc = Append(@, v)]

(* tx includes the quotes.  [ok, acc] *)
DecodeLiteral(tx) == FoldLeft(DStep, DInit, SubSeq(tx, 2, Len(tx) - 1))

(* ---- flags --------------------------------------------------------------- *)
FlagI == 1   FlagCS == 2   FlagL == 4   FlagD == 8
FlagBit(c) == CASE c \in {105, 99} -> FlagI [] c \in {73, 67} -> FlagCS
                [] c = 108 -> FlagL [] OTHER -> FlagD
FlagBits(tx) == LET S == {FlagBit(tx[i]) : i \in 1..Len(tx)}
                    B(b) == IF b \in S THEN b ELSE 0
                IN B(1) + B(2) + B(4) + B(8)
HasBit(n, b) == (n \div b) % 2 = 1
FlagConflict(n) == \/ HasBit(n, FlagI) /\ HasBit(n, FlagCS)
                   \/ HasBit(n, FlagL) /\ n # FlagL
=============================================================================
