------------------------------- MODULE Chars -------------------------------
(* Code points.  Text is a sequence of code points (Seq(0..1114111)): TLC    *)
(* strings are used only as symbolic labels, never as text.                  *)
EXTENDS Integers, Sequences, FiniteSets

IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsLetter(c) == IsLower(c) \/ IsUpper(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsLetter(c) \/ IsDigit(c)
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsLower(c) THEN c - 87 ELSE c - 55

(* the white space the lexer skips *)
IsWS(c) == IF c < 128 THEN c = 32 \/ (c >= 9 /\ c <= 13)
           ELSE \/ c = 133 \/ c = 160 \/ c = 5760 \/ c = 8232 \/ c = 8233 \/ c = 8239 \/ c = 8287 \/ c = 12288
                \/ (c >= 8192 /\ c <= 8202)

SQ == 39          \* '
DQ == 34          \* "
BS == 92          \* backslash
HYPHEN == 45
MaxCodePoint == 1114111

(* characters that may follow a backslash and stand for a regex            *)
(* metacharacter: the backslash is kept.                                    *)
MetaChars == {46, 94, 36, 42, 43, 63, 40, 41, 123, 125, 91, 93, 124}  \* . ^ $ * + ? ( ) { } [ ] |
QuoteEsc  == {BS, SQ, DQ}
HexEscLen(c) == IF c = 120 THEN 2 ELSE IF c = 117 THEN 4 ELSE IF c = 85 THEN 8 ELSE 0  \* x u U

K_within    == <<119,105,116,104,105,110>>
K_sentence  == <<115,101,110,116,101,110,99,101>>
K_s         == <<115>>
K_utterance == <<117,116,116,101,114,97,110,99,101>>
K_u         == <<117>>
K_paragraph == <<112,97,114,97,103,114,97,112,104>>
K_p         == <<112>>
K_turn      == <<116,117,114,110>>
K_t         == <<116>>
K_text      == <<116,101,120,116>>
K_session   == <<115,101,115,115,105,111,110>>
ScopeWords  == {K_sentence, K_s, K_utterance, K_u, K_paragraph, K_p, K_turn, K_t, K_text, K_session}
FlagChars   == {105, 73, 99, 67, 108, 100}      \* i I c C l d

(* what a scope word denotes *)
ScopeOf(w) == CASE w \in {K_sentence, K_s} -> "Sentence"
                [] w \in {K_utterance, K_u} -> "Utterance"
                [] w \in {K_paragraph, K_p} -> "Paragraph"
                [] w \in {K_turn, K_t} -> "Turn"
                [] w = K_text -> "Text"
                [] w = K_session -> "Session"
                [] OTHER -> "?"
=============================================================================
