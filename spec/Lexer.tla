------------------------------- MODULE Lexer -------------------------------
(* Tokenisation: at every position the longest token wins; a word is         *)
(* classified as WITHIN, SCOPE, FLAGS or IDENT (in this order); white space   *)
(* separates tokens and is dropped.                                          *)
(* A token is [ty, tx, s, e]: type, text, start and end (exclusive) offset,   *)
(* 0-based, in the query string.                                             *)
EXTENDS Chars
LOCAL INSTANCE SequencesExt

Tok(ty, tx, s, e) == [ty |-> ty, tx |-> tx, s |-> s, e |-> e]

(* Where Block divides a position, a whole block of like characters is passed at  *)
(* once: the same result with a Block-th of the recursion.                        *)
Block == 64
BlockAt(i, last) == i % Block = 0 /\ i + Block - 1 <= last

(* end (exclusive, 1-based index) of the longest run of digits / word characters *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(inp, i) == IF i > Len(inp) \/ ~IsDigit(inp[i]) THEN i
                     ELSE IF BlockAt(i, Len(inp)) /\ \A k \in i..(i + Block - 1) : IsDigit(inp[k]) THEN DigitsEnd(inp, i + Block)
                     ELSE DigitsEnd(inp, i + 1)
InWord(c) == IsAlnum(c) \/ c = HYPHEN
RECURSIVE WordRunEnd(_, _)
WordRunEnd(inp, i) == IF i > Len(inp) \/ ~InWord(inp[i]) THEN i
                      ELSE IF BlockAt(i, Len(inp)) /\ \A k \in i..(i + Block - 1) : InWord(inp[k]) THEN WordRunEnd(inp, i + Block)
                      ELSE WordRunEnd(inp, i + 1)

RECURSIVE BackToAlnum(_, _)
BackToAlnum(inp, j) == IF IsAlnum(inp[j]) THEN j + 1 ELSE BackToAlnum(inp, j - 1)

(* [a-zA-Z] ([a-zA-Z0-9-]* [a-zA-Z0-9])?  starting at i: exclusive end *)
WordEnd(inp, i) == BackToAlnum(inp, WordRunEnd(inp, i) - 1)

(* the escape starting at the backslash at i: exclusive end, or 0 *)
EscEnd(inp, i) ==
  IF i + 1 > Len(inp) THEN 0
  ELSE LET c == inp[i + 1] n == HexEscLen(c) IN
       IF c \in QuoteEsc \/ c \in MetaChars \/ c = 110 \/ c = 116 THEN i + 2
       ELSE IF n > 0 /\ i + 1 + n <= Len(inp) /\ \A k \in (i + 2)..(i + 1 + n) : IsHex(inp[k])
            THEN i + 2 + n
            ELSE 0

(* One character or escape of a quoted body.  at: the next position; dies: -1 so *)
(* far, 0 when the closing quote was met, else the position of the character that *)
(* made the literal unreadable (one past the text when the quote is missing)      *)
EscDies(inp, i) ==      \* the escape at i is malformed: 1-based index of the culprit
  IF i + 1 > Len(inp) THEN Len(inp) + 1
  ELSE LET n == HexEscLen(inp[i + 1])
           stop == {k \in (i + 2)..(i + 1 + n) : k > Len(inp) \/ ~IsHex(inp[k])}
       IN IF n = 0 THEN i + 1 ELSE CHOOSE k \in stop : \A l \in stop : k <= l
QStep(inp, q, st) ==
  IF st.dies >= 0 THEN st
  ELSE IF st.at > Len(inp) THEN [st EXCEPT !.dies = st.at]
  ELSE LET c == inp[st.at] IN
       IF c = q THEN [at |-> st.at + 1, dies |-> 0]
       ELSE IF c = BS THEN LET j == EscEnd(inp, st.at) IN
                           IF j = 0 THEN [st EXCEPT !.dies = EscDies(inp, st.at)] ELSE [st EXCEPT !.at = j]
       ELSE [st EXCEPT !.at = @ + 1]
RECURSIVE QRun(_, _, _, _)      \* n steps, then twice as many, ... until the end is met
QRun(inp, q, st, n) == IF st.dies >= 0 THEN st
                       ELSE QRun(inp, q, FoldLeft(LAMBDA a, k : QStep(inp, q, a), st, [k \in 1..n |-> k]), 2 * n)
(* the literal whose opening quote q is just before i: at is the exclusive end     *)
Quoted(inp, i, q) == QRun(inp, q, [at |-> i, dies |-> -1], 4)
QuotedEnd(inp, i, q) == LET r == Quoted(inp, i, q) IN IF r.dies = 0 THEN r.at ELSE 0

WordType(w) == IF w = K_within THEN "WITHIN"
               ELSE IF w \in ScopeWords THEN "SCOPE"
               ELSE IF \A i \in 1..Len(w) : w[i] \in FlagChars THEN "FLAGS"
               ELSE "IDENT"

Punct(c) == CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 91 -> "[" [] c = 93 -> "]"
              [] c = 124 -> "|" [] c = 38 -> "&" [] c = 33 -> "!" [] c = 47 -> "/"
              [] c = 123 -> "{" [] c = 125 -> "}" [] c = 43 -> "+" [] c = 42 -> "*"
              [] c = 63 -> "?" [] c = 44 -> "," [] c = 61 -> "=" [] c = 58 -> ":"
              [] OTHER -> "none"

(* The token at 1-based position i (never white space).  ty = "BAD" when no   *)
(* token starts here.                                                        *)
Munch(inp, i) ==
  LET c == inp[i]
      T(ty, j) == Tok(ty, SubSeq(inp, i, j - 1), i - 1, j - 1)
  IN IF c = SQ \/ c = DQ THEN LET j == QuotedEnd(inp, i + 1, c)
                            IN IF j = 0 THEN T("BAD", i + 1) ELSE T("REGEXP", j)
     ELSE IF IsLetter(c) THEN LET j == WordEnd(inp, i) IN T(WordType(SubSeq(inp, i, j - 1)), j)
     ELSE IF IsDigit(c) THEN T("INT", DigitsEnd(inp, i))
     ELSE IF c = 33 /\ i < Len(inp) /\ inp[i + 1] = 61 THEN T("!=", i + 2)
     ELSE IF Punct(c) # "none" THEN T(Punct(c), i + 1)
     ELSE T("BAD", i + 1)

EofTok(inp) == Tok("EOF", <<>>, Len(inp), Len(inp))

(* All tokens up to the end or the first unreadable character.               *)
(* [ts |-> tokens, bad |-> offset of the first unreadable character or -1]    *)
(* at: where the next token or white space begins; positions before it are skipped *)
LexStep(inp, st, i) ==
  IF i # st.at \/ st.bad >= 0 THEN st
  ELSE IF IsWS(inp[i]) THEN [st EXCEPT !.at = i + 1]
  ELSE LET t == Munch(inp, i) IN
       IF t.ty = "BAD" THEN [st EXCEPT !.bad = i - 1]
       ELSE [st EXCEPT !.at = t.e + 1, !.ts = Append(@, t)]
Lex(inp) ==
  LET st == FoldLeftDomain(LAMBDA a, i : LexStep(inp, a, i), [at |-> 1, ts |-> <<>>, bad |-> -1], inp)
  IN [ts |-> IF st.bad < 0 THEN Append(st.ts, EofTok(inp)) ELSE st.ts, bad |-> st.bad]

(* Reading on after an unreadable character: it is skipped, an unreadable       *)
(* literal up to and including the character that made it unreadable (all of    *)
(* the rest when its closing quote is missing).                                *)
LexOnStep(inp, st, i) ==
  IF i # st.at THEN st
  ELSE IF IsWS(inp[i]) THEN [st EXCEPT !.at = i + 1]
  ELSE LET t == Munch(inp, i) IN
       IF t.ty # "BAD" THEN [st EXCEPT !.at = t.e + 1, !.ts = Append(@, t)]
       ELSE [st EXCEPT !.at = 1 + (IF inp[i] \in {SQ, DQ} THEN Quoted(inp, i + 1, inp[i]).dies ELSE i), !.bads = Append(@, i - 1)]
LexAll(inp) ==
  LET st == FoldLeftDomain(LAMBDA a, i : LexOnStep(inp, a, i), [at |-> 1, ts |-> <<>>, bads |-> <<>>], inp)
  IN [ts |-> Append(st.ts, EofTok(inp)), bads |-> st.bads]
=============================================================================
