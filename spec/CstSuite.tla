-------------------------------- MODULE CstSuite --------------------------------
(* The exhaustive exploration of Suite, with the low-level parse of every state's       *)
(* text: outcome, derivation and the words that cannot follow.                       *)
EXTENDS Suite, Cst
AllToks == Lex(Full).ts
Low == LET r == After(c, Len(txt), SuffixToks) f == Step(Conf, r.c, EofTok(Full)) IN
       IF r.c.m = "dead" \/ f.m = "dead" THEN [o |-> "syntax", cst |-> <<>>] ELSE [o |-> "ok", cst |-> CstOf(f.w, AllToks)]
EmitLow == LET l == Low IN
           PrintT("@@" \o ToJson([x |-> txt, o |-> l.o, cst |-> l.cst, tour |-> Tour(l.cst), d |-> SelectSeq(DeadWords, LAMBDA y : y # <<>>)]))
(* design *)
CstOK == LET l == Low IN
         l.o = "ok" => Derivation(l.cst) /\ YieldIs(l.cst, AllToks) /\ Balanced(Tour(l.cst))
LowAgrees == Low.o = "syntax" <=> FullResult.out = "syntax"
=============================================================================
