-------------------------------- MODULE Suite --------------------------------
(* Exhaustive exploration of the push-down automaton: the environment feeds    *)
(* words of an alphabet, one per step; every reachable configuration is a      *)
(* viable prefix.  The suite file (JSON, named by the environment variable     *)
(* SUITE) gives the alphabet (texts, each one or more tokens), prefix, suffix, *)
(* separator, length bound and parser settings.                               *)
(* Each state is emitted as one test obligation: the text, what it means as a  *)
(* complete query, and every word that cannot follow.                         *)
EXTENDS Pda, Views, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.SUITE)
Conf == [di |-> P.di, op |-> P.op, nf |-> P.nf]
Alph == P.alph
Sep == P.sep
MaxLen == P.maxlen

VARIABLES txt, c, n
vars == <<txt, c, n>>

Shift(ts, d) == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.s = @ + d, !.e = @ + d]]
Toks(x) == LET l == Lex(x).ts IN SubSeq(l, 1, Len(l) - 1)
AlphToks == [i \in 1..Len(Alph) |-> Toks(Alph[i])]
SuffixToks == Toks(P.suffix)

FeedAll(d, ts) == Run(Conf, d, ts)
After(d, off, ts) == FeedAll(d, Shift(ts, off))

Init == /\ txt = P.prefix
        /\ c = FeedAll(Start, Toks(P.prefix)).c
        /\ n = 0

Feed(i) == /\ n < MaxLen
           /\ LET r == After(c, Len(txt) + Len(Sep), AlphToks[i]).c IN
              /\ r.m # "dead"
              /\ c' = r
           /\ txt' = txt \o Sep \o Alph[i]
           /\ n' = n + 1

Next == \E i \in 1..Len(Alph) : Feed(i)
Spec == Init /\ [][Next]_vars

(* ---- as a complete query ---- *)
Full == txt \o P.suffix
FullResult ==
  LET r == After(c, Len(txt), SuffixToks)
      st == Shift(SuffixToks, Len(txt))
      f == Step(Conf, r.c, EofTok(Full))
      R(out, tree, es, ee) == [out |-> out, tree |-> tree, es |-> es, ee |-> ee]
  IN IF r.c.m = "dead" THEN R("syntax", NullNode, st[r.i].s, st[r.i].e)
     ELSE IF f.m = "dead" THEN R("syntax", NullNode, Len(Full), Len(Full))
     ELSE IF f.sem # {} THEN R("static", NullNode, -1, -1)
     ELSE R("ok", f.w, -1, -1)

EncT(x) == IF x.t = "None" THEN <<>> ELSE Enc(x)

DeadWord(i) == LET off == Len(txt) + Len(Sep)
                   r == After(c, off, AlphToks[i])
               IN IF r.c.m = "dead" THEN <<i, Shift(AlphToks[i], off)[r.i].s, Shift(AlphToks[i], off)[r.i].e>>
                  ELSE <<>>
DeadWords == [i \in 1..Len(Alph) |-> DeadWord(i)]

Emit == LET r == FullResult IN
        PrintT("@@" \o ToJson([x |-> txt, o |-> r.out, t |-> EncT(r.tree), es |-> r.es, ee |-> r.ee,
                       d |-> SelectSeq(DeadWords, LAMBDA y : y # <<>>)]))

(* ---- design properties, checked in every state ---- *)
Accepted == FullResult.out = "ok"
TreeOK == LET r == FullResult IN r.out = "ok" => WellFormed(r.tree) /\ LocNested(r.tree)

(* every configuration can be completed to an accepted query, so "dead" marks   *)
(* exactly the first token after which no continuation exists                  *)
W(ty, tx) == Tok(ty, tx, 0, 0)
TRe == W("REGEXP", <<DQ, DQ>>)
Complete(d) ==
  CASE d.m = "item" -> TRe
    [] d.m \in {"reflag", "ereflag"} -> W("FLAGS", <<105>>)
    [] d.m \in {"re", "postQ", "post"} -> IF Len(d.fr) = 1 THEN W("EOF", <<>>) ELSE W(")", <<>>)
    [] d.m \in {"q1", "q3"} -> W("INT", <<57>>)
    [] d.m \in {"q2", "q4", "q5"} -> W("}", <<>>)
    [] d.m = "seg0" -> W("]", <<>>)
    [] d.m \in {"e", "attr2"} -> W("IDENT", <<97>>)
    [] d.m \in {"attr1", "attr3"} -> W("=", <<>>)
    [] d.m = "op" -> TRe
    [] d.m \in {"ere", "ePost"} -> IF d.fr[Len(d.fr)].o = "(" THEN W(")", <<>>) ELSE W("]", <<>>)
    [] d.m = "within" -> W("SCOPE", K_s)
    [] d.m = "eof" -> W("EOF", <<>>)
    [] OTHER -> W("none", <<>>)
RECURSIVE Completes(_, _)
Completes(d, fuel) == d.m = "acc" \/ (fuel > 0 /\ d.m # "dead" /\ Completes(Step(Conf, d, Complete(d)), fuel - 1))
Viable == Completes(c, 6 + 2 * Len(c.fr))

(* the incremental automaton and the whole-string meaning agree *)
SameAsMeaning == LET r == FullResult m == Meaning(Conf, Full) IN
                 r.out = m.out /\ r.tree = m.tree /\ r.es = m.es /\ r.ee = m.ee
=============================================================================
