-------------------------------- MODULE Norm --------------------------------
(* Unicode normalisation (UAX #15): full decomposition, canonical ordering,   *)
(* canonical composition, over the alphabet of UcdTable.  Code points outside *)
(* the tables are taken to be inert; InAlphabet tells when that is certain.   *)
EXTENDS Integers, Sequences, FiniteSets, UcdTable
LOCAL INSTANCE SequencesExt

(* binary search in a sorted key sequence: index of x or 0 *)
RECURSIVE Find(_, _, _, _)
Find(K, x, lo, hi) == IF lo > hi THEN 0
                      ELSE LET mid == (lo + hi) \div 2 IN
                           IF K[mid] = x THEN mid
                           ELSE IF K[mid] < x THEN Find(K, x, mid + 1, hi) ELSE Find(K, x, lo, mid - 1)
Lookup(K, V, x, dflt) == LET i == Find(K, x, 1, Len(K)) IN IF i = 0 THEN dflt ELSE V[i]

Ccc(c) == IF c < 768 THEN 0 ELSE Lookup(Ccc_K, Ccc_V, c, 0)
Dec1(c, compat) == IF c < 160 THEN <<c>>
                   ELSE IF compat THEN Lookup(CompatD_K, CompatD_V, c, <<c>>)
                   ELSE Lookup(CanonD_K, CanonD_V, c, <<c>>)
(* the canonical composite of the pair a, b, or 0.  Pairs are grouped by first member *)
PairFor(a, b) == LET i == Find(PairA_K, a, 1, Len(PairA_K)) IN
                 IF i = 0 THEN 0 ELSE Lookup(PairA_V[i][1], PairA_V[i][2], b, 0)
DecAll(s, compat) == FoldLeft(LAMBDA a, c : a \o Dec1(c, compat), <<>>, s)

(* insert c into the already ordered s: before the trailing marks of higher class *)
RECURSIVE Sift(_, _, _)
Sift(s, j, c) == IF j > 0 /\ Ccc(c) # 0 /\ Ccc(s[j]) > Ccc(c) THEN Sift(s, j - 1, c)
                 ELSE SubSeq(s, 1, j) \o <<c>> \o SubSeq(s, j + 1, Len(s))
Order(s) == FoldLeft(LAMBDA out, c : Sift(out, Len(out), c), <<>>, s)

(* st: index in out of the last starter (0: none); last: class of the last     *)
(* character kept after it (-1: none kept, so not blocked)                     *)
ComposeStep(a, c) ==
  LET cc == Ccc(c)
      p == IF a.st > 0 /\ a.last < cc THEN PairFor(a.out[a.st], c) ELSE 0
  IN IF p # 0 THEN [a EXCEPT !.out[a.st] = p]
     ELSE IF cc = 0 THEN [out |-> Append(a.out, c), st |-> Len(a.out) + 1, last |-> -1]
     ELSE [a EXCEPT !.out = Append(@, c), !.last = cc]

Decomposed(s, compat) == Order(DecAll(s, compat))
Composed(s) == FoldLeft(ComposeStep, [out |-> <<>>, st |-> 0, last |-> -1], s).out

AllInert(s) == \A i \in 1..Len(s) : s[i] < 128
Normalize(form, s) ==
  IF AllInert(s) THEN s
  ELSE CASE form = "NFD"  -> Decomposed(s, FALSE)
         [] form = "NFKD" -> Decomposed(s, TRUE)
         [] form = "NFC"  -> Composed(Decomposed(s, FALSE))
         [] form = "NFKC" -> Composed(Decomposed(s, TRUE))
         [] OTHER -> s
=============================================================================
