------------------------------- MODULE ValSuite -------------------------------
(* Exhaustive exploration of validations: a query grows condition by condition  *)
(* (texts and links from the suite file), under every listed restriction and    *)
(* both treatments of warnings.  Every state is emitted as an obligation.       *)
EXTENDS Pda, Validator, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.SUITE)
VARIABLES txt, n, si, we
vars == <<txt, n, si, we>>
S == [ai |-> P.settings[si].ai, aq |-> P.settings[si].aq, we |-> we, rf |-> FALSE]

Init == /\ n = 1 /\ si \in 1..Len(P.settings) /\ we \in BOOLEAN
        /\ \E c \in 1..Len(P.conds) : txt = P.conds[c]
Add(l, c) == /\ n < P.maxlen
             /\ txt' = txt \o P.links[l] \o P.conds[c]
             /\ n' = n + 1 /\ UNCHANGED <<si, we>>
Next == \E l \in 1..Len(P.links), c \in 1..Len(P.conds) : Add(l, c)

Full == P.prefix \o txt \o P.suffix
M == Meaning(DefaultConf, Full)
Is == Issues(S, M.tree)

Emit == LET m == M is == Issues(S, m.tree) c == Counted(S, is) IN
        PrintT("@@" \o ToJson([x |-> Full, si |-> si, we |-> we, v |-> Verdict(S, is),
                 first |-> IF c = <<>> THEN 0 ELSE c[1].ix,
                 is |-> [j \in 1..Len(is) |-> <<is[j].lv, is[j].ix, is[j].s, is[j].e>>]]))

(* design: accepted queries only; issues in document order, at conditions only;  *)
(* treating warnings as errors never turns a bad query good; raising is possible  *)
(* exactly when the verdict is bad; unused restrictions change nothing            *)
Accepted == M.out = "ok"
Ordered == LET is == Is IN \A j \in 1..(Len(is) - 1) : is[j].ix <= is[j + 1].ix /\ is[j].s <= is[j + 1].s
AtConditions == LET is == Is p == PreOrder(M.tree) IN \A j \in 1..Len(is) : p[is[j].ix].t = "Expression"
Monotone == LET is == Is IN Verdict([S EXCEPT !.we = TRUE], is) = "T" => Verdict([S EXCEPT !.we = FALSE], is) = "T"
ModesAgree == LET is == Is IN (Outcome([S EXCEPT !.rf = TRUE], is) = "raise") <=> Verdict(S, is) = "F"
Compositional ==     \* the issues of a query are those of its conditions, one by one
  LET t == M.tree p == Conds(t) IN
    [j \in 1..Len(Is) |-> <<Is[j].lv, Is[j].s>>] =
    Flatten([i \in 1..Len(p) |-> LET l == CondIssues(S, p[i], 1) IN [j \in 1..Len(l) |-> <<l[j].lv, l[j].s>>]])
=============================================================================
