------------------------------- MODULE Conform -------------------------------
(* Conformance of recorded parse calls with the specification.                *)
(* The trace (ndjson, environment variable TRACE) holds one record per call:   *)
(*   x, di, op, nf, loc   the query and the parser's settings                 *)
(*   o    "ok" | "err" (QueryParserException) | "other"                        *)
(*   t    the tree (encoded) when o = "ok"                                     *)
(*   can  answer of the yes/no test: "T" | "F" | "other" | "-" (not asked)     *)
(*   errs the error list: [ty, ms (has a message), pk "loc"/"int"/"none"/"odd", *)
(*        s, e, fr]                                                            *)
(*   exm  the exception's text carries the first entry's message               *)
(*   st   the string form, or NoText                                           *)
(* Every record is one transition; a record the specification cannot take is   *)
(* reported with the names of the failing clauses and skipped, so the rest of   *)
(* the trace is still checked.  The clauses evaluated are those of PROP.        *)
(* Records are dealt to Shards independent replays.                            *)
EXTENDS Pda, Views, Str, Json, IOUtils, TLC

Ev == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N == Len(Ev)
Shards == 64

VARIABLES sh, i
vars == <<sh, i>>
Idx == sh + Shards * i

ConfOf(e) == [di |-> e.di, op |-> e.op, nf |-> e.nf]

(* -------------------------------- clauses -------------------------------- *)
(* a clause is <<name, holds>> ; evaluated only for its property                *)
AccOK(e, m) == e.o = (IF m.out = "ok" THEN "ok" ELSE "err")
CanOK(e, m) == e.can \in {"-", IF m.out = "ok" THEN "T" ELSE "F"}

View(p, n) == CASE p = "C02" -> <<VStructure(n)>> [] p = "C03" -> VExpr(n) [] p = "C04" -> VCond(n)
                [] p \in {"C05", "C06"} -> VVal(n) [] p = "C07" -> VFlags(n) [] p = "C08" -> VOcc(n)
                [] p = "C09" -> <<VWithin(n)>> [] p = "C10" -> VLoc(n)
                [] OTHER -> <<n>>
Located(e, n) == IF e.loc THEN n ELSE NoLoc(n)
TreeOKFor(p, e, m) == LET n == Rec(e.t) IN View(p, n) = View(p, Located(e, m.tree))

(* C22 *)
EntryOK(e, d) == /\ d.ty = "syntax-error" /\ d.ms
                 /\ CASE d.pk = "loc" -> d.s >= 0 /\ d.s <= d.e /\ d.e <= Len(e.x)
                      [] d.pk = "int" -> d.s >= 0 /\ d.s < Len(e.x)
                      [] d.pk = "none" -> e.x = <<>>
                      [] OTHER -> FALSE
TokenEntry(e, d, s, en) ==
  IF e.x = <<>> THEN d.pk \in {"none", "loc"} /\ d.fr \in {<<>>, NoText}
  ELSE d.pk = "loc" /\ d.s = s /\ d.e = en /\ d.fr = SubSeq(e.x, 1, en)
CharEntry(d, b) == d.pk = "int" /\ d.s = b
(* with the unreadable characters skipped, the parser sees the remaining tokens *)
FirstOK(e) ==
  LET lx == LexAll(e.x)
      r == Run(ConfOf(e), Start, lx.ts)
      wrong == r.c.m = "dead"                     \* there is a token that cannot follow
      tok == lx.ts[r.i]
      toks == SelectSeq(e.errs, LAMBDA d : d.pk # "int")
  IN /\ \/ lx.bads # <<>> /\ CharEntry(e.errs[1], lx.bads[1])
        \/ wrong /\ TokenEntry(e, e.errs[1], tok.s, tok.e) /\ (lx.bads # <<>> => tok.s < lx.bads[1])
     /\ wrong <=> toks # <<>>
     /\ wrong => TokenEntry(e, toks[1], tok.s, tok.e)
ErrorsOK(e, m) ==
  CASE m.out = "ok" -> e.errs = <<>>
    [] m.out = "static" -> TRUE
    [] OTHER -> /\ Len(e.errs) > 0 /\ e.exm
                /\ \A j \in 1..Len(e.errs) : EntryOK(e, e.errs[j])
FirstErrOK(e, m) == m.out = "syntax" /\ Len(e.errs) > 0 => FirstOK(e)

StrOK(e) == e.o = "ok" => e.st = StrOf(Rec(e.t))

Clauses(e) ==
  IF Prop = "C13" THEN {c \in {"string-form"} : ~StrOK(e)}
  ELSE LET m == Meaning(ConfOf(e), e.x) IN
    CASE Prop = "C01" -> {c \in {"acceptance", "yes-no-test"} :
                             ~(CASE c = "acceptance" -> AccOK(e, m) [] OTHER -> CanOK(e, m))}
      [] Prop = "C22" -> {c \in {"acceptance", "error-list", "first-error"} :
                             ~(CASE c = "acceptance" -> AccOK(e, m) [] c = "error-list" -> ErrorsOK(e, m)
                                 [] OTHER -> FirstErrOK(e, m))}
      [] OTHER -> {c \in {"acceptance", "tree"} :
                      ~(CASE c = "acceptance" -> AccOK(e, m)
                          [] OTHER -> (m.out = "ok" /\ e.o = "ok") => TreeOKFor(Prop, e, m))}

(* what the specification expected, for the report *)
Expect(e) == LET m == Meaning(ConfOf(e), e.x) IN
  [out |-> m.out, sem |-> m.sem, es |-> m.es, ee |-> m.ee,
   t |-> IF m.out = "ok" THEN Enc(Located(e, m.tree)) ELSE <<>>]

Init == sh \in 1..Shards /\ i = 0
Advance == i' = i + 1 /\ UNCHANGED sh
Report(b) == PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> Expect(Ev[Idx])]))
Take == /\ Idx <= N
        /\ LET b == Clauses(Ev[Idx]) IN IF b = {} THEN TRUE ELSE Report(b)
        /\ Advance
Next == Take
Spec == Init /\ [][Next]_vars

(* every record was taken: accepted + rejected = N, each shard ran to its end   *)
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
