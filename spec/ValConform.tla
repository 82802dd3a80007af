------------------------------ MODULE ValConform ------------------------------
(* Recorded validations against Validator (trace validation).                  *)
(* record: k    "v" one validator call | "f" the one-call validation             *)
(*  "v": t tree (encoded), S settings, qs query text or NoText, y yes/no check,   *)
(*       o "T"/"F"/"raise"/"other", rix/rfr raised node's place and fragment,    *)
(*       es/ws error and warning list entries [ty, s, e, fr, ms]                *)
(*  "f": x query, we, rt list form?, ver "ok"/"unknown", o "T"/"F"/"list"/        *)
(*       "ValueError"/"other", es the list, ps the parser's own error list       *)
EXTENDS Pda, Validator, Json, IOUtils, TLC

Ev == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N == Len(Ev)
Shards == 64
VARIABLES sh, i
Idx == sh + Shards * i

(* an entry designates an issue *)
Designates(q, d, y, ty) == /\ d.ty = ty /\ d.ms
                           /\ d.s = y.s /\ d.e = y.e
                           /\ \/ d.fr = Fragment(q, y.s, y.e)
                              \/ q = <<>> /\ d.fr \in {NoText, <<>>}
SameList(q, ds, is, ty) == Len(ds) = Len(is) /\ \A j \in 1..Len(is) : Designates(q, ds[j], is[j], ty)

VCollect(e) == LET is == Issues(e.S, Rec(e.t)) IN
  ~e.S.rf => /\ SameList(e.qs, e.es, Errors(is), "validation-error")
             /\ SameList(e.qs, e.ws, Warnings(is), "validation-warning")
VVerdict(e) == LET is == Issues(e.S, Rec(e.t)) IN e.o = (IF e.y THEN Verdict(e.S, is) ELSE Outcome(e.S, is))
VRaised(e) == LET is == Issues(e.S, Rec(e.t)) c == Counted(e.S, is) IN
  e.o = "raise" => /\ c # <<>>
                   /\ e.rix = c[1].ix
                   /\ e.rfr = Fragment(e.qs, c[1].s, c[1].e) \/ (e.qs = <<>> /\ e.rfr \in {NoText, <<>>})

S0(we) == [ai |-> <<>>, aq |-> <<>>, rf |-> FALSE, we |-> we]
OfType(ds, ty) == SelectSeq(ds, LAMBDA d : d.ty = ty)
FIssues(e) == LET m == Meaning(DefaultConf, e.x) IN IF m.out = "ok" THEN Issues(S0(e.we), m.tree) ELSE <<>>
FGood(e) == Meaning(DefaultConf, e.x).out = "ok" /\ Counted(S0(e.we), FIssues(e)) = <<>>
FVerdict(e) ==
  IF e.ver = "unknown" THEN e.o = "ValueError"
  ELSE IF e.rt THEN e.o = "list" /\ ((e.es = <<>>) <=> FGood(e))
  ELSE e.o = (IF FGood(e) THEN "T" ELSE "F")
FList(e) ==
  (e.rt /\ e.o = "list") =>
    LET m == Meaning(DefaultConf, e.x) IN
    CASE m.out = "ok" -> LET is == FIssues(e) IN
           /\ SameList(e.x, OfType(e.es, "validation-error"), Errors(is), "validation-error")
           /\ SameList(e.x, OfType(e.es, "validation-warning"), IF e.we THEN Warnings(is) ELSE <<>>, "validation-warning")
           /\ \A j \in 1..Len(e.es) : e.es[j].ty \in {"validation-error", "validation-warning"}
      [] m.out = "syntax" -> e.es = e.ps /\ \A j \in 1..Len(e.es) : e.es[j].ty = "syntax-error"
      [] OTHER -> \A j \in 1..Len(e.es) : e.es[j].ms /\ e.es[j].ty \notin {"syntax-error", "validation-error", "validation-warning"}

Holds(e, c) == CASE c = "issues" -> VCollect(e) [] c = "verdict" -> VVerdict(e) [] c = "raised" -> VRaised(e)
                 [] c = "answer" -> FVerdict(e) [] OTHER -> FList(e)
Names(e) == IF e.k = "f" THEN {"answer", "list"}
            ELSE CASE Prop = "C18" -> {"issues", "verdict"} [] OTHER -> {"verdict", "raised", "issues"}
Clauses(e) == {c \in Names(e) : ~Holds(e, c)}

Expect(e) == IF e.k = "f" THEN [good |-> FGood(e), is |-> FIssues(e)]
             ELSE LET is == Issues(e.S, Rec(e.t)) IN [good |-> Counted(e.S, is) = <<>>, is |-> is]

Init == sh \in 1..Shards /\ i = 0
Next == /\ Idx <= N
        /\ LET b == Clauses(Ev[Idx]) IN
           IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> Idx, bad |-> b, want |-> Expect(Ev[Idx])]))
        /\ i' = i + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_<<sh, i>>
TraceConsumed == TLCGet("distinct") = N + Shards
=============================================================================
