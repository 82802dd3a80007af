--------------------------------- MODULE Pda ---------------------------------
(* The FCS-QL parser and tree builder as a deterministic push-down automaton   *)
(* fed one token at a time.  A configuration is                               *)
(*   m    control mode                                                        *)
(*   fr   stack of open constructs (frames)                                   *)
(*   pd   scratch: parts of the condition / quantifier being read              *)
(*   sem  static-rule violations met so far (set of names)                    *)
(*   w    main query once WITHIN was read, then the finished tree             *)
(* A frame is [f, o, s, alts, seq, nots]:                                     *)
(*   f "Q": o "(" or "" (top); alts finished '|' operands, seq items of the    *)
(*          current sequence                                                  *)
(*   f "E": o "[" or "("; alts finished '|' operands, seq operands of the      *)
(*          current '&' run, nots offsets of '!' waiting for their operand     *)
(* The mode "dead" is entered by the first token that cannot follow.          *)
EXTENDS Tree, Lexer, Decode, Norm
LOCAL INSTANCE SequencesExt

(* parser settings: default layer, default operator, normalisation form        *)
DefaultConf == [di |-> K_text, op |-> "Eq", nf |-> "NFC"]

NoPd == [q |-> NoText, id |-> NoText, op |-> "", re |-> NoText, s |-> -1, e |-> -1, n1 |-> One]
Frame(f, o, s) == [f |-> f, o |-> o, s |-> s, alts |-> <<>>, seq |-> <<>>, nots |-> <<>>]
Start == [m |-> "item", fr |-> <<Frame("Q", "", -1)>>, pd |-> NoPd, sem |-> {}, w |-> NullNode]

Top(c) == c.fr[Len(c.fr)]
SetTop(c, f) == [c EXCEPT !.fr[Len(c.fr)] = f]
Pop(c) == [c EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
Push(c, f) == [c EXCEPT !.fr = Append(@, f)]
Mode(c, m) == [c EXCEPT !.m = m]
Dead(c) == [c EXCEPT !.m = "dead"]
AddSem(c, cond, name) == IF cond THEN [c EXCEPT !.sem = @ \cup {name}] ELSE c

NameTypes == {"IDENT", "WITHIN", "SCOPE", "FLAGS"}

(* ------------------------------- query level ----------------------------- *)
AddItem(c, item) == SetTop(c, [Top(c) EXCEPT !.seq = Append(@, item)])
LastItem(c) == Top(c).seq[Len(Top(c).seq)]
SetLast(c, item) == SetTop(c, [Top(c) EXCEPT !.seq[Len(Top(c).seq)] = item])

(* operand of '|': a lone segment stands for itself, anything else (also a     *)
(* lone group) is a sequence                                                  *)
Operand(items) == IF Len(items) = 1 /\ items[1].t = "QuerySegment" THEN items[1]
                  ELSE Node("QuerySequence", items[1].s, items[Len(items)].e, items)
EndAlt(f) == [f EXCEPT !.alts = Append(@, Operand(f.seq)), !.seq = <<>>]
(* the whole main query: a lone item stands for itself *)
MainQuery(f) == IF f.alts = <<>> /\ Len(f.seq) = 1 THEN f.seq[1]
                ELSE MkNary("QueryDisjunction", EndAlt(f).alts)
(* content of a group: always a sequence or an alternative *)
GroupContent(f) == IF f.alts = <<>> THEN Node("QuerySequence", f.seq[1].s, f.seq[Len(f.seq)].e, f.seq)
                   ELSE MkNary("QueryDisjunction", EndAlt(f).alts)

Segment(x, s, e) == Node("QuerySegment", s, e, <<x>>)

(* literal: decode + normalise; returns [ok, re] *)
Literal(C, tx) == LET d == DecodeLiteral(tx) IN [ok |-> d.ok, re |-> IF d.ok THEN Normalize(C.nf, d.acc) ELSE NoText]

ImplicitItem(C, c, t) ==
  LET l == Literal(C, t.tx)
      x == MkExpr(NoText, C.di, C.op, l.re, 0, t.s, t.e)
  IN AddSem(Mode(AddItem(c, Segment(x, t.s, t.e)), "re"), ~l.ok, "codepoint")

StartItem(C, c, t) ==
  CASE t.ty = "REGEXP" -> ImplicitItem(C, c, t)
    [] t.ty = "[" -> Mode(Push(c, Frame("E", "[", t.s)), "seg0")
    [] t.ty = "(" -> Mode(Push(c, Frame("Q", "(", t.s)), "item")
    [] OTHER -> Dead(c)

CloseGroup(c, t) ==
  LET f == Top(c) IN
  Mode(AddItem(Pop(c), Node("QueryGroup", f.s, t.e, <<GroupContent(f)>>)), "postQ")

AfterItem(C, c, t) ==
  CASE t.ty \in {"REGEXP", "[", "("} -> StartItem(C, c, t)
    [] t.ty = "|" -> Mode(SetTop(c, EndAlt(Top(c))), "item")
    [] t.ty = ")" /\ Top(c).o = "(" -> CloseGroup(c, t)
    [] t.ty = "WITHIN" /\ Len(c.fr) = 1 -> Mode([c EXCEPT !.w = MainQuery(Top(c))], "within")
    [] t.ty = "EOF" /\ Len(c.fr) = 1 -> Mode([c EXCEPT !.w = MainQuery(Top(c))], "acc")
    [] OTHER -> Dead(c)

Bound(c, mn, mx, e) ==
  Mode(SetLast(AddSem(c, mx # Unbounded /\ NumLess(mx, mn), "range"),
               [LastItem(c) EXCEPT !.mn = mn, !.mx = mx, !.e = e]), "post")

AfterItemQ(C, c, t) ==
  CASE t.ty = "+" -> Bound(c, One, Unbounded, t.e)
    [] t.ty = "*" -> Bound(c, <<0>>, Unbounded, t.e)
    [] t.ty = "?" -> Bound(c, <<0>>, One, t.e)
    [] t.ty = "{" -> Mode(c, "q1")
    [] OTHER -> AfterItem(C, c, t)

Flagged(c, t, x) == AddSem([x EXCEPT !.sem = c.sem], FlagConflict(FlagBits(t.tx)), "flags")

AddFlags(c, t) ==    \* flags of a bare quoted pattern
  LET it == LastItem(c) x == it.k[1] IN
  Flagged(c, t, Mode(SetLast(c, [it EXCEPT !.k = <<[x EXCEPT !.fl = FlagBits(t.tx), !.e = t.e]>>, !.e = t.e]), "postQ"))

(* ------------------------------ expressions ------------------------------ *)
RECURSIVE WrapNots(_, _)
WrapNots(x, nots) == IF nots = <<>> THEN x
                     ELSE WrapNots(Node("Not", nots[Len(nots)], x.e, <<x>>), SubSeq(nots, 1, Len(nots) - 1))
AddOperand(c, x) ==
  LET f == Top(c) IN
  Mode(SetTop(c, [f EXCEPT !.seq = Append(@, WrapNots(x, f.nots)), !.nots = <<>>]), "ePost")
EndAnd(f) == [f EXCEPT !.alts = Append(@, MkNary("And", f.seq)), !.seq = <<>>]
ExprOf(f) == MkNary("Or", EndAnd(f).alts)

StartOperand(c, t) ==
  CASE t.ty = "!" -> Mode(SetTop(c, [Top(c) EXCEPT !.nots = Append(@, t.s)]), "e")
    [] t.ty = "(" -> Mode(Push(c, Frame("E", "(", t.s)), "e")
    [] t.ty \in NameTypes -> Mode([c EXCEPT !.pd = [NoPd EXCEPT !.id = t.tx, !.s = t.s]], "attr1")
    [] OTHER -> Dead(c)

Op(c, t) == Mode([c EXCEPT !.pd.op = IF t.ty = "=" THEN "Eq" ELSE "Ne"], "op")

PdExpr(c, fl, e) == MkExpr(c.pd.q, c.pd.id, c.pd.op, c.pd.re, fl, c.pd.s, e)

AfterOperand(c, t) ==
  LET f == Top(c) IN
  CASE t.ty = "&" -> Mode(c, "e")
    [] t.ty = "|" -> Mode(SetTop(c, EndAnd(f)), "e")
    [] t.ty = ")" /\ f.o = "(" -> AddOperand(Pop(c), Node("Group", f.s, t.e, <<ExprOf(f)>>))
    [] t.ty = "]" /\ f.o = "[" -> Mode(AddItem(Pop(c), Segment(ExprOf(f), f.s, t.e)), "postQ")
    [] OTHER -> Dead(c)

(* --------------------------------- step ---------------------------------- *)
Step(C, c, t) ==
  CASE c.m = "item"   -> StartItem(C, c, t)
    [] c.m = "re"     -> IF t.ty = "/" THEN Mode(c, "reflag") ELSE AfterItemQ(C, c, t)
    [] c.m = "reflag" -> IF t.ty = "FLAGS" THEN AddFlags(c, t) ELSE Dead(c)
    [] c.m = "postQ"  -> AfterItemQ(C, c, t)
    [] c.m = "post"   -> AfterItem(C, c, t)
    \* quantifier ranges
    [] c.m = "q1"     -> IF t.ty = "INT" THEN Mode([c EXCEPT !.pd.n1 = Digits(t.tx)], "q2")
                         ELSE IF t.ty = "," THEN Mode([c EXCEPT !.pd.n1 = <<0>>], "q3") ELSE Dead(c)
    [] c.m = "q2"     -> IF t.ty = "}" THEN Bound(c, c.pd.n1, c.pd.n1, t.e)
                         ELSE IF t.ty = "," THEN Mode(c, "q4") ELSE Dead(c)
    [] c.m = "q3"     -> IF t.ty = "INT" THEN Mode([c EXCEPT !.pd.re = Digits(t.tx)], "q5") ELSE Dead(c)
    [] c.m = "q4"     -> IF t.ty = "INT" THEN Mode([c EXCEPT !.pd.re = Digits(t.tx)], "q5")
                         ELSE IF t.ty = "}" THEN Bound(c, c.pd.n1, Unbounded, t.e) ELSE Dead(c)
    [] c.m = "q5"     -> IF t.ty = "}" THEN Bound(c, c.pd.n1, c.pd.re, t.e) ELSE Dead(c)
    \* segments
    [] c.m = "seg0"   -> IF t.ty = "]"
                         THEN LET f == Top(c) IN
                              Mode(AddItem(Pop(c), Segment(Node("Wildcard", f.s, t.e, <<>>), f.s, t.e)), "postQ")
                         ELSE StartOperand(c, t)
    [] c.m = "e"      -> StartOperand(c, t)
    [] c.m = "attr1"  -> IF t.ty = ":" THEN Mode([c EXCEPT !.pd.q = c.pd.id], "attr2")
                         ELSE IF t.ty \in {"=", "!="} THEN Op(c, t) ELSE Dead(c)
    [] c.m = "attr2"  -> IF t.ty \in NameTypes THEN Mode([c EXCEPT !.pd.id = t.tx], "attr3") ELSE Dead(c)
    [] c.m = "attr3"  -> IF t.ty \in {"=", "!="} THEN Op(c, t) ELSE Dead(c)
    [] c.m = "op"     -> IF t.ty = "REGEXP"
                         THEN LET l == Literal(C, t.tx) IN
                              AddSem(Mode([c EXCEPT !.pd.re = l.re, !.pd.e = t.e], "ere"), ~l.ok, "codepoint")
                         ELSE Dead(c)
    [] c.m = "ere"    -> IF t.ty = "/" THEN Mode(c, "ereflag")
                         ELSE AfterOperand(AddOperand(c, PdExpr(c, 0, c.pd.e)), t)
    [] c.m = "ereflag"-> IF t.ty = "FLAGS"
                         THEN Flagged(c, t, AddOperand(c, PdExpr(c, FlagBits(t.tx), t.e)))
                         ELSE Dead(c)
    [] c.m = "ePost"  -> AfterOperand(c, t)
    \* end
    [] c.m = "within" -> IF t.ty = "SCOPE"
                         THEN Mode([c EXCEPT !.w = Node("QueryWithWithin", @.s, t.e,
                                                        <<@, MkScope(ScopeOf(t.tx), t.s, t.e)>>)], "eof")
                         ELSE Dead(c)
    [] c.m = "eof"    -> IF t.ty = "EOF" THEN Mode(c, "acc") ELSE Dead(c)
    [] OTHER          -> Dead(c)

(* ------------------------- whole strings --------------------------------- *)
(* bad >= 0: stop before the unreadable character                             *)
Run(C, c, ts) ==   \* from configuration c; [c, i]: i = index of the token that killed it, or Len+1
  FoldLeft(LAMBDA r, t : IF r.c.m = "dead" THEN r
                         ELSE LET d == Step(C, r.c, t) IN [c |-> d, i |-> IF d.m = "dead" THEN r.i ELSE r.i + 1],
           [c |-> c, i |-> 1], ts)

(* The meaning of a query string:                                            *)
(*  out "ok" | "syntax" | "static";  tree (when ok);                          *)
(*  es, ee: span of the first wrong token (ee = -1: unreadable character)      *)
Meaning(C, inp) ==
  LET lx == Lex(inp)
      r == Run(C, Start, lx.ts)
      R(out, tree, es, ee) == [out |-> out, tree |-> tree, es |-> es, ee |-> ee, sem |-> r.c.sem]
  IN IF r.c.m = "dead" THEN R("syntax", NullNode, lx.ts[r.i].s, lx.ts[r.i].e)
     ELSE IF lx.bad >= 0 THEN R("syntax", NullNode, lx.bad, -1)
     ELSE IF r.c.sem # {} THEN R("static", NullNode, -1, -1)
     ELSE R("ok", r.c.w, -1, -1)
=============================================================================
