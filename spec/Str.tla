--------------------------------- MODULE Str ---------------------------------
(* The string form of a tree, as code points.                                 *)
EXTENDS Tree
LOCAL INSTANCE SequencesExt

N_QuerySegment     == <<81,117,101,114,121,83,101,103,109,101,110,116>>
N_QueryGroup       == <<81,117,101,114,121,71,114,111,117,112>>
N_QuerySequence    == <<81,117,101,114,121,83,101,113,117,101,110,99,101>>
N_QueryDisjunction == <<81,117,101,114,121,68,105,115,106,117,110,99,116,105,111,110>>
N_QueryWithWithin  == <<81,117,101,114,121,87,105,116,104,87,105,116,104,105,110>>
N_Expression       == <<69,120,112,114,101,115,115,105,111,110>>
N_Wildcard         == <<87,105,108,100,99,97,114,100>>
N_Group            == <<71,114,111,117,112>>
N_Or               == <<79,114>>
N_And              == <<65,110,100>>
N_Not              == <<78,111,116>>
N_SimpleWithin     == <<83,105,109,112,108,101,87,105,116,104,105,110>>
NameOf(t) == CASE t = "QuerySegment" -> N_QuerySegment [] t = "QueryGroup" -> N_QueryGroup
               [] t = "QuerySequence" -> N_QuerySequence [] t = "QueryDisjunction" -> N_QueryDisjunction
               [] t = "QueryWithWithin" -> N_QueryWithWithin [] t = "Expression" -> N_Expression
               [] t = "Wildcard" -> N_Wildcard [] t = "Group" -> N_Group [] t = "Or" -> N_Or
               [] t = "And" -> N_And [] t = "Not" -> N_Not [] t = "SimpleWithin" -> N_SimpleWithin
               [] OTHER -> <<63>>
ScopeName(sc) == CASE sc = "Sentence" -> <<83,101,110,116,101,110,99,101>>
                   [] sc = "Utterance" -> <<85,116,116,101,114,97,110,99,101>>
                   [] sc = "Paragraph" -> <<80,97,114,97,103,114,97,112,104>>
                   [] sc = "Turn" -> <<84,117,114,110>>
                   [] sc = "Text" -> <<84,101,120,116>>
                   [] sc = "Session" -> <<83,101,115,115,105,111,110>>
                   [] OTHER -> <<63>>
OpName(op) == IF op = "Eq" THEN <<69,113>> ELSE <<78,101>>

SP == <<32>>   LP == <<40>>   RP == <<41>>   DQT == <<34>>
P_min == <<64,109,105,110,61>>       \* @min=
P_max == <<64,109,97,120,61>>        \* @max=
DigitText(ds) == [j \in 1..Len(ds) |-> 48 + ds[j]]
NumText(ds) == IF ds = Unbounded THEN <<42>> ELSE DigitText(ds)
RECURSIVE NatDigits(_)
NatDigits(v) == IF v < 10 THEN <<v>> ELSE Append(NatDigits(v \div 10), v % 10)
NatText(v) == DigitText(NatDigits(v))

EscChar(ch) == CASE ch = 10 -> <<92,110>> [] ch = 13 -> <<92,114>> [] ch = 9 -> <<92,116>> [] OTHER -> <<ch>>
EscText(x) == IF \A j \in 1..Len(x) : x[j] \notin {9, 10, 13} THEN x ELSE FoldLeft(LAMBDA a, ch : a \o EscChar(ch), <<>>, x)

LocText(n) == IF n.s = -1 THEN <<>> ELSE <<64>> \o NatText(n.s) \o <<58>> \o NatText(n.e)
FlagText(f) == LET b(v, ch) == IF (f \div v) % 2 = 1 THEN <<ch>> ELSE <<>>
               IN IF f = 0 THEN <<>> ELSE <<47>> \o b(1, 105) \o b(2, 73) \o b(4, 108) \o b(8, 100)

RECURSIVE StrOf(_)
JoinKids(ks) == FoldLeft(LAMBDA a, x : a \o SP \o StrOf(x), <<>>, ks)
StrOf(n) ==
  LET body == CASE n.t = "Expression" ->
                     SP \o (IF n.q = NoText THEN <<>> ELSE n.q \o <<58>>) \o n.id \o SP \o OpName(n.op) \o SP
                        \o DQT \o EscText(n.re) \o DQT \o FlagText(n.fl)
                [] n.t = "SimpleWithin" -> SP \o ScopeName(n.sc)
                [] n.t \in {"QuerySegment", "QueryGroup"} ->
                     (IF n.mn = One THEN <<>> ELSE SP \o P_min \o NumText(n.mn))
                       \o (IF n.mx = One THEN <<>> ELSE SP \o P_max \o NumText(n.mx)) \o JoinKids(n.k)
                [] OTHER -> JoinKids(n.k)
  IN LP \o NameOf(n.t) \o body \o RP \o LocText(n)
=============================================================================
