-------------------------------- MODULE Toys --------------------------------
(***************************************************************************)
(* The toy language: its words (Lex), its grammar (ReadProgram), its       *)
(* spelling (ProgramText) and two meanings: evaluation of a tree at once   *)
(* (Ev, a recursive function) and by a machine with a stack of work, one   *)
(* small step at a time (Step).                                            *)
(*                                                                         *)
(* A program is a sequence of [d |-> "global", x, e] and                   *)
(* [d |-> "fn", x, ps, e].  Statements are expressions; every one leaves a *)
(* value, which is `any' where none is specified (loops, printing, an      *)
(* empty block, a conditional without the branch that is due).             *)
(***************************************************************************)
EXTENDS Text

(* ---- trees ---- *)
Num_(n)       == [t |-> "int", n |-> n]
\* an integer of more than nine digits or with zeros in front: its sign and digits
Wide_(neg, ds) == [t |-> "wide", neg |-> neg, ds |-> ds]
Bool_(b)      == [t |-> "bool", b |-> b]
Str_(q)       == [t |-> "str", s |-> q]
Arr_(es)      == [t |-> "arr", es |-> es]
Sym_(x)       == [t |-> "sym", x |-> x]
Bin_(o, l, r) == [t |-> "bin", o |-> o, l |-> l, r |-> r]
Call_(f, es)  == [t |-> "call", f |-> f, es |-> es]
LCall_(f, ps) == [t |-> "lcall", f |-> f, ps |-> ps]
Par_(e)       == [t |-> "par", e |-> e]
Put(x, e)    == [t |-> "set", x |-> x, e |-> e]
Show_(e)     == [t |-> "print", e |-> e]
If1(c, a)    == [t |-> "if", c |-> c, a |-> a, els |-> <<>>]
If2(c, a, b) == [t |-> "if", c |-> c, a |-> a, els |-> <<b>>]
While_(c, a) == [t |-> "while", c |-> c, a |-> a]
Block_(ss)   == [t |-> "block", ss |-> ss]
For_(x, a, b, body) == [t |-> "for", x |-> x, a |-> a, b |-> b, e |-> body]
Global_(x, e) == [d |-> "global", x |-> x, e |-> e]
Fn_(x, ps, e) == [d |-> "fn", x |-> x, ps |-> ps, e |-> e]

(* ---- words: [k |-> kind, v |-> value, a, z |-> where] ---- *)
Blank == {9, 10, 13, 32}
IdCh == Alpha \cup Digit \cup {95}
Twos == TS({"&&", "||", "<=", ">=", "==", "!="})
Tok(k, v, a, z) == [k |-> k, v |-> v, a |-> a, z |-> z]
RECURSIVE SkipBlank(_, _), WordEnd(_, _, _), LexStr(_, _, _), Lex(_, _), UnitsAt(_, _)
SkipBlank(q, i) == IF i <= Len(q) /\ q[i] \in Blank THEN SkipBlank(q, i + 1) ELSE i
WordEnd(q, i, S) == IF i <= Len(q) /\ q[i] \in S THEN WordEnd(q, i + 1, S) ELSE i
Escaped == 92 :> 92 @@ 47 :> 47 @@ 34 :> 34 @@ 98 :> 8 @@ 102 :> 12 @@ 110 :> 10 @@ 114 :> 13 @@ 116 :> 9
\* a run of \uXXXX
UnitsAt(q, i) == IF i + 5 <= Len(q) /\ q[i] = 92 /\ q[i + 1] = 117
                 THEN <<HexNum(SubSeq(q, i + 2, i + 5))>> \o UnitsAt(q, i + 6) ELSE <<>>
\* <<end, characters>>
LexStr(q, i, acc) == IF q[i] = 34 THEN <<i + 1, acc>>
                     ELSE IF q[i] # 92 THEN LexStr(q, i + 1, Append(acc, q[i]))
                     ELSE IF q[i + 1] = 117 THEN LET us == UnitsAt(q, i) IN LexStr(q, i + 6 * Len(us), acc \o FromUtf16(us))
                     ELSE LexStr(q, i + 2, Append(acc, Escaped[q[i + 1]]))
Lex(q, i0) ==
  LET i == SkipBlank(q, i0) IN
  IF i > Len(q) THEN <<>>
  ELSE IF q[i] \in Digit THEN LET z == WordEnd(q, i, Digit) IN <<IF z - i > 9 \/ (q[i] = 48 /\ z - i > 1) THEN Tok("wide", [x \in 1..z - i |-> q[i + x - 1] - 48], i, z) ELSE Tok("int", Decimal(SubSeq(q, i, z - 1)), i, z)>> \o Lex(q, z)
  ELSE IF q[i] \in IdCh THEN LET z == WordEnd(q, i, IdCh) IN <<Tok("id", SubSeq(q, i, z - 1), i, z)>> \o Lex(q, z)
  ELSE IF q[i] = 34 THEN LET r == LexStr(q, i + 1, <<>>) IN <<Tok("str", r[2], i, r[1])>> \o Lex(q, r[1])
  ELSE IF i < Len(q) /\ SubSeq(q, i, i + 1) \in Twos THEN <<Tok("sym", SubSeq(q, i, i + 1), i, i + 2)>> \o Lex(q, i + 2)
  ELSE <<Tok("sym", <<q[i]>>, i, i + 1)>> \o Lex(q, i + 1)

(* ---- grammar ---- *)
No == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Yes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
IsSym(ts, i, w) == i <= Len(ts) /\ ts[i].k = "sym" /\ ts[i].v = w
IsWord(ts, i, w) == i <= Len(ts) /\ ts[i].k = "id" /\ ts[i].v = w
IsId(ts, i) == i <= Len(ts) /\ ts[i].k = "id"
LP == <<40>>
RP == <<41>>
LB == <<91>>
RB == <<93>>
LC == <<123>>
RC == <<125>>
CM == <<44>>
SC == <<59>>
EQ == <<61>>
\* operators by level; a higher level binds stronger; all associate to the left
Levels == << TS({"&&", "||", "<=", ">=", "<", ">", "==", "!="}), TS({"+", "-"}), TS({"%"}), TS({"*", "/"}) >>
Ops == UNION { Levels[x] : x \in 1..4 }
LevelOf == [o \in Ops |-> CHOOSE x \in 1..4 : o \in Levels[x]]

RECURSIVE RPrimary(_, _), RLevel(_, _, _), RChain(_, _, _, _), RList(_, _, _), RLabels(_, _, _)
RExpr(ts, i) == RLevel(ts, i, 1)
RLevel(ts, i, lv) == IF lv > 4 THEN RPrimary(ts, i)
                     ELSE LET r == RLevel(ts, i, lv + 1) IN IF r.ok THEN RChain(ts, r.i, lv, r.v) ELSE No
RChain(ts, i, lv, left) == IF i <= Len(ts) /\ ts[i].k = "sym" /\ ts[i].v \in Levels[lv]
                           THEN LET r == RLevel(ts, i + 1, lv + 1) IN IF r.ok THEN RChain(ts, r.i, lv, Bin_(ts[i].v, left, r.v)) ELSE No
                           ELSE Yes(i, left)
\* expressions separated by commas
RList(ts, i, acc) == LET r == RExpr(ts, i) IN
                     IF ~ r.ok THEN Yes(i, acc)
                     ELSE IF IsSym(ts, r.i, CM) THEN RList(ts, r.i + 1, Append(acc, r.v)) ELSE Yes(r.i, Append(acc, r.v))
RLabels(ts, i, acc) == IF ~ (IsId(ts, i) /\ IsSym(ts, i + 1, EQ)) THEN Yes(i, acc)
                       ELSE LET r == RExpr(ts, i + 2)
                                p == [x |-> ts[i].v, e |-> r.v] IN
                            IF ~ r.ok THEN No
                            ELSE IF IsSym(ts, r.i, CM) THEN RLabels(ts, r.i + 1, Append(acc, p)) ELSE Yes(r.i, Append(acc, p))
RPrimary(ts, i) ==
  IF i > Len(ts) THEN No
  ELSE IF IsSym(ts, i, LP) THEN LET r == RExpr(ts, i + 1) IN IF r.ok /\ IsSym(ts, r.i, RP) THEN Yes(r.i + 1, Par_(r.v)) ELSE No
  ELSE IF ts[i].k = "int" THEN Yes(i + 1, Num_(ts[i].v))
  ELSE IF IsSym(ts, i, <<45>>) /\ i < Len(ts) /\ ts[i + 1].k = "int" /\ ts[i + 1].a = ts[i].z THEN Yes(i + 2, Num_(- ts[i + 1].v))
  ELSE IF ts[i].k = "wide" THEN Yes(i + 1, Wide_(FALSE, ts[i].v))
  ELSE IF IsSym(ts, i, <<45>>) /\ i < Len(ts) /\ ts[i + 1].k = "wide" /\ ts[i + 1].a = ts[i].z THEN Yes(i + 2, Wide_(TRUE, ts[i + 1].v))
  ELSE IF ts[i].k = "str" THEN Yes(i + 1, Str_(ts[i].v))
  ELSE IF IsSym(ts, i, LB) THEN LET r == RList(ts, i + 1, <<>>) IN IF r.ok /\ IsSym(ts, r.i, RB) THEN Yes(r.i + 1, Arr_(r.v)) ELSE No
  ELSE IF ts[i].k # "id" THEN No
  ELSE IF IsSym(ts, i + 1, LP) THEN LET r == RList(ts, i + 2, <<>>) IN IF r.ok /\ IsSym(ts, r.i, RP) THEN Yes(r.i + 1, Call_(ts[i].v, r.v)) ELSE No
  ELSE IF IsSym(ts, i + 1, LB) THEN LET r == RLabels(ts, i + 2, <<>>) IN IF r.ok /\ Len(r.v) > 0 /\ IsSym(ts, r.i, RB) THEN Yes(r.i + 1, LCall_(ts[i].v, r.v)) ELSE No
  ELSE IF ts[i].v = T_("true") THEN Yes(i + 1, Bool_(TRUE))
  ELSE IF ts[i].v = T_("false") THEN Yes(i + 1, Bool_(FALSE))
  ELSE Yes(i + 1, Sym_(ts[i].v))

RECURSIVE RLine(_, _), RLines(_, _, _)
RLine(ts, i) ==
  IF IsWord(ts, i, T_("println")) /\ IsSym(ts, i + 1, LP)
  THEN LET r == RExpr(ts, i + 2) IN IF r.ok /\ IsSym(ts, r.i, RP) /\ IsSym(ts, r.i + 1, SC) THEN Yes(r.i + 2, Show_(r.v)) ELSE No
  ELSE IF IsWord(ts, i, T_("while")) /\ IsSym(ts, i + 1, LP)
  THEN LET c == RExpr(ts, i + 2)
           b == RLine(ts, c.i + 1) IN IF c.ok /\ IsSym(ts, c.i, RP) /\ b.ok THEN Yes(b.i, While_(c.v, b.v)) ELSE No
  ELSE IF IsWord(ts, i, T_("if")) /\ IsSym(ts, i + 1, LP)
  THEN LET c == RExpr(ts, i + 2)
           a == RLine(ts, c.i + 1)
           b == RLine(ts, a.i + 1) IN
       IF ~ (c.ok /\ IsSym(ts, c.i, RP) /\ a.ok) THEN No
       ELSE IF ~ IsWord(ts, a.i, T_("else")) THEN Yes(a.i, If1(c.v, a.v))
       ELSE IF b.ok THEN Yes(b.i, If2(c.v, a.v, b.v)) ELSE No
  ELSE IF IsWord(ts, i, T_("for")) /\ IsSym(ts, i + 1, LP)
  THEN LET a == RExpr(ts, i + 4)
           b == RExpr(ts, a.i + 1)
           e == RLine(ts, b.i + 1) IN
       IF IsId(ts, i + 2) /\ IsWord(ts, i + 3, T_("in")) /\ a.ok /\ IsWord(ts, a.i, T_("to")) /\ b.ok /\ IsSym(ts, b.i, RP) /\ e.ok
       THEN Yes(e.i, For_(ts[i + 2].v, a.v, b.v, e.v)) ELSE No
  ELSE IF IsSym(ts, i, LC) THEN LET r == RLines(ts, i + 1, <<>>) IN IF IsSym(ts, r.i, RC) THEN Yes(r.i + 1, Block_(r.v)) ELSE No
  ELSE IF IsId(ts, i) /\ IsSym(ts, i + 1, EQ)
  THEN LET r == RExpr(ts, i + 2) IN IF r.ok /\ IsSym(ts, r.i, SC) THEN Yes(r.i + 1, Put(ts[i].v, r.v)) ELSE No
  ELSE LET r == RExpr(ts, i) IN IF r.ok /\ IsSym(ts, r.i, SC) THEN Yes(r.i + 1, r.v) ELSE No
RLines(ts, i, acc) == LET r == RLine(ts, i) IN IF r.ok THEN RLines(ts, r.i, Append(acc, r.v)) ELSE Yes(i, acc)

RECURSIVE RIds(_, _, _), RTop(_, _, _)
RIds(ts, i, acc) == IF ~ IsId(ts, i) THEN Yes(i, acc)
                    ELSE IF IsSym(ts, i + 1, CM) THEN RIds(ts, i + 2, Append(acc, ts[i].v)) ELSE Yes(i + 1, Append(acc, ts[i].v))
RTop(ts, i, acc) ==
  IF i > Len(ts) THEN Yes(i, acc)
  ELSE IF IsWord(ts, i, T_("global"))
  THEN LET r == RExpr(ts, i + 3) IN
       IF IsId(ts, i + 1) /\ IsSym(ts, i + 2, EQ) /\ r.ok /\ IsSym(ts, r.i, SC) THEN RTop(ts, r.i + 1, Append(acc, Global_(ts[i + 1].v, r.v))) ELSE No
  ELSE IF IsWord(ts, i, T_("fn"))
  THEN LET p == RIds(ts, i + 3, <<>>)
           r == RLine(ts, p.i + 1) IN
       IF IsId(ts, i + 1) /\ IsSym(ts, i + 2, LP) /\ IsSym(ts, p.i, RP) /\ IsSym(ts, p.i + 1, LC) /\ r.ok
       THEN RTop(ts, r.i, Append(acc, Fn_(ts[i + 1].v, p.v, r.v))) ELSE No
  ELSE No
ReadProgram(q) == RTop(Lex(q, 1), 1, <<>>)

WideText(e) == (IF e.neg THEN <<45>> ELSE <<>>) \o [x \in 1..Len(e.ds) |-> e.ds[x] + 48]
(* ---- spelling: a sequence of words, then joined ---- *)
RECURSIVE ExprW(_), LineW(_)
ListW(ws) == FlatWith(ws, <<CM>>)
ExprW(e) ==
  CASE e.t = "int" -> IF e.n < 0 THEN <<<<45>> \o DecText(- e.n)>> ELSE <<DecText(e.n)>>
    [] e.t = "wide" -> <<WideText(e)>>
    [] e.t = "bool" -> <<IF e.b THEN T_("true") ELSE T_("false")>>
    [] e.t = "str" -> <<<<34>> \o e.s \o <<34>>>>
    [] e.t = "arr" -> <<LB>> \o ListW([k \in 1..Len(e.es) |-> ExprW(e.es[k])]) \o <<RB>>
    [] e.t = "sym" -> <<e.x>>
    [] e.t = "bin" -> ExprW(e.l) \o <<e.o>> \o ExprW(e.r)
    [] e.t = "call" -> <<e.f, LP>> \o ListW([k \in 1..Len(e.es) |-> ExprW(e.es[k])]) \o <<RP>>
    [] e.t = "lcall" -> <<e.f, LB>> \o ListW([k \in 1..Len(e.ps) |-> <<e.ps[k].x, EQ>> \o ExprW(e.ps[k].e)]) \o <<RB>>
    [] e.t = "par" -> <<LP>> \o ExprW(e.e) \o <<RP>>
LineW(e) ==
  CASE e.t = "print" -> <<T_("println"), LP>> \o ExprW(e.e) \o <<RP, SC>>
    [] e.t = "set" -> <<e.x, EQ>> \o ExprW(e.e) \o <<SC>>
    [] e.t = "if" -> <<T_("if"), LP>> \o ExprW(e.c) \o <<RP>> \o LineW(e.a) \o (IF Len(e.els) > 0 THEN <<T_("else")>> \o LineW(e.els[1]) ELSE <<>>)
    [] e.t = "while" -> <<T_("while"), LP>> \o ExprW(e.c) \o <<RP>> \o LineW(e.a)
    [] e.t = "for" -> <<T_("for"), LP, e.x, T_("in")>> \o ExprW(e.a) \o <<T_("to")>> \o ExprW(e.b) \o <<RP>> \o LineW(e.e)
    [] e.t = "block" -> <<LC>> \o Flat([k \in 1..Len(e.ss) |-> LineW(e.ss[k])]) \o <<RC>>
    [] OTHER -> ExprW(e) \o <<SC>>
ProgramW(p) == Flat([k \in 1..Len(p) |-> IF p[k].d = "global" THEN <<T_("global"), p[k].x, EQ>> \o ExprW(p[k].e) \o <<SC>>
                                          ELSE <<T_("fn"), p[k].x, LP>> \o ListW([y \in 1..Len(p[k].ps) |-> <<p[k].ps[y]>>]) \o <<RP>> \o LineW(p[k].e)])
\* gap: between any two words; dense: only where they would run together
RECURSIVE Join(_, _)
Join(ws, gap) == IF Len(ws) = 0 THEN <<>>
                 ELSE IF Len(ws) = 1 THEN ws[1]
                 ELSE ws[1] \o (IF gap # <<>> THEN gap ELSE IF ws[1][Len(ws[1])] \in IdCh /\ ws[2][1] \in IdCh THEN <<32>> ELSE <<>>) \o Join(Tail(ws), gap)
Gaps == << <<>>, <<32>>, <<10, 9, 32>> >>
ProgramText(p, gap) == Join(ProgramW(p), gap)

(* ---- meaning ---- *)
Vague == [t |-> "any"]
Err == [t |-> "err"]
DivT(a, b) == LET m == (IF a < 0 THEN - a ELSE a) \div (IF b < 0 THEN - b ELSE b) IN IF (a < 0) # (b < 0) THEN - m ELSE m
RemT(a, b) == a - b * DivT(a, b)
(* integers of any size: sign and digits, the last first *)
RECURSIVE DigitsLow(_), Bare(_), AddD(_, _, _), SubD(_, _, _), LessD(_, _), TimesD(_, _, _), MulD(_, _), DivD(_, _, _, _)
DigitsLow(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o DigitsLow(n \div 10)
Bare(q) == IF Len(q) > 0 /\ q[Len(q)] = 0 THEN Bare(SubSeq(q, 1, Len(q) - 1)) ELSE q
LowD(q, x) == IF x <= Len(q) THEN q[x] ELSE 0
Longer(p, q) == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
AddD(p, q, c) == IF Len(p) = 0 /\ Len(q) = 0 THEN IF c = 0 THEN <<>> ELSE <<c>>
                 ELSE LET n == LowD(p, 1) + LowD(q, 1) + c IN <<n % 10>> \o AddD(SubSeq(p, 2, Len(p)), SubSeq(q, 2, Len(q)), n \div 10)
SubD(p, q, c) == IF Len(p) = 0 THEN <<>>
                 ELSE LET n == LowD(p, 1) - LowD(q, 1) - c IN <<(n + 10) % 10>> \o SubD(SubSeq(p, 2, Len(p)), SubSeq(q, 2, Len(q)), IF n < 0 THEN 1 ELSE 0)
\* p < q, without leading zeros
LessD(p, q) == IF Len(p) # Len(q) THEN Len(p) < Len(q)
               ELSE IF Len(p) = 0 THEN FALSE
               ELSE IF p[Len(p)] # q[Len(q)] THEN p[Len(p)] < q[Len(q)] ELSE LessD(SubSeq(p, 1, Len(p) - 1), SubSeq(q, 1, Len(q) - 1))
TimesD(p, d, c) == IF Len(p) = 0 THEN IF c = 0 THEN <<>> ELSE <<c>> ELSE LET n == p[1] * d + c IN <<n % 10>> \o TimesD(Tail(p), d, n \div 10)
MulD(p, q) == IF Len(q) = 0 THEN <<>> ELSE AddD(TimesD(p, q[1], 0), <<0>> \o MulD(p, Tail(q)), 0)
\* long division, digit by digit from the first: the quotient
DivD(p, q, k, rest) ==
  IF k = 0 THEN <<>>
  ELSE LET m == Bare(<<p[k]>> \o rest)
           d == CHOOSE x \in 0..9 : ~ LessD(m, Bare(TimesD(q, x, 0))) /\ LessD(m, Bare(TimesD(q, x + 1, 0)))
       IN Append(DivD(p, q, k - 1, Bare(SubD(m, TimesD(q, d, 0), 0))), d)
Wd(neg, m) == [neg |-> neg /\ Bare(m) # <<>>, m |-> Bare(m)]
WideOf(v) == IF v.t = "int" THEN Wd(v.n < 0, DigitsLow(IF v.n < 0 THEN - v.n ELSE v.n)) ELSE Wd(v.neg, [x \in 1..Len(v.ds) |-> v.ds[Len(v.ds) + 1 - x]])
SumW(p, q) == IF p.neg = q.neg THEN Wd(p.neg, AddD(p.m, q.m, 0))
              ELSE IF LessD(p.m, q.m) THEN Wd(q.neg, SubD(q.m, p.m, 0)) ELSE Wd(p.neg, SubD(p.m, q.m, 0))
LessW(p, q) == IF p.neg # q.neg THEN p.neg ELSE IF p.neg THEN LessD(q.m, p.m) ELSE LessD(p.m, q.m)
QuoW(p, q) == Wd(p.neg # q.neg, DivD(p.m, q.m, Len(p.m), <<>>))
NegW(p) == Wd(~ p.neg, p.m)
ProW(p, q) == Wd(p.neg # q.neg, MulD(p.m, q.m))
\* 2^63
Edge == <<8, 0, 8, 5, 7, 7, 4, 5, 8, 6, 3, 0, 2, 7, 3, 3, 2, 2, 9>>
Fits(p) == LessD(p.m, Edge) \/ (p.neg /\ p.m = Edge)
Back(p) == IF ~ Fits(p) THEN Err
           ELSE IF Len(p.m) > 9 THEN Wide_(p.neg, [x \in 1..Len(p.m) |-> p.m[Len(p.m) + 1 - x]])
           ELSE LET n == Decimal([x \in 1..Len(p.m) |-> p.m[Len(p.m) + 1 - x] + 48]) IN Num_(IF Len(p.m) = 0 THEN 0 ELSE IF p.neg THEN - n ELSE n)
ApplyW(o, p, q) ==
  CASE o = T_("+") -> Back(SumW(p, q))
    [] o = T_("-") -> Back(SumW(p, NegW(q)))
    [] o = T_("*") -> Back(ProW(p, q))
    [] o = T_("/") -> IF q.m = <<>> THEN Err ELSE Back(QuoW(p, q))
    [] o = T_("%") -> IF q.m = <<>> THEN Err ELSE IF ~ Fits(QuoW(p, q)) THEN Err ELSE Back(SumW(p, NegW(ProW(q, QuoW(p, q)))))
    [] o = T_("<") -> Bool_(LessW(p, q))
    [] o = T_("<=") -> Bool_(~ LessW(q, p))
    [] o = T_(">") -> Bool_(LessW(q, p))
    [] o = T_(">=") -> Bool_(~ LessW(p, q))
    [] o = T_("==") -> Bool_(p = q)
    [] o = T_("!=") -> Bool_(p # q)
Large(n) == n > 9999 \/ n < -9999
Apply(o, l, r) ==
  IF o \in TS({"&&", "||"})
  THEN IF l.t # "bool" \/ r.t # "bool" THEN Err ELSE IF o = T_("&&") THEN Bool_(l.b /\ r.b) ELSE Bool_(l.b \/ r.b)
  ELSE IF l.t \notin {"int", "wide"} \/ r.t \notin {"int", "wide"} THEN Err
  ELSE IF l.t = "wide" \/ r.t = "wide" \/ (o \in TS({"+", "-", "*"}) /\ (Large(l.n) \/ Large(r.n))) THEN ApplyW(o, WideOf(l), WideOf(r))
  ELSE CASE o = T_("+") -> Num_(l.n + r.n)
         [] o = T_("-") -> Num_(l.n - r.n)
         [] o = T_("*") -> Num_(l.n * r.n)
         [] o = T_("/") -> IF r.n = 0 THEN Err ELSE Num_(DivT(l.n, r.n))
         [] o = T_("%") -> IF r.n = 0 THEN Err ELSE Num_(RemT(l.n, r.n))
         [] o = T_("<") -> Bool_(l.n < r.n)
         [] o = T_("<=") -> Bool_(l.n <= r.n)
         [] o = T_(">") -> Bool_(l.n > r.n)
         [] o = T_(">=") -> Bool_(l.n >= r.n)
         [] o = T_("==") -> Bool_(l.n = r.n)
         [] o = T_("!=") -> Bool_(l.n # r.n)
RECURSIVE ValueText(_)
ValueText(v) == CASE v.t = "wide" -> WideText(v)
                  [] v.t = "int" -> IF v.n < 0 THEN <<45>> \o DecText(- v.n) ELSE DecText(v.n)
                  [] v.t = "bool" -> IF v.b THEN T_("true") ELSE T_("false")
                  [] v.t = "str" -> v.s
                  [] v.t = "arr" -> LB \o FlatWith([k \in 1..Len(v.es) |-> ValueText(v.es[k])], CM) \o RB
RECURSIVE HasAny(_)
HasAny(v) == v.t = "any" \/ (v.t = "arr" /\ \E k \in 1..Len(v.es) : HasAny(v.es[k]))

\* environments: frames, the innermost first
NoFrame == [x \in {} |-> Vague]
RECURSIVE Holder(_, _, _)
\* the number of the innermost frame with x; 0 if there is none
Holder(env, x, k) == IF k > Len(env) THEN 0 ELSE IF x \in DOMAIN env[k] THEN k ELSE Holder(env, x, k + 1)
Bind(env, x, v) == LET k == Holder(env, x, 1)
                       f == IF k = 0 THEN 1 ELSE k IN [env EXCEPT ![f] = (x :> v) @@ env[f]]
Positional(ps, vs) == [x \in { ps[k] : k \in 1..Len(ps) } |-> LET k == CHOOSE y \in 1..Len(ps) : ps[y] = x /\ \A z \in y + 1..Len(ps) : ps[z] # x IN vs[k]]
Labelled(xs, vs) == Positional(xs, vs)
\* the last definition of the name counts
Functions(p) == LET N == { k \in 1..Len(p) : p[k].d = "fn" } IN
                [x \in { p[k].x : k \in N } |-> LET k == CHOOSE y \in N : p[y].x = x /\ \A z \in N : z > y => p[z].x # x IN p[k]]
ForWhile(e) == Block_(<<Put(e.x, e.a), While_(Bin_(T_("<"), Sym_(e.x), e.b), Block_(<<e.e, Put(e.x, Bin_(T_("+"), Sym_(e.x), Num_(1)))>>))>>)

(* at once: [v, env, out] *)
R3(v, env, out) == [v |-> v, env |-> env, out |-> out]
RECURSIVE Ev(_, _, _, _, _), EvList(_, _, _, _, _, _), EvSeq(_, _, _, _, _), EvWhile(_, _, _, _, _), EvCall(_, _, _, _, _)
Ev(fns, e, env, out, fuel) ==
  IF fuel = 0 THEN R3(Err, env, out)
  ELSE CASE e.t \in {"int", "wide", "bool", "str"} -> R3(e, env, out)
    [] e.t = "par" -> Ev(fns, e.e, env, out, fuel)
    [] e.t = "sym" -> LET k == Holder(env, e.x, 1) IN R3(IF k = 0 THEN Err ELSE env[k][e.x], env, out)
    [] e.t = "arr" -> LET r == EvList(fns, e.es, env, out, <<>>, fuel) IN IF r.v = <<Err>> THEN R3(Err, r.env, r.out) ELSE R3(Arr_(r.v), r.env, r.out)
    [] e.t = "bin" -> LET l == Ev(fns, e.l, env, out, fuel)
                          r == Ev(fns, e.r, l.env, l.out, fuel)
                      IN IF l.v = Err THEN l ELSE IF r.v = Err THEN r ELSE R3(Apply(e.o, l.v, r.v), r.env, r.out)
    [] e.t = "set" -> LET r == Ev(fns, e.e, env, out, fuel) IN IF r.v = Err THEN r ELSE R3(r.v, Bind(r.env, e.x, r.v), r.out)
    [] e.t = "print" -> LET r == Ev(fns, e.e, env, out, fuel) IN
                        IF r.v = Err THEN r ELSE IF HasAny(r.v) THEN R3(Err, r.env, r.out) ELSE R3(Vague, r.env, Append(r.out, ValueText(r.v)))
    [] e.t = "block" -> EvSeq(fns, e.ss, env, out, fuel)
    [] e.t = "if" -> LET c == Ev(fns, e.c, env, out, fuel) IN
                     IF c.v.t # "bool" THEN R3(Err, c.env, c.out)
                     ELSE IF c.v.b THEN Ev(fns, e.a, c.env, c.out, fuel)
                     ELSE IF Len(e.els) > 0 THEN Ev(fns, e.els[1], c.env, c.out, fuel)
                     ELSE R3(Vague, c.env, c.out)
    [] e.t = "while" -> EvWhile(fns, e, env, out, fuel)
    [] e.t = "for" -> Ev(fns, ForWhile(e), env, out, fuel)
    [] e.t = "call" -> LET r == EvList(fns, e.es, env, out, <<>>, fuel) IN
                       IF r.v = <<Err>> \/ e.f \notin DOMAIN fns THEN R3(Err, r.env, r.out)
                       ELSE IF Len(fns[e.f].ps) > Len(r.v) THEN R3(Err, r.env, r.out)
                       ELSE EvCall(fns, fns[e.f], Positional(fns[e.f].ps, r.v), r, fuel)
    [] e.t = "lcall" -> LET r == EvList(fns, [k \in 1..Len(e.ps) |-> e.ps[k].e], env, out, <<>>, fuel) IN
                        IF r.v = <<Err>> \/ e.f \notin DOMAIN fns THEN R3(Err, r.env, r.out)
                        ELSE EvCall(fns, fns[e.f], Labelled([k \in 1..Len(e.ps) |-> e.ps[k].x], r.v), r, fuel)
EvList(fns, es, env, out, acc, fuel) == \* the values, or <<Err>>
  IF Len(es) = 0 THEN R3(acc, env, out)
  ELSE LET r == Ev(fns, es[1], env, out, fuel) IN IF r.v = Err THEN [r EXCEPT !.v = <<Err>>] ELSE EvList(fns, Tail(es), r.env, r.out, Append(acc, r.v), fuel)
EvSeq(fns, ss, env, out, fuel) ==
  IF Len(ss) = 0 THEN R3(Vague, env, out)
  ELSE LET r == Ev(fns, ss[1], env, out, fuel) IN IF r.v = Err \/ Len(ss) = 1 THEN r ELSE EvSeq(fns, Tail(ss), r.env, r.out, fuel)
EvWhile(fns, e, env, out, fuel) ==
  LET c == Ev(fns, e.c, env, out, fuel) IN
  IF c.v.t # "bool" \/ fuel = 0 THEN R3(Err, c.env, c.out)
  ELSE IF ~ c.v.b THEN R3(Vague, c.env, c.out)
  ELSE LET r == Ev(fns, e.a, c.env, c.out, fuel) IN IF r.v = Err THEN r ELSE EvWhile(fns, e, r.env, r.out, fuel - 1)
EvCall(fns, f, frame, r, fuel) ==
  LET b == Ev(fns, f.e, <<frame>> \o r.env, r.out, fuel - 1) IN R3(b.v, Tail(b.env), b.out)

\* the globals of a program, in order; then its main function in the same frame
RECURSIVE EvTop(_, _, _, _, _)
EvTop(p, k, env, out, fuel) ==
  IF k > Len(p) THEN LET fns == Functions(p) IN
                     IF T_("main") \in DOMAIN fns THEN Ev(fns, fns[T_("main")].e, env, out, fuel) ELSE R3(Err, env, out)
  ELSE IF p[k].d = "fn" THEN EvTop(p, k + 1, env, out, fuel)
  ELSE LET r == Ev(Functions(SubSeq(p, 1, k - 1)), p[k].e, env, out, fuel) IN
       IF r.v = Err THEN r ELSE EvTop(p, k + 1, <<(p[k].x :> r.v) @@ r.env[1]>>, r.out, fuel)
Meaning(p, fuel) == EvTop(p, 1, <<NoFrame>>, <<>>, fuel)

(* step by step.  A configuration: [p, k (definition being done), fns, c (work), vs (values, last first), env, out, ph]; ph: "top", "main", "done", "err" (unspecified), "unbound" (a name without a value is read) *)
Do(e) == [i |-> "do", e |-> e]
Begin(p) == [p |-> p, k |-> 1, c |-> <<>>, vs |-> <<>>, env |-> <<NoFrame>>, out |-> <<>>, ph |-> "top"]
Fail(cf) == [cf EXCEPT !.ph = "err"]
Push(cf, v) == [cf EXCEPT !.vs = <<v>> \o @]
Works(cf, ws) == [cf EXCEPT !.c = ws \o @]
Take(vs, n) == [k \in 1..n |-> vs[n + 1 - k]]
Known(cf) == Functions(SubSeq(cf.p, 1, cf.k - 1))
Enter(cf, f, frame, n) == [cf EXCEPT !.vs = SubSeq(@, n + 1, Len(@)), !.c = <<Do(f.e), [i |-> "ret"]>> \o @, !.env = <<frame>> \o @]
DoIt(cf, e) ==
  CASE e.t \in {"int", "wide", "bool", "str"} -> Push(cf, e)
    [] e.t = "par" -> Works(cf, <<Do(e.e)>>)
    [] e.t = "sym" -> LET k == Holder(cf.env, e.x, 1) IN IF k = 0 THEN [cf EXCEPT !.ph = "unbound"] ELSE Push(cf, cf.env[k][e.x])
    [] e.t = "arr" -> Works(cf, [k \in 1..Len(e.es) |-> Do(e.es[k])] \o <<[i |-> "arr", n |-> Len(e.es)]>>)
    [] e.t = "bin" -> Works(cf, <<Do(e.l), Do(e.r), [i |-> "bin", o |-> e.o]>>)
    [] e.t = "set" -> Works(cf, <<Do(e.e), [i |-> "set", x |-> e.x]>>)
    [] e.t = "print" -> Works(cf, <<Do(e.e), [i |-> "print"]>>)
    [] e.t = "block" -> IF Len(e.ss) = 0 THEN Push(cf, Vague)
                        ELSE Works(cf, Flat([k \in 1..Len(e.ss) |-> IF k < Len(e.ss) THEN <<Do(e.ss[k]), [i |-> "drop"]>> ELSE <<Do(e.ss[k])>>]))
    [] e.t = "if" -> Works(cf, <<Do(e.c), [i |-> "if", a |-> e.a, els |-> e.els]>>)
    [] e.t = "while" -> Works(cf, <<Do(e.c), [i |-> "loop", e |-> e]>>)
    [] e.t = "for" -> Works(cf, <<Do(e.a), [i |-> "set", x |-> e.x], [i |-> "drop"], Do(While_(Bin_(T_("<"), Sym_(e.x), e.b), Block_(<<e.e, Put(e.x, Bin_(T_("+"), Sym_(e.x), Num_(1)))>>)))>>)
    [] e.t = "call" -> Works(cf, [k \in 1..Len(e.es) |-> Do(e.es[k])] \o <<[i |-> "call", f |-> e.f, n |-> Len(e.es)]>>)
    [] e.t = "lcall" -> Works(cf, [k \in 1..Len(e.ps) |-> Do(e.ps[k].e)] \o <<[i |-> "lcall", f |-> e.f, xs |-> [k \in 1..Len(e.ps) |-> e.ps[k].x]]>>)
Step(cf) ==
  IF cf.ph = "top" /\ Len(cf.c) = 0
  THEN \* between definitions: the value of a global's expression is due for binding
       IF Len(cf.vs) = 1 THEN [cf EXCEPT !.k = @ + 1, !.vs = <<>>, !.env = <<(cf.p[cf.k].x :> cf.vs[1]) @@ cf.env[1]>>]
       ELSE IF cf.k > Len(cf.p)
       THEN IF T_("main") \in DOMAIN Known(cf) THEN [cf EXCEPT !.ph = "main", !.c = <<Do(Known(cf)[T_("main")].e)>>] ELSE Fail(cf)
       ELSE IF cf.p[cf.k].d = "fn" THEN [cf EXCEPT !.k = @ + 1]
       ELSE Works(cf, <<Do(cf.p[cf.k].e)>>)
  ELSE IF Len(cf.c) = 0 THEN [cf EXCEPT !.ph = "done"]
  ELSE LET w  == cf.c[1]
           c0 == [cf EXCEPT !.c = Tail(@)]
           v  == c0.vs[1]
           c1 == [c0 EXCEPT !.vs = Tail(@)]
           fns == Known(cf)
       IN CASE w.i = "do" -> DoIt(c0, w.e)
            [] w.i = "drop" -> c1
            [] w.i = "arr" -> Push([c0 EXCEPT !.vs = SubSeq(@, w.n + 1, Len(@))], Arr_(Take(c0.vs, w.n)))
            [] w.i = "bin" -> LET x == Apply(w.o, c0.vs[2], v) IN IF x = Err THEN Fail(cf) ELSE Push([c0 EXCEPT !.vs = SubSeq(@, 3, Len(@))], x)
            [] w.i = "set" -> [c0 EXCEPT !.env = Bind(@, w.x, v)]
            [] w.i = "print" -> IF HasAny(v) THEN Fail(cf) ELSE Push([c1 EXCEPT !.out = Append(@, ValueText(v))], Vague)
            [] w.i = "if" -> IF v.t # "bool" THEN Fail(cf)
                             ELSE IF v.b THEN Works(c1, <<Do(w.a)>>)
                             ELSE IF Len(w.els) > 0 THEN Works(c1, <<Do(w.els[1])>>) ELSE Push(c1, Vague)
            [] w.i = "loop" -> IF v.t # "bool" THEN Fail(cf)
                               ELSE IF v.b THEN Works(c1, <<Do(w.e.a), [i |-> "drop"], Do(w.e.c), w>>) ELSE Push(c1, Vague)
            [] w.i = "call" -> IF w.f \notin DOMAIN fns THEN Fail(cf)
                               ELSE IF Len(fns[w.f].ps) > w.n THEN Fail(cf)
                               ELSE Enter(c0, fns[w.f], Positional(fns[w.f].ps, Take(c0.vs, w.n)), w.n)
            [] w.i = "lcall" -> IF w.f \notin DOMAIN fns THEN Fail(cf)
                                ELSE Enter(c0, fns[w.f], Labelled(w.xs, Take(c0.vs, Len(w.xs))), Len(w.xs))
            [] w.i = "ret" -> [c0 EXCEPT !.env = Tail(@)]
=============================================================================
