------------------------------ MODULE ToysExpr ------------------------------
(***************************************************************************)
(* Precedence (T01).  The machine writes an expression word by word and at *)
(* the same time builds its tree with a stack of operators, reducing as    *)
(* soon as the next operator cannot bind stronger.  Whenever the words     *)
(* make a whole expression, that tree is the one the grammar reads         *)
(* (Refines) and the one found by splitting at the last operator of the    *)
(* lowest level (Splits); the spellings of the tree read back as the tree  *)
(* (ReadsBack).  Texts, trees and values are replayed on the real parser   *)
(* and interpreter.                                                        *)
(***************************************************************************)
EXTENDS Toys, Json, SequencesExt

CONSTANT Deep

VARIABLES fam, ws, stk, ops, due, left, wr
vars == <<fam, ws, stk, ops, due, left, wr>>
\* stk: trees; ops: operators and "(" waiting; due: "operand" or "operator"; left: operators that may still be written; wr: pairs of parentheses that may

F_ == T_("f")
Prelude == << Fn_(F_, <<T_("p"), T_("q")>>, Block_(<<Bin_(T_("-"), Bin_(T_("*"), Sym_(T_("p")), Num_(2)), Sym_(T_("q")))>>)) >>
Ints == << Num_(7), Num_(3), Num_(-2), Num_(5), Num_(2), Num_(4) >>
Kinds == { Num_(6), Num_(-4), Num_(0), Sym_(T_("x")), Sym_(T_("_y1")), Bool_(TRUE), Bool_(FALSE), Str_(T_("a b")), Str_(<<>>), Arr_(<<>>),
           Arr_(<<Num_(1), Bin_(T_("-"), Num_(9), Bin_(T_("/"), Num_(8), Num_(3)))>>),
           Call_(F_, <<Num_(8), Bin_(T_("-"), Num_(1), Num_(3))>>), LCall_(F_, <<[x |-> T_("q"), e |-> Num_(1)], [x |-> T_("p"), e |-> Bin_(T_("%"), Num_(9), Num_(5))]>>),
           Call_(F_, <<Call_(F_, <<Num_(1), Num_(2)>>), LCall_(F_, <<[x |-> T_("p"), e |-> Sym_(T_("x"))], [x |-> T_("q"), e |-> Num_(1)]>>)>>),
           Par_(Bin_(T_("+"), Num_(1), Sym_(T_("x")))), Par_(Par_(Bool_(FALSE))), Sym_(T_("truex")), Sym_(T_("fn1")) }
\* names: every short one, and those that begin or end like a word of the language
Short == UNION { { <<c>> \o w : c \in {97, 90, 95}, w \in [1..n -> {98, 89, 95, 48}] } : n \in 0..(IF Deep THEN 4 ELSE 2) }
Likes == TS({"iff", "if1", "if_", "elsex", "else2", "while1", "whiley", "fory", "for_", "into", "in1", "tot", "to_", "fnx", "fn1", "globals", "global_1", "println2", "printlnx",
             "true1", "true_", "truey", "falsey", "false0", "_true", "notfalse", "x1y2z3", "a_b_c", "A1b2C3", "__", "_0", "ab0cd1"})
Names == Short \cup Likes
\* what string literals are made of: texts with what they stand for; units of UTF-16 stand for something with what is beside them
Pieces == { [tx |-> T_("a"), u |-> <<>>], [tx |-> T_("u0"), u |-> <<>>], [tx |-> T_("' "), u |-> <<>>], [tx |-> T_("/"), u |-> <<>>], [tx |-> <<10>>, u |-> <<>>], [tx |-> <<9>>, u |-> <<>>],
            [tx |-> <<233>>, u |-> <<>>], [tx |-> <<12354>>, u |-> <<>>], [tx |-> <<128512>>, u |-> <<>>], [tx |-> T_(";}"), u |-> <<>>] }
          \cup { [tx |-> <<92, ch>>, u |-> <<>>] : ch \in DOMAIN Escaped }
          \cup { [tx |-> <<92, 117>> \o h, u |-> <<HexNum(h)>>] : h \in TS({"0041", "00e9", "3042", "D83d", "dE00", "0000", "FFff"}) }
RECURSIVE Denoted(_, _)
Denoted(ps, us) == IF Len(ps) = 0 THEN FromUtf16(us)
                   ELSE IF Len(ps[1].u) > 0 THEN Denoted(Tail(ps), us \o ps[1].u)
                   ELSE FromUtf16(us) \o (IF ps[1].tx[1] = 92 THEN <<Escaped[ps[1].tx[2]]>> ELSE ps[1].tx) \o Denoted(Tail(ps), <<>>)
Lits == UNION { [1..n -> Pieces] : n \in 0..(IF Deep THEN 3 ELSE 2) }
        \cup { <<a, b, c>> : a, b, c \in { x \in Pieces : Len(x.u) > 0 \/ x.tx \in {T_("a"), <<92, 110>>} } }
LitText(ps) == <<34>> \o Flat([n \in DOMAIN ps |-> ps[n].tx]) \o <<34>>
RECURSIVE Weight(_)
Weight(q) == IF Len(q) = 0 THEN 0 ELSE q[Len(q)] + 3 * Weight(SubSeq(q, 1, Len(q) - 1))
Wd_(q) == IF q[1] = 45 THEN Wide_(TRUE, [n \in 1..Len(q) - 1 |-> q[n + 1] - 48]) ELSE Wide_(FALSE, [n \in 1..Len(q) |-> q[n] - 48])
Wides == { Wd_(q) : q \in TS({"2147483647", "2147483648", "-2147483649", "4294967296", "4294967297", "-4294967295", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1000000007", "-3000000000000", "007", "-010"}) }
         \cup {Num_(0), Num_(1), Num_(-1), Num_(7), Num_(999999999), Num_(-65536)}
Logic == { Bool_(TRUE), Bool_(FALSE), Par_(Bin_(T_("<"), Num_(1), Num_(2))), Par_(Bin_(T_("=="), Num_(1), Num_(2))) }
Few == TS({"<", "==", "&&", "+", "-", "%", "*", "/"})
\* long expressions of one or a few operators in turn; nested to the left or to the right
Patterns == [ c1 |-> <<"-">>, c2 |-> <<"/", "*">>, c3 |-> <<"+", "*", "-">>, c4 |-> <<"%", "-">>, c5 |-> <<"&&", "||">>, c6 |-> <<"-", "/", "%", "+">>, c7 |-> <<"*", "%", "/">>,
              r1 |-> <<"-">>, r2 |-> <<"+", "*", "-">>, l1 |-> <<"-", "%">>, l2 |-> <<"*", "-">>, r3 |-> <<"||", "&&">>, l3 |-> <<"/", "+">> ]
Chained == DOMAIN Patterns
ToRight == {"r1", "r2", "r3"}
ToLeft == {"l1", "l2", "l3"}
Plain == Chained \ (ToRight \cup ToLeft)
Small == << Num_(7), Num_(3), Num_(-1), Num_(2), Num_(1), Num_(1) >>
Bools == << Bool_(TRUE), Bool_(FALSE), Bool_(FALSE) >>
Operands(n) == CASE fam \in {"ops", "long"} -> {Ints[(n % 6) + 1]}
                 [] fam = "kinds" -> Kinds
                 [] fam = "logic" -> Logic
                 [] fam = "wide" -> IF n = 2 THEN {Num_(2), Wd_(T_("5000000000"))} ELSE Wides
                 [] fam = "names" -> IF n = 0 THEN { Sym_(nm) : nm \in Names } ELSE {Sym_(T_("x")), Ints[1]}
                 [] fam \in {"c5", "r3"} -> {Bools[(n % 3) + 1]}
                 [] fam \in Chained -> {Small[(n % 6) + 1]}
NOperands == Cardinality({ k \in 1..Len(ws) : ws[k].w = "operand" })
Operators == CASE fam = "logic" -> TS({"&&", "||"})
               [] fam = "names" -> TS({"-", "<", "%"})
               [] fam = "wide" -> IF NOperands = 2 THEN TS({"-", "*"}) ELSE Ops \ TS({"&&", "||"})
               [] fam = "long" -> IF Deep THEN Few ELSE TS({">=", "-", "%", "/"})
               [] fam \in Chained -> {T_(Patterns[fam][((NOperands - 1) % Len(Patterns[fam])) + 1])}
               [] OTHER -> Ops

Init == /\ \/ fam = "ops" /\ left = 3 /\ wr = 1
           \/ fam = "ops" /\ left = 2 /\ wr = 2
           \/ fam = "kinds" /\ left = 1 /\ wr = 1
           \/ fam = "names" /\ left = 1 /\ wr = 0
           \/ fam = "strings" /\ left = 0 /\ wr = 0
           \/ fam = "wide" /\ left = 2 /\ wr = 0
           \/ fam = "logic" /\ left = 3 /\ wr = 1
           \/ fam = "long" /\ left = 5 /\ wr = 0
           \/ fam \in Plain /\ left = (IF Deep THEN 30 ELSE 20) /\ wr = 0
           \/ fam \in ToRight \cup ToLeft /\ left = (IF Deep THEN 12 ELSE 8) /\ wr = left
           \/ Deep /\ fam = "ops" /\ left = 3 /\ wr = 2
        /\ ws = <<>> /\ stk = <<>> /\ ops = <<>> /\ due = "operand"
W(k, v) == [w |-> k, v |-> v]
\* reduce while the waiting operators bind at least as strongly as level lv
RECURSIVE Reduce(_, _, _)
Reduce(s, o, lv) == IF Len(o) = 0 THEN <<s, o>>
                    ELSE IF o[Len(o)] = LP THEN <<s, o>>
                    ELSE IF LevelOf[o[Len(o)]] < lv THEN <<s, o>>
                    ELSE Reduce(Append(SubSeq(s, 1, Len(s) - 2), Bin_(o[Len(o)], s[Len(s) - 1], s[Len(s)])), SubSeq(o, 1, Len(o) - 1), lv)
\* where parentheses may be written in the nested ones
LastW == IF Len(ws) = 0 THEN "none" ELSE ws[Len(ws)].w
MayOpen == fam \in ToRight => LastW # "("
MayOperand == /\ fam \in ToRight => LastW = "(" \/ wr = 0
              /\ fam \in ToLeft => wr = 0
MayOperator == fam \in ToLeft => LastW = ")" \/ NOperands = 1
MayClose == /\ fam \in ToLeft => LastW = "operand" /\ NOperands > 1
            /\ fam \in ToRight => left = 0
Open == /\ due = "operand" /\ wr > 0 /\ MayOpen
        /\ ws' = Append(ws, W("(", LP)) /\ ops' = Append(ops, LP) /\ wr' = wr - 1
        /\ UNCHANGED <<fam, stk, due, left>>
Literal == /\ due = "operand" /\ fam = "strings"
           /\ \E ps \in Lits : ws' = <<W("literal", LitText(ps))>> /\ stk' = <<Str_(Denoted(ps, <<>>))>>
           /\ due' = "operator"
           /\ UNCHANGED <<fam, ops, left, wr>>
Operand == /\ due = "operand" /\ MayOperand /\ fam # "strings"
           /\ \E e \in Operands(NOperands) : ws' = Append(ws, W("operand", e)) /\ stk' = Append(stk, e)
           /\ due' = "operator"
           /\ UNCHANGED <<fam, ops, left, wr>>
Operator == /\ due = "operator" /\ left > 0 /\ MayOperator
            /\ \E o \in Operators : LET r == Reduce(stk, ops, LevelOf[o]) IN
                 ws' = Append(ws, W("operator", o)) /\ stk' = r[1] /\ ops' = Append(r[2], o)
            /\ due' = "operand" /\ left' = left - 1
            /\ UNCHANGED <<fam, wr>>
Close == /\ due = "operator" /\ MayClose /\ \E k \in DOMAIN ops : ops[k] = LP
         /\ LET r == Reduce(stk, ops, 1) IN
              /\ stk' = [r[1] EXCEPT ![Len(r[1])] = Par_(@)]
              /\ ops' = SubSeq(r[2], 1, Len(r[2]) - 1)
         /\ ws' = Append(ws, W(")", RP))
         /\ UNCHANGED <<fam, due, left, wr>>
Next == Open \/ Literal \/ Operand \/ Operator \/ Close
Spec == Init /\ [][Next]_vars

IsWhole == due = "operator" /\ \A k \in DOMAIN ops : ops[k] # LP
Tree == Reduce(stk, ops, 1)[1][1]
Words(us) == Flat([k \in 1..Len(us) |-> IF us[k].w = "operand" THEN ExprW(us[k].v) ELSE <<us[k].v>>])
Read(gap) == LET ts == Lex(Join(Words(ws), gap), 1)
                 r  == RExpr(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r.v ELSE Err
Refines == IsWhole => \A g \in DOMAIN Gaps : Read(Gaps[g]) = Tree
\* the definition: the last operator of the lowest level outside parentheses is the root
RECURSIVE Depth(_, _), Split(_)
Depth(us, k) == IF k = 0 THEN 0 ELSE Depth(us, k - 1) + (IF us[k].w = "(" THEN 1 ELSE IF us[k].w = ")" THEN -1 ELSE 0)
Split(us) ==
  LET O == { k \in 1..Len(us) : us[k].w = "operator" /\ Depth(us, k) = 0 } IN
  IF O = {} THEN IF us[1].w = "(" THEN Par_(Split(SubSeq(us, 2, Len(us) - 1))) ELSE us[1].v
  ELSE LET k == CHOOSE x \in O : \A y \in O : LevelOf[us[x].v] < LevelOf[us[y].v] \/ (LevelOf[us[x].v] = LevelOf[us[y].v] /\ x >= y)
       IN Bin_(us[k].v, Split(SubSeq(us, 1, k - 1)), Split(SubSeq(us, k + 1, Len(us))))
Splits == IsWhole /\ fam # "strings" => Split(ws) = Tree
ReadsBack == IsWhole /\ fam # "strings" => ExprW(Tree) = Words(ws)

Main == Fn_(T_("main"), <<>>, Block_(<<Put(T_("r"), Tree), Sym_(T_("r"))>>))
\* what the names stand for: an element each
Used == { ws[n].v.x : n \in { m \in 1..Len(ws) : fam = "names" /\ ws[m].w = "operand" /\ ws[m].v.t = "sym" } } \ {T_("x")}
Stand == LET us == SetToSeq(Used) IN [n \in 1..Len(us) |-> [x |-> us[n], n |-> Weight(us[n])]]
Prog == Prelude \o [n \in 1..Len(Stand) |-> Global_(Stand[n].x, Num_(Stand[n].n))] \o << Global_(T_("x"), Num_(4)), Global_(T_("_y1"), Num_(-3)), Global_(T_("truex"), Num_(1)), Global_(T_("fn1"), Bool_(TRUE)), Main >>
Emit == IsWhole => LET m == Meaning(Prog, 9) IN
  PrintT(ToJson([ts |-> [g \in DOMAIN Gaps |-> Join(Words(ws), Gaps[g])], tree |-> Tree, v |-> m.v, gs |-> Stand]))
=============================================================================
