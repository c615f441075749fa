------------------------------- MODULE ToysRun -------------------------------
(***************************************************************************)
(* Running (T02).  Programs are written statement by statement out of the  *)
(* families below; a finished one is run by the machine, a step at a time, *)
(* and ends as its meaning says (Refines): the same result, variables and  *)
(* output.  Calls come back with the caller's frames and nothing more      *)
(* (Frames); the text of a program reads back as the program (ReadsBack).  *)
(* Text, output, result and globals are replayed on the real interpreter.  *)
(***************************************************************************)
EXTENDS Toys, Json

CONSTANT Deep

VARIABLES fam, at, body, cf
vars == <<fam, at, body, cf>>
\* at: the function being written (0: none left); body: statements of each

V(s)    == Sym_(T_(s))
N(n)    == Num_(n)
Op(s, l, r) == Bin_(T_(s), l, r)
Pl(l, r) == Op("+", l, r)
Mi(l, r) == Op("-", l, r)
Ti(l, r) == Op("*", l, r)
Lt(l, r) == Op("<", l, r)
Eq(l, r) == Op("==", l, r)
Set_(s, e) == Put(T_(s), e)
B(ss)   == Block_(ss)
F(f, es) == Call_(T_(f), es)
L(f, x1, e1, x2, e2) == LCall_(T_(f), <<[x |-> T_(x1), e |-> e1], [x |-> T_(x2), e |-> e2]>>)
L1(f, x1, e1) == LCall_(T_(f), <<[x |-> T_(x1), e |-> e1]>>)
For(s, a, b, e) == For_(T_(s), a, b, e)
Mod(e, n) == Op("%", e, N(n))
Text(s) == Str_(T_(s))
x == V("x")
y == V("y")
p == V("p")
q == V("q")
k == V("k")
a == V("a")

(* ---- the statements to choose from ---- *)
VarsPool == << Set_("x", Pl(x, y)), Set_("z", Ti(x, N(3))), Show_(x), Show_(Arr_(<<x, y, V("s")>>)), B(<<Set_("y", Mi(x, y)), Show_(y)>>),
               If1(Lt(x, y), Set_("x", N(9))), If2(Eq(x, y), Show_(Text("eq")), B(<<Set_("x", y), Show_(Text("ne"))>>)), B(<<>>), Pl(x, N(1)),
               Show_(V("z")), If1(Bool_(TRUE), If2(Op(">", x, N(2)), Show_(Text("big")), Show_(Text("small")))),
               Set_("c", Op("&&", Par_(Lt(x, y)), Par_(Op("!=", y, N(3))))), If2(V("c"), Set_("y", N(3)), Set_("x", N(-1))),
               B(<<B(<<Set_("z", y)>>), Show_(Pl(V("z"), N(1)))>>), Set_("x", y), If2(Lt(x, N(2)), B(<<>>), If2(Lt(x, N(5)), Show_(N(2)), If2(Lt(x, N(8)), Show_(N(5)), Show_(N(8))))),
               If2(Lt(x, y), Set_("w", x), B(<<Set_("w", N(5))>>)), Show_(V("w")) >>
CallF == << Set_("x", p), Set_("p", Pl(p, q)), Set_("z", q), Show_(Arr_(<<p, q, x>>)), Mi(p, q), x, If1(Lt(p, q), Set_("p", q)), B(<<Set_("q", N(7)), q>>) >>
CallMain == << Set_("r", F("f", <<x, y>>)), Set_("p", N(5)), L("f", "q", x, "p", N(9)), Show_(F("f", <<y, F("f", <<N(1), N(2)>>)>>)), Set_("x", F("f", <<V("p"), x>>)),
               F("f", <<N(3), N(4), N(8)>>), Show_(Arr_(<<F("f", <<N(1), x>>), L("f", "p", x, "q", F("f", <<x, N(1)>>))>>)), B(<<Set_("z", F("f", <<N(2), N(1)>>)), Show_(V("z"))>>),
               If2(Lt(F("f", <<N(1), N(2)>>), N(0)), Show_(N(1)), Show_(N(2))), Show_(V("z")), V("p") >>
ChainH == << Set_("q", p), Set_("p", Pl(p, N(1))), Set_("w", q), Set_("x", Pl(x, p)), q, Arr_(<<p, q, x>>), B(<<Set_("y", N(8)), p>>) >>
ChainF == << Set_("q", F("h", <<q>>)), L1("h", "p", p), Pl(Ti(p, N(10)), q), Show_(q), Set_("w", N(3)), Show_(F("h", <<F("h", <<p>>)>>)), V("w") >>
ChainMain == << Set_("q", N(77)), Show_(F("f", <<x, y>>)), L("f", "q", N(1), "p", N(6)), Show_(Arr_(<<x, y>>)) >>
\* loop bodies: k counts
LoopBody == << Set_("a", Pl(a, k)), Show_(k), If2(Eq(Mod(k, 2), N(0)), Show_(Text("even")), Set_("a", Pl(Ti(a, N(2)), N(1)))), Set_("a", F("g", <<a, k>>)),
               For("j", N(0), k, Show_(Arr_(<<k, V("j")>>))), B(<<Set_("m", k), Set_("a", Mi(a, V("m")))>>), If1(Lt(N(1), k), F("g", <<k, a>>)), B(<<>>),
               B(<<Set_("n", N(0)), While_(Lt(V("n"), N(2)), B(<<Show_(V("n")), Set_("n", Pl(V("n"), N(1)))>>))>>) >>
Loops(b) == << For("k", N(0), N(3), b), For("k", x, Pl(x, N(2)), b), For("k", N(2), N(2), b), For("k", N(3), N(1), b), For("k", N(-1), Mi(N(6), N(4)), b),
               B(<<Set_("k", N(0)), While_(Lt(k, N(3)), B(<<b, Set_("k", Pl(k, N(1)))>>))>>),
               B(<<Set_("k", N(4)), While_(Op(">=", k, N(2)), B(<<Set_("k", Mi(k, N(1))), b>>))>>),
               While_(Bool_(FALSE), B(<<Set_("k", N(1)), b>>)),
               F("loop", <<N(2)>>) >>
NLoops == 9
\* after the loop: what the body was the first to assign, and the counter
Uses(b, e) == \E n \in 1..Len(b) : b[n] = e
After(b) == << <<>>, (IF Uses(b, LoopBody[6]) THEN <<Show_(V("m"))>> ELSE <<>>) \o (IF Uses(b, LoopBody[9]) THEN <<Show_(V("n"))>> ELSE <<>>), <<Show_(k)>> >>

Rec == <<
  \* factorial, Fibonacci, greatest common divisor, power, even and odd, Ackermann, digits printed, a sum in a global, named arguments swapped, nesting
  << Fn_(T_("fact"), <<T_("n")>>, B(<<If2(Lt(V("n"), N(2)), N(1), Ti(V("n"), F("fact", <<Mi(V("n"), N(1))>>)))>>)),
     Fn_(T_("main"), <<>>, B(<<Set_("r", F("fact", <<V("arg")>>)), Show_(V("r")), V("r")>>)) >>,
  << Fn_(T_("fib"), <<T_("n")>>, B(<<If2(Lt(V("n"), N(2)), V("n"), Pl(F("fib", <<Mi(V("n"), N(1))>>), F("fib", <<Mi(V("n"), N(2))>>)))>>)),
     Fn_(T_("main"), <<>>, B(<<Show_(F("fib", <<V("arg")>>)), F("fib", <<Pl(V("arg"), N(1))>>)>>)) >>,
  << Fn_(T_("gcd"), <<T_("u"), T_("v")>>, B(<<If2(Eq(V("v"), N(0)), V("u"), F("gcd", <<V("v"), Op("%", V("u"), V("v"))>>))>>)),
     Fn_(T_("main"), <<>>, B(<<L("gcd", "v", Ti(V("arg"), N(6)), "u", N(28))>>)) >>,
  << Fn_(T_("even"), <<T_("n")>>, B(<<If2(Eq(V("n"), N(0)), Bool_(TRUE), F("odd", <<Mi(V("n"), N(1))>>))>>)),
     Fn_(T_("odd"), <<T_("n")>>, B(<<If2(Eq(V("n"), N(0)), Bool_(FALSE), F("even", <<Mi(V("n"), N(1))>>))>>)),
     Fn_(T_("main"), <<>>, B(<<Show_(F("odd", <<V("arg")>>)), F("even", <<V("arg")>>)>>)) >>,
  << Fn_(T_("ack"), <<T_("m"), T_("n")>>, B(<<If2(Eq(V("m"), N(0)), Pl(V("n"), N(1)), If2(Eq(V("n"), N(0)), F("ack", <<Mi(V("m"), N(1)), N(1)>>), F("ack", <<Mi(V("m"), N(1)), F("ack", <<V("m"), Mi(V("n"), N(1))>>)>>)))>>)),
     Fn_(T_("main"), <<>>, B(<<F("ack", <<N(1), V("arg")>>)>>)) >>,
  << Fn_(T_("digits"), <<T_("n")>>, B(<<If2(Lt(V("n"), N(2)), Show_(V("n")), B(<<F("digits", <<Op("/", V("n"), N(2))>>), Show_(Mod(V("n"), 2))>>))>>)),
     Fn_(T_("main"), <<>>, B(<<F("digits", <<V("arg")>>), V("arg")>>)) >>,
  << Global_(T_("sum"), N(0)), Fn_(T_("add"), <<T_("n")>>, B(<<If1(Op(">", V("n"), N(0)), B(<<Set_("sum", Pl(V("sum"), V("n"))), F("add", <<Mi(V("n"), N(1))>>)>>)), Show_(V("n"))>>)),
     Fn_(T_("main"), <<>>, B(<<F("add", <<V("arg")>>), V("sum")>>)) >>,
  << Fn_(T_("down"), <<T_("n"), T_("m")>>, B(<<If1(Op(">", V("n"), N(0)), L("down", "m", V("n"), "n", Mi(V("n"), N(1)))), Show_(Arr_(<<V("n"), V("m")>>)), V("m")>>)),
     Fn_(T_("main"), <<>>, B(<<F("down", <<V("arg"), N(0)>>)>>)) >>,
  << Fn_(T_("twice"), <<T_("n")>>, B(<<N(1)>>)), Fn_(T_("twice"), <<T_("n")>>, B(<<Ti(V("n"), N(2))>>)),
     Fn_(T_("main"), <<>>, B(<<F("twice", <<F("twice", <<F("twice", <<V("arg")>>)>>)>>)>>)) >>,
  << Fn_(T_("fizz"), <<T_("n")>>, B(<<If2(Op("&&", Par_(Eq(Mod(V("n"), 3), N(0))), Par_(Eq(Mod(V("n"), 5), N(0)))), Show_(Text("FizzBuzz")),
        If2(Eq(Mod(V("n"), 3), N(0)), Show_(Text("Fizz")), If2(Eq(Mod(V("n"), 5), N(0)), Show_(Text("Buzz")), Show_(V("n")))))>>)),
     Fn_(T_("main"), <<>>, B(<<For("i", Pl(V("arg"), N(1)), Pl(V("arg"), N(16)), B(<<Set_("n", V("i")), F("fizz", <<V("i")>>)>>))>>)) >> >>

(* ---- larger programs ---- *)
Nm(c, n) == T_(c) \o DecText(n)
G3 == << Global_(T_("x"), N(1)), Global_(T_("y"), Pl(x, N(1))), Global_(T_("s"), Text("ab")) >>
MainOf(ss) == Fn_(T_("main"), <<>>, B(ss))
RECURSIVE SumOf(_, _), Nested(_, _), Ifs(_, _), Fors(_, _)
SumOf(es, n) == IF n = 1 THEN es[1] ELSE Op(<<"+", "-">>[(n % 2) + 1], SumOf(es, n - 1), es[n])
Nested(n, e) == IF n = 0 THEN e ELSE B(<<Set_("x", Pl(x, N(n))), Nested(n - 1, e), Show_(x), Put(Nm("v", n), x)>>)
Ifs(n, e) == IF n = 0 THEN e ELSE IF n % 2 = 0 THEN If2(Lt(x, N(0)), Show_(N(n)), B(<<Set_("x", Pl(x, N(1))), Ifs(n - 1, e)>>)) ELSE If2(Lt(N(0), x), Ifs(n - 1, e), Show_(N(-1)))
Fors(n, e) == IF n = 0 THEN e ELSE For_(Nm("i", n), N(0), N(2), B(<<Fors(n - 1, e)>>))
Many == IF Deep THEN 40 ELSE 22
Bigs ==
  [h \in 1..8 |-> G3 \o <<MainOf(<<Set_("z", N(2)), Set_("w", N(4)), Set_("c", Bool_(TRUE))>> \o [n \in 1..Many |-> VarsPool[(((n + h) * <<1, 3, 5, 7, 11, 13, 17, 19>>[h]) % Len(VarsPool)) + 1]])>>]
  \o <<
  [n \in 1..30 |-> Global_(Nm("g", n), IF n = 1 THEN N(5) ELSE Pl(Sym_(Nm("g", n - 1)), N(n)))]
     \o <<MainOf(<<Put(Nm("g", 17), N(0)), Show_(SumOf([n \in 1..30 |-> Sym_(Nm("g", n))], 30)), Arr_([n \in 1..30 |-> Sym_(Nm("g", n))])>>)>>,
  <<Fn_(Nm("f", 0), <<T_("p")>>, B(<<Pl(p, N(1))>>))>>
     \o [n \in 1..15 |-> Fn_(Nm("f", n), <<T_("p"), T_("q")>>, B(<<Set_("r", Call_(Nm("f", n - 1), IF n = 1 THEN <<p>> ELSE <<Pl(p, N(1)), p>>)), If1(Lt(p, q), Show_(p)), Pl(V("r"), Par_(Mi(p, q)))>>))]
     \o <<MainOf(<<Call_(Nm("f", 15), <<N(3), N(4)>>)>>)>>,
  <<Fn_(T_("f"), [n \in 1..9 |-> Nm("p", n)], B(<<Show_(Arr_([n \in 1..9 |-> Sym_(Nm("p", n))])), Sym_(Nm("p", 7))>>)),
    MainOf(<<Call_(T_("f"), [n \in 1..9 |-> N(n)]), LCall_(T_("f"), [n \in 1..9 |-> [x |-> Nm("p", ((n * 4) % 9) + 1), e |-> N(n * 10)]])>>)>>,
  G3 \o <<MainOf(<<Nested(9, Set_("y", x)), Show_(Arr_([n \in 1..9 |-> Sym_(Nm("v", n))])), y>>)>>,
  G3 \o <<MainOf(<<Ifs(10, Show_(Text("deep"))), x>>)>>,
  G3 \o <<MainOf(<<Set_("a", N(0)), Fors(4, Set_("a", Pl(Ti(a, N(2)), Par_(SumOf([n \in 1..4 |-> Sym_(Nm("i", n))], 4))))), a>>)>>,
  G3 \o <<MainOf(<<Set_("k", N(0)), Set_("a", N(0)), While_(Lt(k, N(150)), B(<<Set_("a", Pl(a, k)), If1(Eq(Mod(k, 50), N(0)), Show_(a)), Set_("k", Pl(k, N(1)))>>)), a>>)>>,
  G3 \o <<Global_(T_("x"), Pl(x, N(10))), Global_(T_("y"), Ti(x, y)), MainOf(<<Show_(x), y>>), Global_(T_("x"), Mi(y, x))>>,
  G3 \o <<MainOf(<<Set_("a", N(0)), For("k", N(-20), N(130), B(<<Set_("a", Pl(a, k)), Show_(k)>>)), a>>)>>,
  << Fn_(T_("sum"), <<T_("n")>>, B(<<If2(Lt(V("n"), N(1)), N(0), Pl(V("n"), F("sum", <<Mi(V("n"), N(1))>>)))>>)), MainOf(<<F("sum", <<N(40)>>)>>) >>,
  << Fn_(T_("pow"), <<T_("b"), T_("n")>>, B(<<If2(Lt(V("n"), N(1)), N(1), Ti(V("b"), F("pow", <<V("b"), Mi(V("n"), N(1))>>)))>>)),
     MainOf(<<Show_(F("pow", <<N(3), N(39)>>)), Show_(F("pow", <<N(-2), N(63)>>)), For("k", F("pow", <<N(2), N(33)>>), Pl(F("pow", <<N(2), N(33)>>), N(4)), Show_(k)), Mi(F("pow", <<N(10), N(18)>>), F("pow", <<N(7), N(20)>>))>>) >>,
  <<MainOf(<<Set_("a", Arr_([n \in 1..60 |-> N(n)])), Show_(a), Set_("t", Str_([n \in 1..300 |-> 97 + (n % 26)])), Show_(V("t")), Put([n \in 1..80 |-> 97 + (n % 26)], N(3)), Sym_([n \in 1..80 |-> 97 + (n % 26)])>>)>>
  >>

(* ---- names, among them those that begin like a word of the language ---- *)
Named == << "iff", "if1", "if_", "ifelse", "elsex", "else2", "else_if", "while1", "whiley", "fory", "for_", "into", "in1", "tot", "to_", "fnx", "fn1", "globals", "global_1",
            "println2", "printlnx", "true1", "true_", "falsey", "false0", "_true", "A1b2C3", "_", "__", "_0", "a1b", "Zz", "mainx", "arg0" >>
Shapes(s) ==
  LET nm == T_(s)
      v == Sym_(nm) IN
  << << Global_(nm, N(5)), MainOf(<<Put(nm, Pl(v, N(1))), Show_(v), v>>) >>,
     << Fn_(nm, <<T_("p")>>, B(<<Pl(p, N(1))>>)), MainOf(<<Show_(Call_(nm, <<N(3)>>)), Call_(nm, <<N(1)>>), LCall_(nm, <<[x |-> T_("p"), e |-> N(4)]>>)>>) >>,
     << Fn_(T_("f"), <<nm, T_("q")>>, B(<<Mi(v, q)>>)), MainOf(<<Show_(F("f", <<N(9), N(2)>>)), LCall_(T_("f"), <<[x |-> T_("q"), e |-> N(1)], [x |-> nm, e |-> N(5)]>>)>>) >>,
     << MainOf(<<For_(nm, N(0), N(3), Show_(v)), v>>) >>,
     << MainOf(<<Put(nm, Bool_(TRUE)), If1(v, Show_(N(1))), Put(nm, N(4)), While_(Lt(v, N(7)), Put(nm, Pl(v, N(2)))), v>>) >>,
     << MainOf(<<Put(nm, N(2)), If1(Lt(v, N(0)), Show_(N(1))), v>>) >>,
     << MainOf(<<Put(nm, N(2)), If1(Lt(v, N(0)), Show_(N(1))), Put(nm, Ti(v, N(3))), If2(Lt(N(0), v), Put(nm, Mi(v, N(1))), v), v>>) >>,
     << MainOf(<<Put(nm, N(1)), For("k", v, Pl(v, N(2)), If2(Eq(k, v), v, Show_(Arr_(<<v, k>>)))), For("k", N(0), v, B(<<v, Show_(k)>>)), Arr_(<<v, v>>)>>) >>,
     << Fn_(T_("f"), <<>>, B(<<If1(Bool_(FALSE), N(1)), v>>)), Global_(nm, N(8)), MainOf(<<F("f", <<>>)>>) >> >>

(* ---- programs ---- *)
G2 == << Global_(T_("x"), N(1)), Global_(T_("y"), Pl(x, N(1))) >>
PoolOf == CASE fam = "vars" -> <<VarsPool>>
            [] fam = "calls" -> <<CallF, CallMain>>
            [] fam = "chain" -> <<ChainH, ChainF>>
            [] fam = "loops" -> <<LoopBody, [n \in 1..NLoops |-> N(n)], [n \in 1..3 |-> N(n)]>>
            [] fam = "names" -> << [n \in DOMAIN Named |-> N(n)], [n \in 1..9 |-> N(n)] >>
            [] fam = "big" -> << [n \in DOMAIN Bigs |-> N(n)] >>
            [] fam = "rec" -> << [n \in DOMAIN Rec |-> N(n)], [n \in 1..7 |-> N(n)] >>
MostOf == CASE fam = "vars" -> IF Deep THEN <<4>> ELSE <<3>>
            [] fam = "calls" -> IF Deep THEN <<2, 3>> ELSE <<2, 2>>
            [] fam = "chain" -> IF Deep THEN <<3, 2>> ELSE <<2, 2>>
            [] fam = "loops" -> IF Deep THEN <<3, 1, 1>> ELSE <<2, 1, 1>>
            [] fam \in {"rec", "names"} -> <<1, 1>>
            [] fam = "big" -> <<1>>
Program ==
  CASE fam = "vars" -> G2 \o << Global_(T_("s"), Text("ab")), Fn_(T_("main"), <<>>, B(body[1])) >>
    [] fam = "calls" -> G2 \o << Fn_(T_("f"), <<T_("p"), T_("q")>>, B(body[1])), Fn_(T_("main"), <<>>, B(body[2])) >>
    [] fam = "chain" -> << Fn_(T_("h"), <<T_("p")>>, B(body[1])) >> \o G2 \o << Fn_(T_("f"), <<T_("p"), T_("q")>>, B(body[2])), Fn_(T_("main"), <<>>, B(ChainMain)) >>
    [] fam = "loops" -> G2 \o << Fn_(T_("g"), <<T_("p"), T_("q")>>, B(<<Set_("y", Pl(y, N(1))), Mi(p, q)>>)),
                                 Fn_(T_("loop"), <<T_("n")>>, B(<<For("k", N(0), V("n"), B(body[1])), V("n")>>)),
                                 Fn_(T_("main"), <<>>, B(<<Set_("a", N(1)), Loops(B(body[1]))[body[2][1].n]>> \o After(body[1])[body[3][1].n] \o <<Show_(a)>>)) >>
    [] fam = "names" -> Shapes(Named[body[1][1].n])[body[2][1].n]
    [] fam = "big" -> Bigs[body[1][1].n]
    [] fam = "rec" -> << Global_(T_("arg"), Mi(body[2][1], N(1))) >> \o Rec[body[1][1].n]

NoRun == [ph |-> "none"]
Init == /\ fam \in {"vars", "calls", "chain", "loops", "rec", "big", "names"}
        /\ at = 1 /\ body = [n \in 1..Len(PoolOf) |-> <<>>] /\ cf = NoRun
Write == /\ at > 0 /\ Len(body[at]) < MostOf[at]
         /\ \E n \in 1..Len(PoolOf[at]) : body' = [body EXCEPT ![at] = Append(@, PoolOf[at][n])]
         /\ UNCHANGED <<fam, at, cf>>
Go == /\ at > 0 /\ Len(body[at]) > 0
      /\ at' = IF at = Len(PoolOf) THEN 0 ELSE at + 1
      /\ cf' = IF at' = 0 THEN Begin(Program) ELSE cf
      /\ UNCHANGED <<fam, body>>
Run == /\ at = 0 /\ cf.ph \in {"top", "main"}
       /\ cf' = Step(cf)
       /\ UNCHANGED <<fam, at, body>>
Next == Write \/ Go \/ Run
Spec == Init /\ [][Next]_vars

Ended == at = 0 /\ cf.ph \in {"done", "err", "unbound"}
Refines == Ended => LET m == Meaning(cf.p, 200) IN
                    IF cf.ph = "done" THEN m.v = cf.vs[1] /\ Len(cf.vs) = 1 /\ m.env = cf.env /\ m.out = cf.out
                    ELSE m.v = Err
\* as many frames as calls under way; a frame more or less only by entering and leaving
Rets == Cardinality({ n \in 1..Len(cf.c) : cf.c[n].i = "ret" })
Frames == at = 0 => Len(cf.env) = 1 + Rets
Keeps == [][at = 0 => /\ Len(cf'.env) - Len(cf.env) \in {-1, 0, 1}
                      /\ \A n \in 1..Len(cf.env) : DOMAIN cf.env[n] = {} \/ LET o == n + Len(cf'.env) - Len(cf.env) IN o < 1 \/ DOMAIN cf.env[n] \subseteq DOMAIN cf'.env[o]]_vars
ReadsBack == (at = 0 /\ cf.ph = "top" /\ cf.k = 1 /\ cf.c = <<>>) =>
             \A g \in DOMAIN Gaps : LET r == ReadProgram(ProgramText(cf.p, Gaps[g])) IN r.ok /\ r.v = cf.p
Globals == { cf.p[n].x : n \in { m \in 1..Len(cf.p) : cf.p[m].d = "global" } }
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE z \in S : TRUE IN <<e>> \o SetToSeq(S \ {e})
Emit == (Ended /\ cf.ph # "err") =>
  LET gs == SetToSeq(Globals) IN
  PrintT(ToJson([ts |-> [g \in DOMAIN Gaps |-> ProgramText(cf.p, Gaps[g])], ends |-> cf.ph,
                 out |-> cf.out, v |-> IF cf.ph = "done" THEN cf.vs[1] ELSE Vague,
                 gs |-> IF cf.ph = "done" THEN [n \in 1..Len(gs) |-> [k |-> gs[n], v |-> cf.env[1][gs[n]]]] ELSE <<>>]))
=============================================================================
