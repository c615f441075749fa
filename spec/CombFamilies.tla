---------------------------- MODULE CombFamilies ----------------------------
(* The grammars and inputs each property is explored over.                  *)
EXTENDS Comb, FiniteSets, SequencesExt

CONSTANT Deep      \* FALSE: quick, TRUE: thorough

a1 == 97
b1 == 98
ea == GN("elm", a1)
eb == GN("elm", b1)
any == G0("any")
sab == GQ("seq", <<a1, b1>>)
one == GS("succ", "1")
soft == GS("fail", "custom")
hard == G("fail", "custom", 1, 0, <<>>, <<>>)
eoi == G0("end")
emp == G0("unit")

Bind(p, v, x, y) == GSC("bind", v, <<p, x, y>>)
And(x, y) == GC("and", <<x, y>>)
Or(x, y) == GC("or", <<x, y>>)
U(k, x) == GC(k, <<x>>)
\* fails committed after consuming one element; an element then b, committed
burn == Bind(any, "97", hard, soft)
acb  == Bind(ea, "97", eb, eb)
Rep(x, n, m, form) == G("rep", form, n, m, <<>>, <<x>>)
RepSep(x, sep, n, m, form) == G("rep", form, n, m, <<>>, <<x, sep>>)
many(x) == Rep(x, 0, -1, "many0")

L0 == {ea, eb, any, sab, one, soft, hard, eoi}
S0 == {ea, sab, one, soft, hard}
S1 == {ea, any, one, hard}
Seq2 == {"and", "skipl", "skipr"}

Mids == { And(ea, any), GC("skipl", <<any, ea>>), GC("skipr", <<ea, sab>>), burn, acb,
          U("collect", And(any, any)), U("next", any), U("discard", sab), U("map", ea),
          GC("surround", <<ea, any, eb>>), Or(ea, sab), Or(acb, ea), U("attempt", acb), U("opt", acb),
          many(ea), U("peek", ea), U("not", ea), U("exists", acb), U("last", And(any, ea)),
          GSC("filter", "97", <<any>>), GSC("mapres", "97", <<any>>),
          GC("chainl1", <<ea, eb>>) }

F01 == { GC(k, <<x, y>>) : k \in Seq2, x \in L0, y \in L0 }
  \cup { GC("surround", <<x, y, z>>) : x \in S0, y \in S0, z \in S0 }
  \cup { Bind(x, "97", y, z) : x \in {ea, any, sab, one, hard, soft}, y \in S0, z \in S0 }
  \cup { U(k, x) : k \in {"map", "discard", "collect", "last", "next"}, x \in L0 \cup Mids }
  \cup { GC(k, <<x, y>>) : k \in Seq2, x \in Mids, y \in S0 }
  \cup { GC(k, <<y, x>>) : k \in Seq2, x \in Mids, y \in S0 }
  \cup { Bind(x, "97", y, z) : x \in Mids, y \in {any, hard}, z \in {ea, one} }
  \cup { Bind(y, "97", x, z) : x \in Mids, y \in {any, one, sab}, z \in {ea} }
  \cup { GC("surround", <<x, y, any>>) : x \in Mids, y \in {any, one} }
  \cup { GC("surround", <<any, x, y>>) : x \in Mids, y \in {any, hard} }
  \cup { GC("surround", <<any, y, x>>) : x \in Mids, y \in {any} }
  \cup IF Deep THEN { GC(k, <<x, y>>) : k \in Seq2, x \in Mids, y \in Mids }
                 \cup { U(k, GC(j, <<x, y>>)) : k \in {"map", "discard", "collect", "last", "next"}, j \in Seq2, x \in L0, y \in L0 }
       ELSE {}

F02 == { Or(x, y) : x \in L0 \cup Mids, y \in L0 \cup {burn, acb} }
  \cup { Or(x, y) : x \in {soft, hard, burn, acb, sab}, y \in Mids }
  \cup { U(k, x) : k \in {"attempt", "opt"}, x \in L0 \cup Mids }
  \cup { Or(U("attempt", x), y) : x \in L0 \cup Mids, y \in {ea, any, one, hard} }
  \cup { Or(Or(x, y), z) : x \in {sab, hard, soft, acb, burn}, y \in {ea, hard, acb, sab}, z \in {any, one, hard} }
  \cup { Or(x, Or(y, z)) : x \in {sab, hard, soft, acb, burn}, y \in {ea, hard, acb, sab}, z \in {any, one, hard} }
  \cup { Or(And(x, y), z) : x \in S0, y \in S0 \cup {burn}, z \in {any, one} }
  \cup { Or(Bind(x, "97", y, z), any) : x \in {ea, any, one, sab}, y \in {eb, hard, soft, sab}, z \in {ea, soft} }
  \cup { And(U("opt", x), y) : x \in {ea, sab, acb, burn, hard}, y \in {any, eoi, ea} }
  \cup { Or(Bind(U(k, x), "97", eb, soft), any) : k \in {"attempt", "peek"}, x \in {ea, any, sab, acb} }
  \cup { GC(k, <<Or(x, y), any>>) : k \in Seq2, x \in {soft, hard, burn, sab}, y \in {ea, one, hard} }
  \cup { Rep(Or(x, y), 0, -1, "many0") : x \in {sab, burn, acb, ea}, y \in {any, eb, hard} }
  \cup IF Deep THEN { Or(x, y) : x \in Mids, y \in Mids } \cup { U("opt", Or(x, y)) : x \in Mids, y \in L0 } ELSE {}

\* forms: how the range is written in the code
Bounds == { <<0, -1, "many0">>, <<1, -1, "many1">>, <<0, -1, "full">>, <<0, -1, "from">>, <<1, -1, "from">>, <<2, -1, "from">>,
            <<0, 0, "nm">>, <<0, 1, "nm">>, <<1, 2, "nm">>, <<2, 2, "nm">>, <<2, 3, "nm">>, <<2, 1, "nm">>,
            <<0, 0, "count">>, <<1, 1, "count">>, <<2, 2, "count">>, <<3, 3, "count">>, <<2, 2, "usize">>, <<0, 0, "usize">>,
            <<0, 0, "excl">>, <<0, 1, "excl">>, <<1, 2, "excl">>, <<2, 1, "excl">>,
            <<0, 1, "to">>, <<0, 2, "to">>, <<0, 0, "toincl">>, <<0, 2, "toincl">> }
Bounds2 == { b \in Bounds : b[3] \in {"many0", "many1", "from", "nm", "excl", "count"} /\ b[2] \in {-1, 0, 1, 2} }
Items == { ea, any, sab, one, U("opt", ea), acb, burn, U("peek", ea), Or(ea, sab), hard }
Seps  == { eb, one, sab, hard, U("opt", eb), acb }

F03 == { Rep(x, b[1], b[2], b[3]) : x \in Items, b \in Bounds }
  \cup { RepSep(x, s, b[1], b[2], b[3]) : x \in {ea, any, one, U("opt", ea), acb}, s \in Seps, b \in Bounds }
  \cup { And(Rep(x, b[1], b[2], b[3]), y) : x \in {ea, sab, one}, y \in {any, eoi}, b \in Bounds2 }
  \cup { Or(Rep(x, b[1], b[2], b[3]), any) : x \in {ea, burn, acb}, b \in Bounds2 }
  \cup { Rep(Rep(x, 1, 2, "nm"), b[1], b[2], b[3]) : x \in {ea, any}, b \in Bounds2 }
  \cup { Rep(Rep(x, 0, -1, "many0"), b[1], b[2], b[3]) : x \in {ea, one}, b \in Bounds2 }
  \cup { And(RepSep(ea, eb, b[1], b[2], b[3]), any) : b \in Bounds }
  \cup IF Deep THEN { RepSep(x, s, b[1], b[2], b[3]) : x \in Items \cup Mids, s \in Seps, b \in Bounds } ELSE {}

F04 == { U(k, x) : k \in {"peek", "not", "exists"}, x \in L0 \cup Mids }
  \cup { GC(j, <<U(k, x), y>>) : j \in {"and", "skipl", "skipr"}, k \in {"peek", "not", "exists"}, x \in {ea, sab, burn, acb, many(ea), And(ea, eb)}, y \in {any, ea, eoi} }
  \cup { U(k, U(j, x)) : k \in {"peek", "not", "exists", "attempt", "collect", "next"}, j \in {"peek", "not", "exists"}, x \in {ea, sab, burn, hard, one, acb} }
  \cup { Or(U(k, x), y) : k \in {"peek", "not", "exists"}, x \in {ea, sab, burn, hard}, y \in {any, emp} }
  \cup { many(GC("skipl", <<U("not", x), any>>)) : x \in {ea, eb, sab, acb} }
  \cup { Bind(U(k, x), "97", y, any) : k \in {"peek"}, x \in {ea, any, sab, burn}, y \in {eb, ea} }
  \cup IF Deep THEN { U(k, GC(j, <<x, y>>)) : k \in {"peek", "not", "exists"}, j \in Seq2 \cup {"or"}, x \in L0 \cup Mids, y \in L0 } ELSE {}

Classes == {"space", "multispace", "alpha", "alphadigit", "digit", "digit19", "hex", "oct"}
Methods == {"space", "multispace", "whitespace", "ascii", "upper", "lower", "alpha", "digit", "zero", "nonzero",
            "alphadigit", "hex", "oct", "punct", "graphic", "control"}
\* elements beyond a byte: only the parsers of characters are given them
\* (353, 560, 65633, 65584, 1114032 agree with members in their low bits)
Wide05 == {256, 304, 353, 560, 1632, 1633, 8232, 8490, 12354, 65297, 65345, 65584, 65633, 128512, 1114032}
\* form "m": through the element's own predicate method
F05 == { GS("cls", c) : c \in Classes }
  \cup { G("cls", c, 1, 0, <<>>, <<>>) : c \in Methods }
  \cup { GN("elm", x) : x \in {0, 48, 65, 97, 127, 200, 255} }
  \cup { any }
  \cup { GQ(k, q) : k \in {"of", "noneof", "pred"}, q \in {<<>>, <<97>>, <<97, 48, 200>>, <<0, 255>>, <<9, 10, 98, 98>>} }
  \cup { GNM(k, p[1], p[2]) : k \in {"in", "until"}, p \in {<<48, 57>>, <<97, 97>>, <<98, 97>>, <<97, 122>>, <<0, 255>>, <<65, 66>>} }
  \* sets given as ranges: m = kind of range
  \cup { G(k, r[1], r[2], r[3], r[4], <<>>) : k \in {"of", "noneof"},
           r \in { <<"rincl", 48, 50, <<48, 49, 50>>>>, <<"rexcl", 48, 50, <<48, 49>>>>, <<"rincl", 50, 48, <<>>>>, <<"rincl", 48, 48, <<48>>>>, <<"rexcl", 50, 48, <<>>>>, <<"rexcl", 48, 48, <<>>>>,
                   <<"rto", 3, 0, <<0, 1, 2>>>>,
                   <<"rtoincl", 2, 0, <<0, 1, 2>>>>, <<"arr", 0, 0, <<97, 48, 51>>>>, <<"str", 0, 0, <<97, 48, 51>>>>,
                   <<"rfrom", 250, 0, SetToSeq(250..255 \cup Wide05)>>, <<"rfrom", 0, 0, SetToSeq(0..255 \cup Wide05)>>,
                   <<"rincl", 201, 8490, SetToSeq(201..255 \cup {z \in Wide05 : z <= 8490})>>,
                   <<"rexcl", 1632, 12354, SetToSeq({z \in Wide05 : z >= 1632 /\ z < 12354})>>,
                   <<"rfull", 0, 0, SetToSeq(0..255 \cup Wide05)>> } }

Alt(q) == GC("alt", q)
Cat(q) == GC("cat", q)
Star(x) == U("star", x)
Chr(q) == GQ("chr", q)
Rx(s, t) == GSC("regex", s, <<t>>)
ca == Chr(<<97>>)
cb == Chr(<<98>>)
eps == G0("eps")
Plus(x) == Cat(<<x, Star(x)>>)
Opt(x) == Alt(<<x, eps>>)
Regexes == { Rx("a", ca), Rx("ab", Cat(<<ca, cb>>)), Rx("a*", Star(ca)), Rx("a+", Plus(ca)), Rx("a?b", Cat(<<Opt(ca), cb>>)),
             Rx("[ab]+", Plus(Chr(<<97, 98>>))), Rx("a|ab", Alt(<<ca, Cat(<<ca, cb>>)>>)), Rx("ab|a", Alt(<<Cat(<<ca, cb>>), ca>>)),
             Rx("(a|b)*b", Cat(<<Star(Alt(<<ca, cb>>)), cb>>)), Rx(".*", Star(G0("dot"))), Rx(".", G0("dot")), Rx("..", Cat(<<G0("dot"), G0("dot")>>)),
             Rx("", eps), Rx("b*a", Cat(<<Star(cb), ca>>)), Rx("\\u{3042}a?", Cat(<<Chr(<<12354>>), Opt(ca)>>)),
             Rx("b|a", Alt(<<cb, ca>>)), Rx("(ab)+", Plus(Cat(<<ca, cb>>))) }

Lits == { <<>>, <<97>>, <<98>>, <<97, 98>>, <<98, 97>>, <<97, 97>>, <<97, 98, 97>>, <<65, 98>>, <<12354, 97>> }
Runs6 == { GQ(k, q) : k \in {"while0", "while1", "till0", "till1"}, q \in {<<>>, <<97>>, <<98>>, <<97, 98>>, <<12354>>} }
  \cup { G("whilenm", "", p[1], p[2], q, <<>>) : p \in {<<0, 0>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 3>>, <<2, 2>>, <<3, 2>>}, q \in {<<97>>, <<97, 98>>} }
  \cup { GN(k, n) : k \in {"take", "skip"}, n \in 0..4 }
Leaf6 == { GQ(k, q) : k \in LitKinds, q \in Lits } \cup Runs6 \cup Regexes \cup {eoi, emp}
F06 == Leaf6
  \cup { GC("and", <<x, y>>) : x \in Leaf6, y \in {any, U("next", emp)} }
  \cup { GC("skipl", <<any, x>>) : x \in Leaf6 }
  \cup { U("collect", x) : x \in Leaf6 }
  \cup { Or(x, any) : x \in Leaf6 }

pl == 43
mi == 45
opr == GQ("of", <<pl, mi>>)
Operands == { GQ("of", <<a1, b1>>), ea, sab, And(ea, eb), Or(ea, hard), acb, U("opt", ea), soft, hard }
Operators == { opr, GN("elm", pl), GQ("seq", <<pl, pl>>), GQ("seq", <<pl, mi>>), Or(GN("elm", pl), hard), GC("skipr", <<opr, U("not", opr)>>), soft }
F07 == { G(k, "d", 0, 0, <<>>, <<x, o>>) : k \in ChainKinds, x \in Operands, o \in Operators }
  \* operators that consume nothing (the operand does)
  \cup { G(k, "d", 0, 0, <<>>, <<x, one>>) : k \in ChainKinds, x \in {ea, sab, GQ("of", <<a1, b1>>), acb} }
  \cup { And(G(k, "d", 0, 0, <<>>, <<x, opr>>), y) : k \in ChainKinds, x \in {ea, sab}, y \in {any, eoi} }
  \cup { Or(G(k, "d", 0, 0, <<>>, <<x, opr>>), any) : k \in ChainKinds, x \in {ea, acb} }
  \* two precedence levels
  \cup { G(k, "d", 0, 0, <<>>, <<G(j, "e", 0, 0, <<>>, <<ea, GN("elm", mi)>>), GN("elm", pl)>>) : k \in ChainKinds, j \in {"chainl1", "chainr1"} }

Wraps == {"name", "log", "cache", "lazy"}
Bad == { ea, sab, hard, soft, burn, acb, eoi, GQ("tag", <<a1, b1>>), GQ("of", <<a1>>), GN("take", 2), And(ea, eb), Or(sab, eb), GSC("filter", "97", <<any>>),
         GSC("mapres", "97", <<any>>), Rep(ea, 2, 3, "nm"), U("not", ea), U("peek", sab), GQ("while1", <<b1>>), GS("fail", "expect>custom"),
         GC("chainl1", <<ea, eb>>), GQ("till1", <<b1>>), GS("fail", "incomplete"), GS("fail", "mismatch"), GS("fail", "conversion") }
F09 == Bad
  \cup { U(k, x) : k \in Wraps, x \in Bad }
  \cup { U(k, U(j, x)) : k \in Wraps, j \in Wraps, x \in Bad }
  \cup { GC(k, <<any, U(j, x)>>) : k \in {"and", "skipl"}, j \in {"name", "log"}, x \in Bad }
  \cup { Or(x, y) : x \in Bad, y \in {U("name", eb), U("log", eb), hard} }
  \cup { Or(U(k, x), any) : k \in Wraps, x \in Bad }
  \cup { Rep(U("name", x), 1, -1, "many1") : x \in Bad }
  \cup { U("attempt", U(k, x)) : k \in Wraps, x \in Bad }
  \cup { U(k, And(any, x)) : k \in Wraps, x \in Bad }
  \cup IF Deep THEN { U(k, And(x, y)) : k \in Wraps, x \in Bad, y \in Bad } ELSE {}

Vals == {"97", "[97,98]", "1", "(97,98)"}
Sources == {ea, any, sab, one, soft, hard, burn, acb, And(ea, any), U("map", any), many(ea), U("peek", any)}
Checked == {"filter", "filternot", "mapres"}
F10 == { GSC(k, v, <<x>>) : k \in Checked, v \in Vals, x \in L0 \cup Mids }
  \cup { Or(GSC(k, v, <<x>>), y) : k \in Checked, v \in {"97", "[97,98]"}, x \in Sources, y \in {any, emp, hard} }
  \cup { GC(j, <<GSC(k, "97", <<x>>), y>>) : j \in Seq2, k \in Checked, x \in Sources, y \in {any, ea} }
  \cup { GSC(k, "97", <<GSC(j, "97", <<x>>)>>) : k \in Checked, j \in Checked, x \in Sources }
  \cup { many(GSC(k, "97", <<x>>)) : k \in Checked, x \in {any, ea, sab, acb} }
  \cup { Bind(any, "97", GSC(k, "97", <<x>>), any) : k \in Checked, x \in {any, ea, sab} }
  \cup { U(j, GSC(k, v, <<any>>)) : j \in {"opt", "attempt", "not", "exists", "peek", "collect"}, k \in Checked, v \in {"97", "98"} }

FamilyOf(f) == SetToSeq(CASE f = "C01" -> F01 [] f = "C02" -> F02 [] f = "C03" -> F03 [] f = "C04" -> F04 [] f = "C05" -> F05
                          [] f = "C06" -> F06 [] f = "C07" -> F07 [] f = "C09" -> F09 [] f = "C10" -> F10)

Words(A, n) == UNION { [1..k -> A] : k \in 0..n }
Started(W, offs) == { <<x, o>> \in W \X offs : o <= Len(x) }
InputsOf(f) ==
  CASE f \in {"C01", "C02", "C04", "C10"} -> Started(Words({a1, b1}, IF Deep THEN 4 ELSE 3), IF Deep THEN 0..2 ELSE 0..1)
    [] f = "C03" -> Started(Words({a1, b1}, IF Deep THEN 5 ELSE 4), {0}) \cup Started(Words({a1, b1}, 3), {1})
    [] f = "C05" -> { <<<<>>, 0>> } \cup { <<<<x>>, 0>> : x \in 0..255 \cup Wide05 }
                    \cup { <<<<x, y>>, o>> : x \in {97, 32, 200, 47, 58}, y \in {48, 97, 10}, o \in 0..2 }
    [] f = "C06" -> Started(Words({97, 98}, IF Deep THEN 6 ELSE 4), IF Deep THEN 0..3 ELSE 0..1)
                    \cup Started(Words({97, 65, 66, 12354}, IF Deep THEN 4 ELSE 2), 0..1)
    [] f = "C07" -> Started(Words({a1, pl}, IF Deep THEN 6 ELSE 5), {0, 1}) \cup Started(Words({a1, b1, pl, mi}, IF Deep THEN 5 ELSE 3), {0})
    [] f = "C09" -> Started(Words({a1, b1}, IF Deep THEN 4 ELSE 3), 0..3) \cup Started(Words({a1, 255}, 2), 0..2)

------------------------------------------------------------------------------
(* Long inputs: counts, lengths and offsets beyond a handful.               *)

Rept(q, n) == [x \in 1..n * Len(q) |-> q[((x - 1) % Len(q)) + 1]]
Lens == IF Deep THEN {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} ELSE {9, 17, 33, 66, 258}
RECURSIVE Nest(_, _, _), NestL(_, _, _)
Nest(k, x, n) == IF n = 1 THEN x ELSE GC(k, <<x, Nest(k, x, n - 1)>>)
NestL(k, x, n) == IF n = 1 THEN x ELSE GC(k, <<NestL(k, x, n - 1), x>>)
RECURSIVE Wrapped(_, _, _)
Wrapped(ks, x, n) == IF n = 0 THEN x ELSE U(ks[(n % Len(ks)) + 1], Wrapped(ks, x, n - 1))
as == many(ea)
tail_ == And(as, eb)
Deeps == {3, 6, 11}
Big(n) == [x \in 1..n |-> (x * 37) % 251]

LongOf(f) == SetToSeq(
  CASE f = "C01" -> { Nest(k, x, n) : k \in Seq2, x \in {any, ea}, n \in Deeps } \cup { NestL(k, x, n) : k \in Seq2, x \in {any, ea}, n \in Deeps }
           \cup { U(k, x) : k \in {"map", "discard", "collect", "last", "next"}, x \in {as, tail_, many(any)} }
           \cup { GC(k, <<as, x>>) : k \in Seq2, x \in {eoi, eb, U("next", eoi)} }
           \cup { Bind(as, "[97]", any, eb), Bind(GN("take", 8), "x", soft, as), GC("surround", <<as, many(eb), many(any)>>) }
    [] f = "C02" -> { Nest("or", x, n) : x \in {soft, sab, eb}, n \in Deeps } \cup { Or(Nest("or", x, 6), y) : x \in {soft, eb, hard}, y \in {as, any} }
           \cup { Or(x, y) : x \in {tail_, U("attempt", tail_), GC("skipl", <<as, hard>>), GC("skipl", <<as, soft>>), Bind(as, "x", eb, eb)}, y \in {any, many(any)} }
           \cup { U(k, x) : k \in {"attempt", "opt"}, x \in {tail_, as, Bind(as, "x", eb, eb)} }
           \cup { many(Or(sab, ea)), many(Or(U("attempt", acb), any)) }
    [] f = "C03" -> { Rep(x, n, n, "count") : x \in {ea, any}, n \in Lens } \cup { Rep(ea, n, n + 3, "nm") : n \in Lens } \cup { Rep(ea, 0, n, "to") : n \in Lens }
           \cup { Rep(ea, 0, n, "excl") : n \in Lens } \cup { Rep(any, n, -1, "from") : n \in Lens } \cup { Rep(sab, n, -1, "from") : n \in Lens }
           \cup { as, Rep(ea, 1, -1, "many1"), Rep(sab, 1, -1, "many1"), many(GN("take", 3)) }
           \cup { RepSep(ea, eb, n, m, "nm") : n \in {0, 8}, m \in {8, 12, 40} } \cup { RepSep(ea, eb, 0, -1, "many0"), RepSep(any, ea, 1, -1, "many1"), RepSep(sab, U("opt", eb), 0, -1, "many0") }
           \cup { many(Rep(ea, 1, 7, "nm")), Rep(Rep(ea, 5, 5, "count"), 2, 20, "nm"), many(RepSep(ea, eb, 1, 5, "nm")) }
    [] f = "C04" -> { U(k, x) : k \in {"peek", "not", "exists"}, x \in {as, tail_, GN("take", 40), GC("skipl", <<as, sab>>)} }
           \cup { GC(j, <<U(k, x), as>>) : j \in Seq2, k \in {"peek", "not", "exists"}, x \in {as, tail_} }
           \cup { many(GC("skipl", <<U("not", sab), any>>)), many(And(U("exists", eb), any)), GC("skipl", <<as, U("peek", eb)>>) }
    [] f = "C05" -> { GQ(k, Big(n)) : k \in {"of", "noneof", "pred"}, n \in {9, 33, 70, 140} } \cup { GNM(k, 33, 126) : k \in {"in", "until"} }
    [] f = "C06" -> { GQ(k, Rept(q, n)) : k \in LitKinds, q \in {<<97>>, <<97, 98>>}, n \in {5, 9, 17, 33, 129} } \cup { GQ(k, Rept(<<97>>, n) \o <<98>>) : k \in LitKinds, n \in {8, 32} }
           \cup { GQ(k, q) : k \in {"while0", "while1", "till0", "till1"}, q \in {<<97>>, <<98>>, <<97, 98>>} }
           \cup { G("whilenm", "", n, n + 20, <<97>>, <<>>) : n \in {8, 16, 32, 64, 250} } \cup { GN(k, n) : k \in {"take", "skip"}, n \in Lens }
           \cup { U("collect", And(GN("skip", n), any)) : n \in Lens } \cup { Rx("a*", Star(ca)), Rx("(ab)+", Plus(Cat(<<ca, cb>>))), Rx(".*", Star(G0("dot"))) }
           \cup { GC("skipl", <<GN("take", 8), GQ(k, <<97, 97, 98>>)>>) : k \in LitKinds }
    [] f = "C07" -> { G(k, "d", 0, 0, <<>>, <<x, GN("elm", pl)>>) : k \in ChainKinds, x \in {ea, any, as} }
           \cup { And(G(k, "d", 0, 0, <<>>, <<ea, GN("elm", pl)>>), eoi) : k \in ChainKinds }
    [] f = "C09" -> { GQ(k, Rept(<<97>>, n) \o <<98>>) : k \in LitKinds, n \in {3, 7, 8, 16, 65, 257} } \cup { GQ(k, Rept(<<97, 98>>, n)) : k \in LitKinds, n \in {3, 40} }
           \cup { And(GN("take", 5), GQ(k, <<97, 97, 98, 97>>)) : k \in LitKinds } \cup { U("name", And(as, GQ(k, <<98, 97, 97>>))) : k \in LitKinds }
           \cup { G("whilenm", "", 40, 50, <<97>>, <<>>), GN("take", 70), GN("skip", 70), Rep(sab, 40, 50, "nm"), RepSep(ea, eb, 40, 50, "nm"), GC("chainl1", <<sab, hard>>) }
           \cup { Wrapped(ks, And(as, x), n) : ks \in {<<"name">>, <<"log">>, <<"name", "log">>, <<"cache", "lazy">>}, x \in {eb, hard, acb, GN("take", 9), eoi}, n \in {0, 1, 4, 9} }
           \cup { Rep(U("name", eb), 1, -1, "many1"), Rep(ea, 400, -1, "from"), GSC("filter", "x", <<as>>), GSC("mapres", "x", <<GC("skipl", <<as, sab>>)>>) }
    [] f = "C10" -> { GSC(k, v, <<x>>) : k \in Checked, v \in {List(Rept(<<"97">>, n)) : n \in Lens} \cup {"97"}, x \in {as, U("collect", as), GC("skipl", <<as, any>>)} }
           \cup { many(GSC(k, "98", <<any>>)) : k \in Checked } \cup { Or(GSC(k, "[97]", <<as>>), tail_) : k \in Checked }
    [] OTHER -> {})

LongInputs(f) ==
  CASE f = "C05" -> { <<<<x>>, 0>> : x \in 0..255 }
    [] f = "C07" -> { <<Rept(<<a1, pl>>, n) \o q, 0>> : n \in Lens, q \in {<<>>, <<a1>>, <<b1>>} } \cup { <<Rept(<<pl, a1>>, n), o>> : n \in {9, 66}, o \in {0, 3} }
    [] OTHER -> { <<Rept(<<a1>>, n), 0>> : n \in Lens } \cup { <<Rept(<<a1>>, n - 1) \o <<b1>>, 0>> : n \in Lens }
                \cup { <<Rept(<<a1, b1>>, n), 0>> : n \in Lens } \cup { <<Rept(<<a1>>, n) \o <<b1, a1>>, 7>> : n \in Lens } \cup { <<Rept(<<a1, a1, b1>>, 12), o>> : o \in {9, 30, 36} }

------------------------------------------------------------------------------
(* Literals against inputs that almost are the literal: a sequence of       *)
(* <<grammar, inputs>>.                                                     *)

\* every way the byte could be confused with another
Near(x) == {x, (x + 32) % 256, (x + 224) % 256, (x + 64) % 256, (x + 128) % 256, x + 1, IF x = 0 THEN 7 ELSE x - 1}
           \cup (IF x \in {75, 107} THEN {8490} ELSE {}) \cup (IF x \in {83, 115} THEN {383} ELSE {}) \cup (IF x \in {73, 105} THEN {304, 305} ELSE {})
Literals == { <<x>> : x \in 0..127 \cup {233, 201, 223, 255, 8490, 383, 304, 12354, 65313, 128512} }
\* regular expressions against line ends and characters of one, two and four bytes
Odd == {97, 10, 233, 128512}
RxOdd == { Rx("a", ca), Rx("a*", Star(ca)), Rx(".", G0("dot")), Rx("..", Cat(<<G0("dot"), G0("dot")>>)), Rx(".*", Star(G0("dot"))), Rx(".*a", Cat(<<Star(G0("dot")), ca>>)),
           Rx("[^a]+", Plus(Chr(<<10, 233, 128512>>))), Rx("\\n?a", Cat(<<Opt(Chr(<<10>>)), ca>>)), Rx("\\x{e9}|a", Alt(<<Chr(<<233>>), ca>>)),
           Rx("[a\\x{1f600}]*", Star(Chr(<<97, 128512>>))), Rx("(a|\\n)*", Star(Chr(<<97, 10>>))) }
\* offsets far into the input
Far == IF Deep THEN {1000, 4100, 33000, 65537} ELSE {4100, 65537}
FarWord(n) == [x \in 1..n + 3 |-> IF x = n + 2 THEN b1 ELSE a1]
ExtraOf(f) ==
  CASE f = "C01" -> SetToSeq(
           { <<GC(k, <<GN("skip", n), x>>), {<<FarWord(n), 0>>}>> : k \in Seq2, n \in Far, x \in {U("next", ea), U("last", And(ea, eb)), GC("skipl", <<sab, eoi>>), GC("and", <<sab, U("next", any)>>)} }
           \cup { <<U("next", x), {<<FarWord(n), n>>}>> : n \in Far, x \in {ea, sab, U("collect", any)} })
    [] f = "C09" -> SetToSeq(
           { <<U(k, GC("skipl", <<GN("skip", n), x>>)), {<<FarWord(n), 0>>, <<FarWord(n + 7), 7>>}>> : k \in {"attempt", "name"}, n \in Far, x \in {eb, GQ("seq", <<a1, a1>>), GQ("tag", <<a1, b1, b1>>), And(sab, eb)} })
    [] f = "C06" -> SetToSeq(
           { <<g, Started(Words(Odd, IF Deep THEN 4 ELSE 3), 0..1)>> : g \in RxOdd } \cup
           { <<GQ(k, q), {<<<<y>>, 0>> : y \in Near(q[1])} \cup {<<<<97, y>>, 1>> : y \in Near(q[1])}>> : k \in LitKinds, q \in Literals }
           \cup { <<GQ(k, <<97>> \o q), {<<<<97, y, 97>>, 0>> : y \in Near(q[1])}>> : k \in LitKinds, q \in Literals }
           \cup { <<GQ(k, q), {<<<<y, 97>>, 0>> : y \in Near(q[1])} \cup {<<<<97, y>>, 0>> : y \in Near(q[1])}>> : k \in {"while0", "while1", "till0", "till1"}, q \in Literals })
    [] OTHER -> <<>>
=============================================================================
