----------------------------- MODULE CombValues -----------------------------
(***************************************************************************)
(* C11: results, errors, commit statuses and parse states as values.       *)
(* fam "result": a result and a history of operations on it; fam "error":  *)
(* an error and what is wrapped around it; fam "state": a parse state and  *)
(* a history of advances; fam "status": two statuses.  Every state is      *)
(* printed with all that can be observed, for replay on the real types.    *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANT Deep

VARIABLES fam, from, ops, val
vars == <<fam, from, ops, val>>

Op(o, n, b) == [o |-> o, n |-> n, b |-> b]

------------------------------------------------------------------------------
(* Errors: a kind, the input with offset and length, a message, what is inside. *)

\* a length beyond every input
Huge == 2147483000
Err(k, w, o, n, m, in) == [k |-> k, w |-> w, o |-> o, n |-> n, m |-> T_(m), in |-> in]
Leaves == { Err("incomplete", <<>>, 0, 0, "", <<>>), Err("custom", <<>>, 3, 0, "c", <<>>) }
          \cup { Err(k, w, o, n, m, <<>>) : k \in {"mismatch", "conversion"}, w \in {<<>>, <<97>>, <<97, 98, 99>>, <<97, 195, 169, 98>>, <<0, 32, 10, 0>>, <<32, 127, 9, 97, 32>>}, o \in 0..4, n \in 0..5 \cup {Huge}, m \in {"", "m: x"} }
          \cup { Err("mismatch", [x \in 1..300 |-> 97 + (x % 26)], 250, n, "long", <<>>) : n \in {0, 49, 50, 51, 300} }
WrapOps == { Op(o, n, "w") : o \in {"custom", "expect"}, n \in {0, 7} } \cup { Op("custom", 1, "") }
Wrap(e, o) == Err(o.o, <<>>, o.n, 0, o.b, <<e>>)

\* the input an error shows: from its offset, its length, both kept within the input; wrapping shows what is inside
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE InputOf(_), Shown(_)
InputOf(e) == CASE e.k \in {"mismatch", "conversion"} -> <<SubSeq(e.w, Min(e.o, Len(e.w)) + 1, Min(e.o + e.n, Len(e.w)))>>
                [] e.in = <<>> -> <<>>
                [] OTHER -> InputOf(e.in[1])
Shown(e) ==
  CASE e.k = "incomplete" -> T_("Incomplete")
    [] e.k = "mismatch" -> T_("Mismatch at ") \o DecText(e.o) \o T_(": ") \o e.m
    [] e.k = "conversion" -> T_("Conversion failed at ") \o DecText(e.o) \o T_(": ") \o e.m
    [] e.k = "expect" -> e.m \o T_(" at ") \o DecText(e.o) \o T_(": ") \o Shown(e.in[1])
    [] e.in = <<>> -> e.m \o T_(" at ") \o DecText(e.o)
    [] OTHER -> e.m \o T_(" at ") \o DecText(e.o) \o T_(", (inner: ") \o Shown(e.in[1]) \o T_(")")

\* bytes as UTF-8 (up to two bytes a character here): the codes, or <<-1>> if they are none
RECURSIVE Utf8(_)
Utf8(q) == IF Len(q) = 0 THEN <<>>
           ELSE IF q[1] < 128 THEN LET r == Utf8(Tail(q)) IN IF r = <<-1>> THEN r ELSE <<q[1]>> \o r
           ELSE IF q[1] \in 194..223 /\ Len(q) > 1 /\ q[2] \in 128..191
                THEN LET r == Utf8(From(q, 3)) IN IF r = <<-1>> THEN r ELSE <<(q[1] - 192) * 64 + q[2] - 128>> \o r
           ELSE <<-1>>
ByteString(e) == LET i == InputOf(e) IN IF i = <<>> THEN <<>> ELSE <<IF Utf8(i[1]) = <<-1>> THEN <<>> ELSE Utf8(i[1])>>

------------------------------------------------------------------------------
(* Results *)

Good(v, n) == [ok |-> TRUE, v |-> T_(v), n |-> n, e |-> <<>>, c |-> FALSE]
Bad(e, c) == [ok |-> FALSE, v |-> <<>>, n |-> 0, e |-> <<e>>, c |-> c]
E0 == Err("mismatch", <<97, 98>>, 0, 1, "no", <<>>)
E1 == Err("custom", <<>>, 2, 0, "late", <<>>)
Results == { Good("v", n) : n \in {0, 1, 5} } \cup { Bad(e, c) : e \in {E0, Err("incomplete", <<>>, 0, 0, "", <<>>)}, c \in BOOLEAN }
ResultOps == { Op("uncommit", 0, ""), Op("commit", 0, ""), Op("commit", 1, ""), Op("map", 0, ""), Op("mapnone", 0, ""), Op("then", 0, ""), Op("fail", 0, ""), Op("fail", 1, ""), Op("maperr", 9, "w"),
               Op("advance", 0, ""), Op("advance", 3, ""), Op("clone", 0, "") }
Calls(r, o) ==
  CASE o.o = "uncommit" -> [r EXCEPT !.c = FALSE]
    [] o.o = "commit" -> IF r.ok THEN r ELSE [r EXCEPT !.c = @ \/ o.n = 1]
    [] o.o = "map" -> IF r.ok THEN [r EXCEPT !.v = T_("m(") \o @ \o T_(")"), !.n = 2 * @ + 1] ELSE r
    [] o.o = "mapnone" -> IF r.ok THEN [r EXCEPT !.v = T_("()"), !.n = 0] ELSE r
    [] o.o = "then" -> IF r.ok THEN [r EXCEPT !.v = T_("f(") \o @ \o T_(",") \o DecText(r.n) \o T_(")"), !.n = @ + 4] ELSE r
    [] o.o = "fail" -> IF r.ok THEN Bad(E1, o.n = 1) ELSE r
    [] o.o = "maperr" -> IF r.ok THEN r ELSE [r EXCEPT !.e = <<Err("custom", <<>>, o.n, 0, o.b, r.e)>>]
    [] o.o = "advance" -> IF r.ok THEN [r EXCEPT !.n = @ + o.n] ELSE r
    [] o.o = "clone" -> r

------------------------------------------------------------------------------
(* Parse states: an input and an offset in it *)

States == { [w |-> w, o |-> o] : w \in {<<>>, <<97>>, <<97, 98, 99, 100, 101>>, [x \in 1..300 |-> x % 256]}, o \in {0, 1, 5, 256} }
Advances == { Op("advance", n, "") : n \in {0, 1, 2, 5, 299} } \cup { Op("clone", 0, "") }

------------------------------------------------------------------------------
Init == \/ fam = "result" /\ from \in Results /\ ops = <<>> /\ val = from
        \/ fam = "error" /\ from \in Leaves /\ ops = <<>> /\ val = from
        \/ fam = "state" /\ from \in { st \in States : st.o <= Len(st.w) } /\ ops = <<>> /\ val = from
        \/ fam = "status" /\ from \in { [x |-> x, y |-> y] : x \in BOOLEAN, y \in BOOLEAN } /\ ops = <<>> /\ val = [x |-> from.x \/ from.y]
Depth == CASE fam = "result" -> IF Deep THEN 5 ELSE 4
           [] fam = "error" -> IF Deep THEN 4 ELSE 2
           [] fam = "state" -> IF Deep THEN 5 ELSE 3
           [] OTHER -> 0
Next == /\ Len(ops) < Depth
        /\ CASE fam = "result" -> \E o \in ResultOps : val' = Calls(val, o) /\ ops' = Append(ops, o)
             [] fam = "error" -> \E o \in WrapOps : val' = Wrap(val, o) /\ ops' = Append(ops, o)
             [] fam = "state" -> \E o \in Advances : /\ val.o + o.n <= Len(val.w)
                                                     /\ val' = [val EXCEPT !.o = @ + o.n] /\ ops' = Append(ops, o)
        /\ UNCHANGED <<fam, from>>
Spec == Init /\ [][Next]_vars

\* a success carries no error, a failure no value; a failure never becomes a success; the commitment goes only by being taken away
Either == fam = "result" => IF val.ok THEN val.e = <<>> /\ ~ val.c ELSE Len(val.e) = 1 /\ val.v = <<>> /\ val.n = 0
Failed == [][fam = "result" /\ ~ val.ok => /\ ~ val'.ok
                                           /\ (val.c /\ ~ val'.c) => ops'[Len(ops')].o = "uncommit"]_vars
\* the input shown lies in the input; wrapping does not change it
Within == fam = "error" => /\ InputOf(val) = InputOf(from)
                           /\ InputOf(val) # <<>> => Len(InputOf(val)[1]) <= from.n
Moves == fam = "state" => val.w = from.w /\ val.o >= from.o /\ val.o <= Len(val.w)
Emit ==
  CASE fam = "result" -> PrintT(ToJson([a |-> fam, from |-> from, ops |-> ops, r |-> val, shown |-> IF val.ok THEN <<>> ELSE Shown(val.e[1])]))
    [] fam = "error" -> PrintT(ToJson([a |-> fam, e |-> val, input |-> InputOf(val), bytes |-> ByteString(val), shown |-> Shown(val)]))
    [] fam = "state" -> PrintT(ToJson([a |-> fam, from |-> from, ops |-> ops, o |-> val.o]))
    [] fam = "status" -> PrintT(ToJson([a |-> fam, x |-> from.x, y |-> from.y, r |-> val.x]))
=============================================================================
