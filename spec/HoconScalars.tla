---------------------------- MODULE HoconScalars ----------------------------
(***************************************************************************)
(* Literals (H03).  The machine writes one literal a character (or escape) *)
(* at a time, keeping what it has written so far to mean: a number's sign, *)
(* digits and exponent; a string's characters and the UTF-16 units not yet *)
(* made into characters; an array's finished elements.  Whenever what is   *)
(* written is a whole literal, the reader finds exactly that value in it,  *)
(* whatever follows it (Means); durations are exact (Exact); the texts are *)
(* replayed on the real crate, through all typed accessors.                *)
(***************************************************************************)
EXTENDS Hocon, Json

CONSTANT Deep

VARIABLES kind, q, ph, val
vars == <<kind, q, ph, val>>

(* ---- numbers ---- *)
\* val = [neg, ds (digits), fr (how many of them after the point), eneg, ex]
Num0 == [neg |-> FALSE, ds |-> <<>>, fr |-> 0, eneg |-> FALSE, ex |-> 0]
NumAlphabet == {45, 43, 46, 48, 49, 55, 69, 101}
NumLen == IF Deep THEN 8 ELSE 6
Whole0 == {"zero", "int", "frac", "exp"}
Digit_(v, ch) == [v EXCEPT !.ds = Append(@, ch - 48)]
\* <<phase, value>> after ch; phase "no" if ch cannot stand here
NumStep(p, v, ch) ==
  LET dig == ch \in Digit IN
  CASE p = "start" /\ ch = 45 -> <<"sign", [v EXCEPT !.neg = TRUE]>>
    [] p \in {"start", "sign"} /\ ch = 48 -> <<"zero", Digit_(v, ch)>>
    [] p \in {"start", "sign", "int"} /\ dig -> <<"int", Digit_(v, ch)>>
    [] p \in {"zero", "int"} /\ ch = 46 -> <<"point", v>>
    [] p \in {"point", "frac"} /\ dig -> <<"frac", [Digit_(v, ch) EXCEPT !.fr = @ + 1]>>
    [] p \in {"zero", "int", "frac"} /\ ch \in {69, 101} -> <<"e", v>>
    [] p = "e" /\ ch \in {43, 45} -> <<"esign", [v EXCEPT !.eneg = ch = 45]>>
    [] p \in {"e", "esign", "exp"} /\ dig -> <<"exp", [v EXCEPT !.ex = @ * 10 + ch - 48]>>
    [] OTHER -> <<"no", v>>
NumVal(v) == Norm(v.neg, v.ds, (IF v.eneg THEN - v.ex ELSE v.ex) - v.fr)
\* the crate keeps at most 28 digits after the point: those are left out
Small(v) == v.ex <= 9
LongNums == { T_(x) : x \in { "12345678901234567890", "-98765432109876543210", "1234567890.0987654321", "0.00000000000000000001",
                              "9007199254740993", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "9223372036854775808",
                              "4294967295", "4294967296", "2147483647", "-2147483648", "255", "256", "-128", "-129", "65535", "65536", "-32768", "127", "128",
                              "1.0", "100", "1200.500", "1e20", "-1.25E+3", "12.5e-7", "1e-20", "3.14159265358979323846", "0.1e1", "10E-1", "99999999999999999999" } }

(* ---- strings ---- *)
\* val = [s (characters), us (pending units), ch (the quote)]
Str0(ch) == [s |-> <<>>, us |-> <<>>, ch |-> ch]
Plain == {32, 9, 35, 44, 46, 47, 48, 58, 61, 65, 91, 93, 117, 122, 123, 125, 36, 1, 127, 233, 8364, 65536 + 62977}
UnitsW == { <<48, 48, 52, 49>>, <<48, 48, 101, 57>>, <<50, 48, 65, 99>>, <<68, 56, 51, 100>>, <<100, 99, 48, 48>>, <<102, 102, 102, 102>>, <<48, 48, 48, 97>> }
StrLen == IF Deep THEN 3 ELSE 2
Settle(v) == [v EXCEPT !.s = @ \o FromUtf16(v.us), !.us = <<>>]
StrAtoms(v) == { [q |-> <<c>>, v |-> [Settle(v) EXCEPT !.s = Append(@, c)]] : c \in Plain \cup ({34, 39} \ {v.ch}) }
               \cup { [q |-> <<92, c>>, v |-> [Settle(v) EXCEPT !.s = Append(@, Escapes[c])]] : c \in DOMAIN Escapes }
               \cup { [q |-> <<92, 117>> \o h, v |-> [v EXCEPT !.us = Append(@, HexNum(h))]] : h \in UnitsW }

(* ---- arrays ---- *)
\* val = [es, open (elements of the enclosing arrays, outermost first), n (elements and arrays begun)]; ph: "elem" or "sep" is due
Elems == { [q |-> T_("1"), v |-> Int_(1)], [q |-> T_("-0.5"), v |-> Num_(Norm(TRUE, <<5>>, -1))], [q |-> T_("2 s"), v |-> Dur_(Norm(FALSE, <<2>>, 9))],
           [q |-> T_("true"), v |-> Bool_(TRUE)], [q |-> T_("null"), v |-> Null_], [q |-> <<34, 44, 93, 34>>, v |-> Str_(<<44, 93>>)],
           [q |-> <<39, 39>>, v |-> Str_(<<>>)], [q |-> T_("{}"), v |-> Obj_(<<>>)], [q |-> T_("{k = [7]}"), v |-> Obj_(<<Prop(<<T_("k")>>, Arr_(<<Int_(7)>>))>>)] }
ArrLen == IF Deep THEN 4 ELSE 3
ArrSeps == IF Deep THEN 3 ELSE 2
Seps == { <<44>>, <<32, 44, 10>>, T_(" # c, ]") \o <<10, 44, 9>> }

(* ---- long strings and arrays ---- *)
RECURSIVE NestArr(_)
NestArr(n) == IF n = 1 THEN Arr_(<<>>) ELSE Arr_(<<NestArr(n - 1)>>)
Repeat(a, n) == [x \in 1..n * Len(a) |-> a[((x - 1) % Len(a)) + 1]]
Lengths == IF Deep THEN {15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300} ELSE {17, 64, 129, 257}
Bigs == { [q |-> <<34>> \o Repeat(a[1], n) \o <<34>>, v |-> Str_(Repeat(a[2], n))] : n \in Lengths,
            a \in {<<T_("a"), T_("a")>>, <<<<233>>, <<233>>>>, <<<<92, 110>>, <<10>>>>, <<<<92>> \o T_("u0041b"), T_("Ab")>>, <<<<92>> \o T_("ud83d") \o <<92>> \o T_("ude00"), <<128512>>>>} }
        \cup { [q |-> <<91>> \o Repeat(T_("1,"), n) \o T_("2]"), v |-> Arr_([x \in 1..n + 1 |-> Int_(IF x = n + 1 THEN 2 ELSE 1)])] : n \in Lengths }
        \cup { [q |-> Repeat(<<91>>, n) \o Repeat(<<93>>, n), v |-> NestArr(n)] : n \in {5, 12, 20} }
        \cup { [q |-> d \o Repeat(T_("0"), n), v |-> Num_(Norm(FALSE, <<7>>, n))] : n \in {5, 12, 20, 24}, d \in {T_("7")} }
        \cup { [q |-> T_("0.") \o Repeat(T_("0"), n) \o T_("7"), v |-> Num_(Norm(FALSE, <<7>>, - n - 1))] : n \in {5, 12, 20, 24} }

(* ---- the machine ---- *)
Words == { [q |-> T_("true"), v |-> Bool_(TRUE)], [q |-> T_("false"), v |-> Bool_(FALSE)], [q |-> T_("null"), v |-> Null_] }
Init == \/ kind = "num" /\ q = <<>> /\ ph = "start" /\ val = Num0
        \/ \E b \in Bigs : kind = "big" /\ q = b.q /\ ph = "whole" /\ val = b.v
        \/ kind = "long" /\ q \in LongNums /\ ph = "whole" /\ val = 0
        \/ \E w \in Words : kind = "word" /\ q = w.q /\ ph = "whole" /\ val = w.v
        \/ \E c \in {34, 39} : kind = "str" /\ q = <<c>> /\ ph = "in" /\ val = Str0(c)
        \/ kind = "arr" /\ q = <<91>> /\ ph = "elem" /\ val = [es |-> <<>>, open |-> <<>>, n |-> 0]
NumNext == /\ kind = "num"
           /\ Len(q) < NumLen
           /\ \E ch \in NumAlphabet : LET r == NumStep(ph, val, ch) IN
                /\ r[1] # "no" /\ Small(r[2])
                /\ q' = Append(q, ch) /\ ph' = r[1] /\ val' = r[2]
StrNext == /\ kind = "str" /\ ph = "in"
           /\ \/ /\ Len(val.s) + Len(val.us) < StrLen
                 /\ \E a \in StrAtoms(val) : q' = q \o a.q /\ val' = a.v
                 /\ ph' = ph
              \/ /\ ph' = "whole" /\ q' = Append(q, val.ch) /\ val' = Settle(val)
ArrNext == /\ kind = "arr" /\ ph # "whole"
           /\ \/ /\ ph = "elem" /\ val.n < ArrLen
                 /\ \E x \in Elems : q' = q \o x.q /\ val' = [val EXCEPT !.es = Append(@, x.v), !.n = @ + 1]
                 /\ ph' = "sep"
              \/ /\ ph = "elem" /\ val.n < ArrLen
                 /\ q' = Append(q, 91) /\ val' = [es |-> <<>>, open |-> Append(val.open, val.es), n |-> val.n + 1]
                 /\ ph' = ph
              \/ /\ ph = "sep"
                 /\ \E x \in Seps : q' = q \o x
                 /\ ph' = "elem" /\ val' = val
              \/ /\ ph \in {"elem", "sep"}
                 /\ q' = Append(q, 93)
                 /\ IF Len(val.open) = 0 THEN ph' = "whole" /\ val' = val
                    ELSE /\ ph' = "sep"
                         /\ val' = [es |-> Append(val.open[Len(val.open)], Arr_(val.es)), open |-> SubSeq(val.open, 1, Len(val.open) - 1), n |-> val.n]
Next == (NumNext \/ StrNext \/ ArrNext) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

IsWhole == ph = "whole" \/ (kind = "num" /\ ph \in Whole0)
Meant == CASE kind = "num" -> Num_(NumVal(val))
           [] kind = "long" -> ReadNum(q, 1).v
           [] kind \in {"word", "big"} -> val
           [] kind = "str" -> Str_(val.s)
           [] kind = "arr" -> Arr_(val.es)

\* after a literal of n characters; every tenth has all the unit names behind it
Gaps == << <<>>, <<32>>, <<9, 32>> >>
RECURSIVE Sum(_)
Sum(t) == IF Len(t) = 0 THEN 0 ELSE t[1] + 3 * Sum(Tail(t))
UnitSeq == LET RECURSIVE L(_)
               L(S) == IF S = {} THEN <<>> ELSE LET u == CHOOSE x \in S : TRUE IN <<u>> \o L(S \ {u})
           IN L(Units)
NUnits == Len(UnitSeq)
UnitIdx == IF Len(q) <= 2 THEN 1..NUnits ELSE { ((Sum(q) + k) % NUnits) + 1 : k \in {0, 11} }
Durs == IF kind # "num" THEN {}
        ELSE { [q |-> q \o Gaps[g] \o UnitSeq[x].u, v |-> InNanos(NumVal(val), UnitSeq[x])] : x \in UnitIdx, g \in {1 + (Sum(q) % 3), 2} }
\* the reader finds the value, wherever it stands
Behind == { <<>>, <<10>>, <<44>>, <<32, 125>>, T_(" //c"), T_("#"), T_(" ]"), <<13, 10>> \o T_("d=1"), T_(", s = 2") }
Reads(t, v) == \A b \in Behind : LET r == ReadValue(t \o b, 1) IN r.ok /\ r.v = v /\ r.i = Len(t) + 1
Means == IsWhole => Reads(q, Meant) /\ \A d \in Durs : Reads(d.q, d.v)
\* a whole number of units is as many nanoseconds as the unit has, times the number; a shorter rest is cut off
Exact == kind = "num" /\ ph \in Whole0 => \A d \in Durs : d.v.ex >= 0 /\ (d.v.co = <<>> \/ d.v.neg = val.neg)
Emit == IsWhole => PrintT(ToJson([q |-> q, w |-> Shown(IF Meant.t = "arr" THEN Leaf(Context([k |-> "props", ps |-> <<>>], NoEnv, Nothing), <<>>, 0, Meant, <<>>, 0) ELSE Meant), ds |-> Durs]))
=============================================================================
