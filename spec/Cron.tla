-------------------------------- MODULE Cron --------------------------------
(***************************************************************************)
(* crond/: the language of cron expressions, when a date satisfies one,    *)
(* and which instants an iteration yields.                                 *)
(*                                                                         *)
(* Texts are sequences of one-character strings.  Expressions are records  *)
(* [k, n, c]: any, val n, last, noop, per <<any, step>>,                   *)
(* range <<from, to, step or noop>>, list.  Fields are numbered 1..5.      *)
(* Instants are minutes since 1970-01-01 00:00 of the zone's local time.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

X(kk, nn, cc) == [k |-> kk, n |-> nn, c |-> cc]
AnyV    == X("any", 0, <<>>)
Val(v)  == X("val", v, <<>>)
Last    == X("last", 0, <<>>)
NoOp    == X("noop", 0, <<>>)
Per(s)  == X("per", 0, <<AnyV, s>>)
Rng(a, b, s) == X("range", 0, <<a, b, s>>)
Lst(es) == IF Len(es) = 1 THEN es[1] ELSE X("list", 0, es)
NoExpr  == X("none", 0, <<>>)

FieldMin == <<0, 0, 1, 1, 1>>
FieldMax == <<59, 23, 31, 12, 7>>
DayNames == <<"SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT">>

RECURSIVE Str(_)
Str(q) == IF Len(q) = 0 THEN "" ELSE q[1] \o Str(Tail(q))

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E x \in 1..10 : Digits[x] = ch
DigitVal(ch) == (CHOOSE x \in 1..10 : Digits[x] = ch) - 1

\* the value a token denotes in a field, or NoExpr
Token(f, q) ==
  IF f = 5
  THEN IF Len(q) = 1 /\ IsDigit(q[1]) /\ DigitVal(q[1]) \in 1..7 THEN Val(DigitVal(q[1]))
       ELSE IF Str(q) = "L" THEN Last
       ELSE IF \E x \in 1..7 : DayNames[x] = Str(q) THEN Val(CHOOSE x \in 1..7 : DayNames[x] = Str(q))
       ELSE NoExpr
  ELSE IF Len(q) \in {1, 2} /\ \A x \in 1..Len(q) : IsDigit(q[x])
       THEN LET v == IF Len(q) = 1 THEN DigitVal(q[1]) ELSE 10 * DigitVal(q[1]) + DigitVal(q[2])
            IN IF v \in FieldMin[f]..FieldMax[f] THEN Val(v) ELSE NoExpr
       ELSE NoExpr

------------------------------------------------------------------------------
(* The language, by splitting (denotation) *)

RECURSIVE SplitAt(_, _, _)
SplitAt(q, ch, acc) ==
  IF Len(q) = 0 THEN <<acc>>
  ELSE IF q[1] = ch THEN <<acc>> \o SplitAt(Tail(q), ch, <<>>)
  ELSE SplitAt(Tail(q), ch, Append(acc, q[1]))
Split(q, ch) == SplitAt(q, ch, <<>>)

ItemOf(f, q) ==            \* value | from-to | from-to/step
  LET slash == Split(q, "/")
      dash  == Split(slash[1], "-")
  IN IF Len(dash) = 1 /\ Len(slash) = 1 THEN Token(f, q)
     ELSE IF Len(dash) = 2 /\ Len(slash) \in {1, 2}
     THEN LET a == Token(f, dash[1])
              b == Token(f, dash[2])
              s == IF Len(slash) = 1 THEN NoOp ELSE Token(f, slash[2])
          IN IF NoExpr \in {a, b, s} THEN NoExpr ELSE Rng(a, b, s)
     ELSE NoExpr

FieldOf(f, q) ==
  IF q = <<"*">> THEN AnyV
  ELSE IF Len(q) > 2 /\ q[1] = "*" /\ q[2] = "/"
  THEN LET s == Token(f, SubSeq(q, 3, Len(q))) IN IF s = NoExpr THEN NoExpr ELSE Per(s)
  ELSE LET parts == Split(q, ",")
           items == [x \in 1..Len(parts) |-> ItemOf(f, parts[x])]
       IN IF \E x \in 1..Len(items) : items[x] = NoExpr THEN NoExpr ELSE Lst(items)

\* the five expressions a text denotes, or <<>> if it is not a cron expression
Meaning(q) ==
  LET parts == Split(q, " ") IN
  IF Len(parts) # 5 THEN <<>>
  ELSE LET fs == [x \in 1..5 |-> FieldOf(x, parts[x])]
       IN IF \E x \in 1..5 : fs[x] = NoExpr THEN <<>> ELSE fs

------------------------------------------------------------------------------
(* The same language as a reader of one character at a time (operational).  *)
(* ph: item | star | starstep | to | step | ok | no;  "" is the end.        *)

Reader0 == [f |-> 1, ph |-> "item", tok |-> <<>>, part |-> <<>>, items |-> <<>>, out |-> <<>>]

NoRead(st) == [st EXCEPT !.ph = "no"]
CloseField(st, e) ==
  IF st.f = 5 THEN NoRead(st)
  ELSE [f |-> st.f + 1, ph |-> "item", tok |-> <<>>, part |-> <<>>, items |-> <<>>, out |-> Append(st.out, e)]
CloseText(st, e) == IF st.f = 5 THEN [st EXCEPT !.ph = "ok", !.out = Append(st.out, e)] ELSE NoRead(st)

\* the item read so far: part holds the values before, tok the token being read
ItemRead(st) ==
  LET v == Token(st.f, st.tok) IN
  IF v = NoExpr THEN NoExpr
  ELSE CASE st.ph = "item" -> v
         [] st.ph = "to"   -> Rng(st.part[1], v, NoOp)
         [] st.ph = "step" -> Rng(st.part[1], st.part[2], v)

Shifted(st, ph) ==          \* the token is complete: keep it and go on in phase ph
  LET v == Token(st.f, st.tok) IN
  IF v = NoExpr THEN NoRead(st) ELSE [st EXCEPT !.ph = ph, !.part = Append(@, v), !.tok = <<>>]

Read(st, ch) ==
  CASE st.ph \in {"ok", "no"} -> NoRead(st)
    [] st.ph = "star" ->
         (CASE ch = " " -> CloseField(st, AnyV)
            [] ch = ""  -> CloseText(st, AnyV)
            [] ch = "/" -> [st EXCEPT !.ph = "starstep"]
            [] OTHER    -> NoRead(st))
    [] st.ph = "starstep" ->
         (CASE ch \in {" ", ""} -> LET v == Token(st.f, st.tok) IN
                 IF v = NoExpr THEN NoRead(st) ELSE IF ch = "" THEN CloseText(st, Per(v)) ELSE CloseField(st, Per(v))
            [] ch \in {"/", "-", ",", "*"} -> NoRead(st)
            [] OTHER -> [st EXCEPT !.tok = Append(@, ch)])
    [] st.ph \in {"item", "to", "step"} ->
         (CASE ch = "*" -> IF st.ph = "item" /\ st.tok = <<>> /\ st.items = <<>> THEN [st EXCEPT !.ph = "star"] ELSE NoRead(st)
            [] ch = "-" -> IF st.ph = "item" THEN Shifted(st, "to") ELSE NoRead(st)
            [] ch = "/" -> IF st.ph = "to" THEN Shifted(st, "step") ELSE NoRead(st)
            [] ch \in {",", " ", ""} ->
                 LET e == ItemRead(st)
                     es == Append(st.items, e)
                 IN IF e = NoExpr THEN NoRead(st)
                    ELSE IF ch = "," THEN [st EXCEPT !.ph = "item", !.tok = <<>>, !.part = <<>>, !.items = es]
                    ELSE IF ch = " " THEN CloseField(st, Lst(es)) ELSE CloseText(st, Lst(es))
            [] OTHER -> [st EXCEPT !.tok = Append(@, ch)])

RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, q, x) == IF x > Len(q) THEN Read(st, "") ELSE ReadFrom(Read(st, q[x]), q, x + 1)
ReadAll(q) == LET st == ReadFrom(Reader0, q, 1) IN IF st.ph = "ok" THEN st.out ELSE <<>>

------------------------------------------------------------------------------
(* When a field holds: mx is the field's greatest value on that date *)

\* denotation: the values an expression selects
Num(e, mx) == IF e.k = "last" THEN mx ELSE e.n
Multiples(s, a, b) == IF s = 0 THEN {} ELSE { x \in a..b : (x - a) % s = 0 }
RECURSIVE Selected(_, _)
Selected(e, mx) ==
  CASE e.k = "any"   -> 0..mx
    [] e.k = "val"   -> {e.n}
    [] e.k = "last"  -> {mx}
    [] e.k = "per"   -> Multiples(Num(e.c[2], mx), 0, mx)
    [] e.k = "range" -> LET a == Num(e.c[1], mx)
                            b == Num(e.c[2], mx)
                        IN IF e.c[3].k = "noop" THEN a..b ELSE Multiples(Num(e.c[3], mx), a, b)
    [] e.k = "list"  -> UNION { Selected(e.c[x], mx) : x \in 1..Len(e.c) }

\* operational: does this value satisfy the expression
RECURSIVE Reaches(_, _, _, _)
Reaches(a, b, s, v) == s > 0 /\ a <= b /\ (a = v \/ (a < v /\ Reaches(a + s, b, s, v)))
RECURSIVE Holds(_, _, _)
Holds(e, v, mx) ==
  CASE e.k = "any"   -> TRUE
    [] e.k = "val"   -> v = e.n
    [] e.k = "last"  -> v = mx
    [] e.k = "per"   -> Reaches(0, mx, Num(e.c[2], mx), v)
    [] e.k = "range" -> Reaches(Num(e.c[1], mx), Num(e.c[2], mx), IF e.c[3].k = "noop" THEN 1 ELSE Num(e.c[3], mx), v)
    [] e.k = "list"  -> \E x \in 1..Len(e.c) : Holds(e.c[x], v, mx)

------------------------------------------------------------------------------
(* The calendar (proleptic Gregorian) *)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, mo) == IF mo = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31

\* days since 1970-01-01
Cum(mo) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[mo]
YearDays(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
DayNo(y, mo, d) == YearDays(y) + Cum(mo) + (IF mo > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1 - 719162

\* 1 = Sunday; 1970-01-01 was a Thursday
WeekDay(n) == ((n + 4) % 7) + 1

\* the date of a day number
YearOf(n) == LET g == 1970 + (n \div 365) IN
             CHOOSE y \in (g - 2)..(g + 2) : YearDays(y) - 719162 <= n /\ n < YearDays(y + 1) - 719162
DateOf(n) == LET y == YearOf(n)
                 mo == CHOOSE m \in 1..12 : DayNo(y, m, 1) <= n /\ n < DayNo(y, m, 1) + DaysIn(y, m)
             IN <<y, mo, n - DayNo(y, mo, 1) + 1>>

Instant(y, mo, d, h, mi) == DayNo(y, mo, d) * 1440 + h * 60 + mi

\* the values of the five fields at an instant, and their greatest values
ValuesAt(t) == LET n == t \div 1440
                   dt == DateOf(n)
               IN <<t % 60, (t % 1440) \div 60, dt[3], dt[2], WeekDay(n)>>
MaximaAt(t) == LET dt == DateOf(t \div 1440) IN <<59, 23, DaysIn(dt[1], dt[2]), 12, 7>>

Satisfied(fs, t) == LET v == ValuesAt(t)
                        mx == MaximaAt(t)
                    IN \A x \in 1..5 : Holds(fs[x], v[x], mx[x])

------------------------------------------------------------------------------
(* The first instant at or after t that satisfies fs and is not after last:  *)
(* by month, then day, then time of day.  -1 if there is none.               *)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* satisfying times of day, as minutes
Times(fs) == { h * 60 + mi : h \in Selected(fs[2], 23) \cap (0..23), mi \in Selected(fs[1], 59) \cap (0..59) }
\* satisfying days of month mo of year y
DaysOf(fs, y, mo) ==
  IF mo \notin Selected(fs[4], 12) THEN {}
  ELSE { d \in Selected(fs[3], DaysIn(y, mo)) \cap (1..DaysIn(y, mo)) : WeekDay(DayNo(y, mo, d)) \in Selected(fs[5], 7) }

RECURSIVE FirstDay(_, _, _, _, _)
FirstDay(fs, y, mo, n, lastn) ==      \* first satisfying day number >= n, from month mo of year y on
  LET ds == { x \in { DayNo(y, mo, d) : d \in DaysOf(fs, y, mo) } : x >= n } IN
  IF ds # {} THEN MinOf(ds)
  ELSE IF DayNo(y, mo, 1) > lastn THEN -1
  ELSE FirstDay(fs, IF mo = 12 THEN y + 1 ELSE y, IF mo = 12 THEN 1 ELSE mo + 1, n, lastn)

FirstOcc(fs, t, last) ==
  LET n0 == t \div 1440
      d0 == DateOf(n0)
      ts == Times(fs)
      today == { x \in ts : x >= t % 1440 }
      n == FirstDay(fs, d0[1], d0[2], n0, last \div 1440)
      n2 == IF n # n0 \/ today # {} THEN n
            ELSE LET d1 == DateOf(n0 + 1) IN FirstDay(fs, d1[1], d1[2], n0 + 1, last \div 1440)
      r == IF n2 = n0 THEN n0 * 1440 + MinOf(today) ELSE n2 * 1440 + MinOf(ts)
  IN IF ts = {} \/ n = -1 \/ n2 = -1 \/ r > last THEN -1 ELSE r
=============================================================================
