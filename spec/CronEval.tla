------------------------------ MODULE CronEval ------------------------------
(***************************************************************************)
(* K02: which values a field expression selects.  A clock runs a field     *)
(* through all its values; what was found to hold must be what the         *)
(* expression selects.  And: whole expressions on whole dates.             *)
(***************************************************************************)
EXTENDS Cron, Json, SequencesExt

CONSTANT Deep

VARIABLES mode, fld, ex, mx, now, found
vars == <<mode, fld, ex, mx, now, found>>

\* ends of ranges explored per field
Pts(f) == CASE f = 1 -> {0, 1, 2, 5, 10, 29, 30, 45, 58, 59}
            [] f = 2 -> {0, 1, 2, 5, 11, 12, 22, 23}
            [] f = 3 -> {1, 2, 5, 15, 27, 28, 29, 30, 31}
            [] f = 4 -> 1..12
            [] f = 5 -> 1..7
Vals(f) == { Val(v) : v \in FieldMin[f]..FieldMax[f] }
StepsOf(f) == IF Deep \/ f >= 4 THEN 0..FieldMax[f] ELSE {0, 1, 2, 3, 5, 7, 10, 12, 15, 20, 23, 30, 31} \cap (0..FieldMax[f])
Ranges(f) == { Rng(Val(a), Val(b), NoOp) : a \in Pts(f), b \in Pts(f) }
Ranges2(f) == { Rng(Val(a), Val(b), Val(s)) : a \in Pts(f), b \in Pts(f), s \in StepsOf(f) }
WithLast == { Last, Per(Last), Lst(<<Val(1), Last>>), Lst(<<Last, Val(3)>>) }
        \cup { Rng(Val(a), Last, NoOp) : a \in 1..7 } \cup { Rng(Val(a), Last, Val(s)) : a \in 1..7, s \in 1..3 }
        \cup { Rng(Last, Last, NoOp), Rng(Last, Val(3), NoOp), Rng(Val(2), Val(7), Last) }
Items(f) == { Val(v) : v \in {FieldMin[f], 2, FieldMax[f]} } \cup { Rng(Val(3), Val(6), NoOp), Rng(Val(1), Val(7), Val(3)), Rng(Val(5), Val(2), NoOp) }
Lists(f) == { Lst(<<a, b>>) : a \in Items(f), b \in Items(f) } \cup { Lst(<<a, b, d>>) : a \in Items(f), b \in Items(f), d \in Items(f) }
\* long lists of values, of ranges and of both
LongLists(f) == { Lst([z \in 1..n |-> Val(FieldMin[f] + ((z * k) % (FieldMax[f] - FieldMin[f] + 1)))]) : n \in {7, 13, 24, 33, 70}, k \in {1, 2, 5, 7} }
           \cup { Lst([z \in 1..n |-> Rng(Val(FieldMin[f] + ((z * 5) % FieldMax[f])), Val(FieldMin[f] + ((z * 7) % FieldMax[f])), IF z % 2 = 0 THEN NoOp ELSE Val(3))]) : n \in {5, 9, 20} }
Exprs(f) == {AnyV} \cup LongLists(f) \cup Vals(f) \cup { Per(Val(s)) : s \in 0..FieldMax[f] } \cup Ranges(f) \cup Ranges2(f) \cup Lists(f)
            \cup IF f \in {3, 5} THEN WithLast ELSE {}
Maxima(f) == IF f = 3 THEN 28..31 ELSE {FieldMax[f]}

\* whole expressions and dates: every combination of fields that do and do not hold
Whole == { <<a, b, c, d, e>> : a \in {AnyV, Val(30), Per(Val(15))}, b \in {AnyV, Val(6), Rng(Val(6), Val(18), Val(6))},
             c \in {AnyV, Val(1), Val(29), Last}, d \in {AnyV, Val(2), Lst(<<Val(1), Val(12)>>)},
             e \in {AnyV, Val(1), Last, Rng(Val(2), Val(6), NoOp)} }
Dates == { <<y, mo, d, h, mi>> : y \in {1999, 2000, 2023, 2024, 2100}, mo \in {1, 2, 12}, d \in {1, 2, 28, 29, 31}, h \in {0, 6}, mi \in {0, 30} }
Dates2 == { q \in Dates : q[3] <= DaysIn(q[1], q[2]) }

Init ==
  \/ /\ mode = "field" /\ fld \in 1..5 /\ ex \in Exprs(fld) /\ mx \in Maxima(fld)
     /\ now = 0 /\ found = {}
  \/ /\ mode = "whole" /\ fld = 0 /\ ex \in Whole /\ mx = 0
     /\ now = 0 /\ found = {}

Tick == /\ mode = "field" /\ now <= mx
        /\ found' = found \cup (IF Holds(ex, now, mx) THEN {now} ELSE {})
        /\ now' = now + 1 /\ UNCHANGED <<mode, fld, ex, mx>>
At(q) == Instant(q[1], q[2], q[3], q[4], q[5])
Judge == /\ mode = "whole" /\ now = 0
         /\ found' = { q \in Dates2 : Satisfied(ex, At(q)) }
         /\ now' = 1 /\ UNCHANGED <<mode, fld, ex, mx>>
Next == Tick \/ Judge
Spec == Init /\ [][Next]_vars

Sofar == mode = "field" => found = { x \in Selected(ex, mx) : x \in 0..(now - 1) }
Complete == (mode = "field" /\ now > mx) => found = Selected(ex, mx) \cap (0..mx)
Conj == (mode = "whole" /\ now = 1) => \A q \in Dates2 :
          (q \in found) <=> /\ q[5] \in Selected(ex[1], 59) /\ q[4] \in Selected(ex[2], 23)
                            /\ q[3] \in Selected(ex[3], DaysIn(q[1], q[2])) /\ q[2] \in Selected(ex[4], 12)
                            /\ WeekDay(DayNo(q[1], q[2], q[3])) \in Selected(ex[5], 7)
\* the calendar agrees with itself
Cal == (mode = "whole" /\ now = 1) => \A q \in Dates2 : DateOf(DayNo(q[1], q[2], q[3])) = <<q[1], q[2], q[3]>>
Emit == /\ (mode = "field" /\ now > mx) => PrintT(ToJson([f |-> fld, e |-> ex, mx |-> mx, s |-> found]))
        /\ (mode = "whole" /\ now = 1) => PrintT(ToJson([w |-> ex, s |-> found]))
=============================================================================
