------------------------------ MODULE CronIter ------------------------------
(***************************************************************************)
(* K03: iterating a schedule.  State: the instant the next search starts   *)
(* from, what was yielded, whether the iteration is over.  A transition    *)
(* is one call of next().  Checked independently: minute by minute         *)
(* between consecutive yields nothing satisfies the expression.            *)
(***************************************************************************)
EXTENDS Cron, Json, SequencesExt

CONSTANT Deep

VARIABLES txt, fs, start, last, cur, out, over, calls
vars == <<txt, fs, start, last, cur, out, over, calls>>

Chars(str) == [x \in 1..Len(str) |-> SubSeq(str, x, x)]
Texts ==
  { "* * * * *", "*/2 * * * *", "0-59/30 0-23/2 * * *", "59 23 * * *", "0 0 * * *", "0 0 1 * *", "0 0 31 * *", "0 0 29 2 *", "59 23 31 12 *",
    "0 0 1 1 *", "*/17 5-9/2 * * MON-FRI", "30 6 * 2 L", "0 0 13 * FRI", "0 12 1-7 * 2", "5,7,58 22,23 28-31 2,12 *", "*/59 */23 * * *", "0 */5 */10 * *",
    "1-3,58-59 0,23 * * SUN,WED", "59 * 30 4-6 *", "* 0 1 1-12/5 *", "0 0 * * 5-L" }
  \cup IF Deep THEN { a \o " " \o b \o " " \o d : a \in {"*", "59", "*/25", "0-10/7,58"}, b \in {"*", "23", "*/11", "0,5-6"},
                             d \in {"* * *", "31 * *", "* 2 *", "1 1,3 *", "28-31 2 *", "* * SUN", "*/6 */4 MON-FRI", "29 2 *", "5-25/5 12 3,L"} }
       ELSE {}
\* y, mo, d, h, mi : around every kind of boundary
Starts == { Instant(2021, 1, 1, 1, 1), Instant(2023, 12, 31, 23, 58), Instant(2024, 2, 28, 23, 59), Instant(2024, 2, 29, 0, 0),
            Instant(2023, 2, 28, 23, 30), Instant(2024, 4, 30, 22, 59), Instant(2024, 12, 31, 23, 59), Instant(2000, 2, 29, 23, 59),
            Instant(1999, 12, 31, 23, 59), Instant(2024, 3, 1, 0, 0), Instant(1970, 1, 1, 0, 0), Instant(2100, 2, 28, 23, 59) }
          \cup IF Deep THEN { Instant(2024, mo, DaysIn(2024, mo), 23, 59) : mo \in 1..12 } \cup { Instant(2025, 6, d, 12, 34) : d \in 1..9 } ELSE {}
\* lengths of bounded iterations, in minutes; -1: unbounded
Spans == {-1, 0, 1, 59, 60, 1440} \cup IF Deep THEN {2, 1439, 44640, 527040} ELSE {}
\* schedules that recur once in years are followed for fewer steps
Rare == txt \in {"0 0 29 2 *"} \/ (Deep /\ fs[3].k # "any" /\ fs[4].k # "any")
MaxYields == IF Rare THEN 3 ELSE IF Deep THEN 10 ELSE 6
MaxNones == 2
\* how far an unbounded search may look in the model (all texts explored recur sooner)
Reach == 29 * 366 * 1440

Init == /\ txt \in Texts /\ fs = Meaning(Chars(txt)) /\ start \in Starts
        /\ \E sp \in Spans : last = IF sp = -1 THEN -1 ELSE start + sp
        /\ cur = start /\ out = <<>> /\ over = FALSE /\ calls = 0

Limit == IF last = -1 THEN cur + Reach ELSE last
NextCall ==
  /\ Len(out) < MaxYields /\ calls < MaxYields + MaxNones /\ (over => calls < Len(out) + MaxNones)
  /\ calls' = calls + 1
  /\ LET t == IF over THEN -1 ELSE FirstOcc(fs, cur, Limit) IN
     IF t = -1 THEN over' = TRUE /\ UNCHANGED <<cur, out>>
     ELSE out' = Append(out, t) /\ cur' = t + 1 /\ UNCHANGED over
  /\ UNCHANGED <<txt, fs, start, last>>
Next == NextCall
Spec == Init /\ [][Next]_vars

Finished == ~ ENABLED NextCall
Increasing == \A x \in 1..Len(out) - 1 : out[x] < out[x + 1]
AllSatisfy == Len(out) > 0 => Satisfied(fs, out[Len(out)])
Within == \A x \in 1..Len(out) : out[x] >= start /\ (last # -1 => out[x] <= last)
Unbounded == last = -1 => ~ over
\* nothing skipped: minute by minute over the last gap (the first 3000 minutes of it)
Before == IF Len(out) = 1 THEN start ELSE out[Len(out) - 1] + 1
NoneSkipped == /\ Len(out) > 0 => \A m \in Before..(IF out[Len(out)] - 1 < Before + 3000 THEN out[Len(out)] - 1 ELSE Before + 3000) : ~ Satisfied(fs, m)
               /\ over => \A m \in cur..(IF last < cur + 3000 THEN last ELSE cur + 3000) : ~ Satisfied(fs, m)
Emit == Finished => PrintT(ToJson([t |-> txt, s |-> start, l |-> last, out |-> out, nones |-> calls - Len(out)]))
=============================================================================
