------------------------------ MODULE CronZone ------------------------------
(***************************************************************************)
(* K04: iterating a schedule in a zone whose offset changes.  Instants are *)
(* minutes of UTC.  A transition is one call of next(); what was yielded   *)
(* is checked minute by minute against the local time, and an hour that    *)
(* the clock repeats or leaves out is yielded twice or not at all.         *)
(***************************************************************************)
EXTENDS Zones, Json

CONSTANT Deep

VARIABLES txt, fs, zone, start, last, cur, out, over, calls
vars == <<txt, fs, zone, start, last, cur, out, over, calls>>

Chars(str) == [x \in 1..Len(str) |-> SubSeq(str, x, x)]
Texts == { "* * * * *", "*/20 * * * *", "30 * * * *", "30 2 * * *", "0 3 * * *", "0 0 * * *", "59 23 * * *", "*/40 1-3 * * *", "0 */2 * * *",
           "15 2 * * SUN", "0 12 31 * *", "0 1 28-31 3,10 *", "45 1 27 10 *", "0 0 1 * *", "30 23 * * L", "10 2,3 29-31 12 *" }
         \cup IF Deep THEN { a \o " " \o b \o " " \o c : a \in {"0", "59", "*/15", "1-31/10"}, b \in {"*", "0", "2", "1-3", "23"}, c \in {"* * *", "* 3 *", "31 * *", "* * SUN"} } ELSE {}
U(y, mo, d, h, mi) == Instant(y, mo, d, h, mi)
Zone_(o, tr) == [o |-> o, tr |-> tr]
At_(u, o) == [u |-> u, o |-> o]
\* with the instants around which to begin
Zones_ == {
  <<Zone_(60, <<At_(U(2024, 3, 31, 1, 0), 120), At_(U(2024, 10, 27, 1, 0), 60)>>), <<U(2024, 3, 31, 1, 0), U(2024, 10, 27, 1, 0)>>>>,
  <<Zone_(-300, <<At_(U(2024, 3, 10, 7, 0), -240), At_(U(2024, 11, 3, 6, 0), -300)>>), <<U(2024, 3, 10, 7, 0), U(2024, 11, 3, 6, 0)>>>>,
  <<Zone_(660, <<At_(U(2024, 4, 6, 15, 0), 630), At_(U(2024, 10, 5, 15, 30), 660)>>), <<U(2024, 4, 6, 15, 0)>>>>,
  \* a day left out; midnight left out; midnight repeated on the last day of a month; an odd offset
  <<Zone_(-600, <<At_(U(2011, 12, 30, 10, 0), 840)>>), <<U(2011, 12, 30, 10, 0)>>>>,
  <<Zone_(120, <<At_(U(2024, 4, 25, 22, 0), 180), At_(U(2024, 10, 31, 21, 0), 120)>>), <<U(2024, 4, 25, 22, 0), U(2024, 10, 31, 21, 0)>>>>,
  <<Zone_(345, <<>>), <<U(2023, 12, 31, 18, 15)>>>>,
  <<Zone_(0, <<At_(U(2024, 2, 29, 23, 59), 17), At_(U(2024, 3, 1, 0, 30), -43), At_(U(2024, 3, 1, 1, 10), 0)>>), <<U(2024, 3, 1, 0, 0)>>>> }
Starts == IF Deep THEN {-1500, -181, -60, -30, -1, 0, 1, 29, 60} ELSE {-1500, -181, -30, -1, 0, 29}
Spans == {-1, 95} \cup IF Deep THEN {0, 30, 60, 1440, 3000} ELSE {}
MaxYields == IF Deep THEN 8 ELSE 5
MaxNones == 2
Reach == 29 * 366 * 1440

Init == /\ txt \in Texts /\ fs = Meaning(Chars(txt))
        /\ \E zb \in Zones_ : /\ zone = zb[1]
                              /\ \E b \in 1..Len(zb[2]), s \in Starts : start = zb[2][b] + s
        /\ \E sp \in Spans : last = IF sp = -1 THEN -1 ELSE start + sp
        /\ cur = start /\ out = <<>> /\ over = FALSE /\ calls = 0
Limit == IF last = -1 THEN cur + Reach ELSE last
NextCall ==
  /\ Len(out) < MaxYields /\ calls < MaxYields + MaxNones /\ (over => calls < Len(out) + MaxNones)
  /\ calls' = calls + 1
  /\ LET t == IF over THEN -1 ELSE FirstIn(zone, fs, cur, Limit) IN
     IF t = -1 THEN over' = TRUE /\ UNCHANGED <<cur, out>>
     ELSE out' = Append(out, t) /\ cur' = t + 1 /\ UNCHANGED over
  /\ UNCHANGED <<txt, fs, zone, start, last>>
Next == NextCall
Spec == Init /\ [][Next]_vars

Finished == ~ ENABLED NextCall
Increasing == \A x \in 1..Len(out) - 1 : out[x] < out[x + 1]
AllSatisfy == Len(out) > 0 => SatisfiedIn(zone, fs, out[Len(out)])
Within == \A x \in 1..Len(out) : out[x] >= start /\ (last # -1 => out[x] <= last)
Before == IF Len(out) = 1 THEN start ELSE out[Len(out) - 1] + 1
Most == IF Deep THEN 3000 ELSE 400
NoneSkipped == /\ Len(out) > 0 => \A m \in Before..(IF out[Len(out)] - 1 < Before + Most THEN out[Len(out)] - 1 ELSE Before + Most) : ~ SatisfiedIn(zone, fs, m)
               /\ over => \A m \in cur..(IF last < cur + Most THEN last ELSE cur + Most) : ~ SatisfiedIn(zone, fs, m)
\* local times that the clock shows twice are yielded twice, those it never shows never
Shows(l) == { k \in 0..Len(zone.tr) : LET o == IF k = 0 THEN zone.o ELSE zone.tr[k].o
                                          u == l - o
                                      IN (k > 0 => u >= zone.tr[k].u) /\ (k < Len(zone.tr) => u < zone.tr[k + 1].u) }
Repeats == \A x \in 1..Len(out) : LET l == Local(zone, out[x])
                                      us == { l - (IF k = 0 THEN zone.o ELSE zone.tr[k].o) : k \in Shows(l) }
                                  IN out[x] \in us /\ \A u \in us : u >= start /\ u < cur => \E y \in 1..Len(out) : out[y] = u
Emit == Finished => PrintT(ToJson([t |-> txt, z |-> zone, s |-> start, l |-> last, out |-> out, nones |-> calls - Len(out)]))
=============================================================================
