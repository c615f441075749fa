------------------------------ MODULE CronTrace ------------------------------
(***************************************************************************)
(* Validation of what the real crate was recorded doing.  A line is        *)
(*   [a |-> "parse", t |-> text, fs |-> tree or <<>>]                      *)
(*   [a |-> "sat", t |-> text, at |-> instant, r |-> answer]               *)
(*   [a |-> "iter", t |-> text, s |-> start, l |-> end or -1,              *)
(*    ev |-> what each next() returned, -1 for None]                       *)
(*   [a |-> "zone", ...]: the same in the zone z, in minutes of UTC        *)
(* Iterations advance one recorded call per transition.                    *)
(***************************************************************************)
EXTENDS Zones, Json

CONSTANT TraceFile
Lines == ndJsonDeserialize(TraceFile)

VARIABLES ln, st
vars == <<ln, st>>

R == Lines[ln]
Reach == 29 * 366 * 1440
Init == ln \in DOMAIN Lines /\ st = [x |-> 1, cur |-> IF Lines[ln].a \in {"iter", "zone"} THEN Lines[ln].s ELSE 0, over |-> FALSE, rd |-> Reader0, v |-> "run", want |-> <<>>]

ParseStep ==
  /\ R.a = "parse"
  /\ IF st.rd.ph \in {"ok", "no"}
     THEN LET w == IF st.rd.ph = "ok" THEN st.rd.out ELSE <<>>
          IN st' = [st EXCEPT !.v = IF w = R.fs THEN "ok" ELSE "bad", !.want = w]
     ELSE st' = [st EXCEPT !.rd = Read(st.rd, IF st.x > Len(R.q) THEN "" ELSE R.q[st.x]), !.x = st.x + 1]
SatStep ==
  /\ R.a = "sat"
  /\ LET w == Satisfied(Meaning(R.q), R.at) IN st' = [st EXCEPT !.v = IF w = R.r THEN "ok" ELSE "bad", !.want = <<w>>]
IterStep ==
  /\ R.a \in {"iter", "zone"}
  /\ IF st.x > Len(R.ev) THEN st' = [st EXCEPT !.v = "ok"]
     ELSE LET w == IF st.over THEN -1 ELSE LET lim == IF R.l = -1 THEN st.cur + Reach ELSE R.l
                                                  IN IF R.a = "zone" THEN FirstIn(R.z, Meaning(R.q), st.cur, lim) ELSE FirstOcc(Meaning(R.q), st.cur, lim)
          IN IF R.ev[st.x] # w THEN st' = [st EXCEPT !.v = "bad", !.want = <<st.x, w>>]
             ELSE st' = [st EXCEPT !.x = st.x + 1, !.cur = IF w = -1 THEN st.cur ELSE w + 1, !.over = w = -1]
Next == st.v = "run" /\ (ParseStep \/ SatStep \/ IterStep) /\ UNCHANGED ln
Spec == Init /\ [][Next]_vars
Report == st.v = "bad" => PrintT(ToJson([line |-> ln - 1, want |-> st.want]))
Accepted == st.v = "ok" => PrintT(ToJson([accepted |-> ln - 1]))
=============================================================================
