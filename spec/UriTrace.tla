------------------------------ MODULE UriTrace ------------------------------
(***************************************************************************)
(* Validation of what the real crate was recorded doing.  A line is        *)
(*   [a |-> "parse", q |-> text, u |-> components, pr |-> printed form]    *)
(*   [a |-> "query", q |-> text, ev |-> operations and what they showed]   *)
(*   [a |-> "build", b |-> components, pr |-> printed form, u |-> what     *)
(*          reading the printed form gives]                                *)
(*   [a |-> "path", from |-> path, ev |-> operations and what they showed] *)
(* Texts are read one character per transition, operations one by one.     *)
(* The text of an IPv6 address is not part of a parsed URI.                *)
(***************************************************************************)
EXTENDS Uri, Json

CONSTANT TraceFile
Lines == ndJsonDeserialize(TraceFile)

VARIABLES ln, st
vars == <<ln, st>>

R == Lines[ln]
Text_(r) == IF r.a = "build" THEN TextOf(r.b, TRUE) ELSE IF r.a = "path" THEN <<>> ELSE r.q
Init == ln \in DOMAIN Lines /\ st = [x |-> 1, rd |-> Reader0, ps |-> <<>>, v |-> IF R.a = "path" THEN "path" ELSE "read", want |-> <<>>,
                                     q |-> Text_(R), p |-> IF R.a = "path" THEN PathIs(R.from.k, R.from.parts) ELSE PathIs("empty", <<>>)]

Verdict(good, w) == [st EXCEPT !.v = IF good THEN "ok" ELSE "bad", !.want = w]

ReadStep ==
  /\ st.v = "read"
  /\ IF st.rd.ph \in {"ok", "no"}
     THEN LET u == Bare(Outcome(st.rd)) IN
          IF R.a = "build" THEN st' = Verdict(R.pr = TextOf(R.b, FALSE) /\ R.u = u /\ (Fits(R.b) => u = Found(R.b)), <<u>>)
          ELSE IF R.a = "parse" THEN st' = Verdict(u = R.u /\ (u.ok => Printed(u) = R.pr), <<u>>)
          ELSE IF ~ u.ok THEN st' = Verdict(R.ev = <<>>, <<u>>)
          ELSE st' = [st EXCEPT !.v = "ops", !.x = 1, !.ps = u.q]
     ELSE st' = [st EXCEPT !.rd = Read(st.rd, IF st.x > Len(st.q) THEN End ELSE st.q[st.x]), !.x = st.x + 1]

\* ev[1] is what the parsed query showed; every further one follows an addition
Shows(ps, e) == /\ e.pr = PrintQuery(ps) /\ e.n = Cardinality(Names(ps))
                /\ \A y \in 1..Len(e.lk) : e.lk[y] = Lookup(ps, e.lk[y].k)
OpStep ==
  /\ st.v = "ops"
  /\ IF st.x > Len(R.ev) THEN st' = Verdict(Len(R.ev) > 0, <<>>)
     ELSE LET e  == R.ev[st.x]
              ps == IF e.o = "see" \/ (e.o = "opt" /\ ~ e.hv) THEN st.ps ELSE Append(st.ps, Param(e.k, TRUE, e.v))
          IN IF Shows(ps, e) THEN st' = [st EXCEPT !.x = @ + 1, !.ps = ps] ELSE st' = Verdict(FALSE, <<st.x, ps>>)

PathStep ==
  /\ st.v = "path"
  /\ IF st.x > Len(R.ev) THEN st' = Verdict(TRUE, <<>>)
     ELSE LET e == R.ev[st.x] p == Apply(st.p, [o |-> e.o, ps |-> e.ps]) IN
          IF e.k = p.k /\ e.parts = p.parts /\ e.pr = PrintPath(p) /\ e.empty = (p.parts = <<>>)
          THEN st' = [st EXCEPT !.x = @ + 1, !.p = p] ELSE st' = Verdict(FALSE, <<st.x, p>>)

Next == (ReadStep \/ OpStep \/ PathStep) /\ UNCHANGED ln
Spec == Init /\ [][Next]_vars
Report == st.v = "bad" => PrintT(ToJson([line |-> ln - 1, want |-> st.want]))
Accepted == st.v = "ok" => PrintT(ToJson([accepted |-> ln - 1]))
=============================================================================
