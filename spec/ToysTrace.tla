------------------------------ MODULE ToysTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs of the real interpreter.  A line is         *)
(* [q |-> program text, ends |-> "done", "panic", ..., out |-> what was    *)
(* printed, v |-> result, gs |-> globals].  The text is read by the        *)
(* grammar, then the machine runs, a step at a time; what it prints is     *)
(* found at the front of what is left of the output.                       *)
(***************************************************************************)
EXTENDS Toys, Json

CONSTANT TraceFile
Lines == ndJsonDeserialize(TraceFile)

VARIABLES ln, cf, pos, st
vars == <<ln, cf, pos, st>>
\* pos: how much of the output has been accounted for

R == Lines[ln]
Init == ln \in DOMAIN Lines /\ cf = [ph |-> "text"] /\ pos = 0 /\ st = "reading"

RECURSIVE Same(_, _)
Same(w, r) == \/ w.t = "any"
              \/ /\ w.t = r.t
                 /\ CASE w.t = "int" -> w.n = r.n
                      [] w.t = "bool" -> w.b = r.b
                      [] w.t = "str" -> w.s = r.s
                      [] w.t = "arr" -> Len(w.es) = Len(r.es) /\ \A n \in 1..Len(w.es) : Same(w.es[n], r.es[n])
                      [] OTHER -> FALSE

Read == /\ st = "reading"
        /\ LET p == ReadProgram(R.q) IN
           IF p.ok THEN cf' = Begin(p.v) /\ st' = "running" ELSE cf' = cf /\ st' = "not a program"
        /\ UNCHANGED <<ln, pos>>
Run == /\ st = "running" /\ cf.ph \in {"top", "main"}
       /\ LET c == Step(cf) IN
          IF c.out = cf.out THEN cf' = c /\ UNCHANGED <<pos, st>>
          ELSE LET l == Append(c.out[Len(c.out)], 10) IN
               IF pos + Len(l) <= Len(R.out) /\ SubSeq(R.out, pos + 1, pos + Len(l)) = l
               THEN cf' = [c EXCEPT !.out = <<>>] /\ pos' = pos + Len(l) /\ UNCHANGED st
               ELSE cf' = cf /\ st' = "another output" /\ UNCHANGED pos
       /\ UNCHANGED ln
GlobalsAgree == \A n \in 1..Len(cf.p) : cf.p[n].d = "global" => \E g \in 1..Len(R.gs) : R.gs[g].k = cf.p[n].x /\ Same(cf.env[1][cf.p[n].x], R.gs[g].v)
Judge == /\ st = "running" /\ cf.ph \in {"done", "err", "unbound"}
         /\ st' = CASE cf.ph = "err" -> "ok"
                    [] cf.ph = "unbound" -> IF R.ends = "panic" THEN "ok" ELSE "a variable without a value is read"
                    [] OTHER -> IF R.ends # "done" THEN "runs to its end"
                                ELSE IF pos # Len(R.out) THEN "more output"
                                ELSE IF ~ Same(cf.vs[1], R.v) THEN "another result"
                                ELSE IF ~ GlobalsAgree THEN "another value of a global" ELSE "ok"
         /\ UNCHANGED <<ln, cf, pos>>
Next == Read \/ Run \/ Judge
Spec == Init /\ [][Next]_vars
Report == st \notin {"reading", "running", "ok"} => PrintT(ToJson([line |-> ln - 1, want |-> st]))
Accepted == st = "ok" => PrintT(ToJson([accepted |-> ln - 1, ends |-> cf.ph]))
=============================================================================
