----------------------------- MODULE CombTrace ------------------------------
(***************************************************************************)
(* Trace validation: executions recorded from the real library, with a     *)
(* probe around every node, are checked against Comb.  An "in" event must  *)
(* be a call (child, offset) that the operational rules (Resume) make for  *)
(* the invocation on top of the stack; an "out" event must carry the       *)
(* result the denotation gives for that node there.  Sub-parsers whose     *)
(* result is remembered or not needed may stay silent.                     *)
(***************************************************************************)
EXTENDS Comb, Json

CONSTANT TraceFile

Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, stack, verdict
vars == <<t, l, stack, verdict>>

W == Traces[t].w
E == Traces[t].ev[l]
Enter(g, i) == [g |-> g, i |-> i, calls |-> Calls(g, W, i)]
Top == stack[Len(stack)]

Init == t \in DOMAIN Traces /\ l = 1 /\ stack = <<>> /\ verdict = "ok"

In ==
  /\ E.a = "in"
  /\ IF stack = <<>>
     THEN /\ l = 1 /\ E.o = Traces[t].i
          /\ stack' = <<Enter(Traces[t].g, E.o)>>
     ELSE /\ <<E.x, E.o>> \in Top.calls
          /\ stack' = Append(stack, Enter(Top.g.c[E.x], E.o))

Out ==
  /\ E.a = "out" /\ stack # <<>>
  /\ LET r == Ev(Top.g, W, Top.i) IN
     /\ E.ok = r.ok
     /\ r.ok => E.v = r.v /\ E.n = r.n
     /\ ~ r.ok => E.c = r.c
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)

Event == /\ l <= Len(Traces[t].ev) /\ (In \/ Out) /\ l' = l + 1 /\ UNCHANGED <<t, verdict>>
Reject == /\ verdict = "ok" /\ l <= Len(Traces[t].ev) /\ ~ (ENABLED Event) /\ verdict' = "rejected" /\ UNCHANGED <<t, l, stack>>
Next == verdict = "ok" /\ (Event \/ Reject)
Spec == Init /\ [][Next]_vars

Report == verdict = "rejected" => PrintT(ToJson([trace |-> t - 1, event |-> l, e |-> E,
            want |-> IF stack = <<>> THEN NoRes ELSE Ev(Top.g, W, Top.i),
            calls |-> IF stack = <<>> THEN {} ELSE Top.calls]))
Complete == (l > Len(Traces[t].ev)) => stack = <<>>
Accepted == (l > Len(Traces[t].ev) /\ verdict = "ok") => PrintT(ToJson([accepted |-> t - 1]))
=============================================================================
