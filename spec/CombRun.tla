------------------------------ MODULE CombRun -------------------------------
(***************************************************************************)
(* The machine: a stack of invocations, one transition per sub-parser call *)
(* or return, run on every grammar of a family over every input and start  *)
(* offset.  Checked: at the end the machine's result is the denotation Ev  *)
(* (so the operational rules are the documented meaning), and the          *)
(* properties C01..C10 of single transitions and of results.               *)
(* Every terminated run is printed as one JSON line: the conformance       *)
(* harness replays those lines on the real library.                        *)
(***************************************************************************)
EXTENDS Comb, Json, CombFamilies

CONSTANTS Family, EmitFile

VARIABLES gi, w, i0, stack, ret, done
vars == <<gi, w, i0, stack, ret, done>>

Short == FamilyOf(Family)
Ins == InputsOf(Family)
Long == LongOf(Family)
Extra == ExtraOf(Family)
Gs == Short \o Long \o [k \in DOMAIN Extra |-> Extra[k][1]]
InputsFor(k) == IF k <= Len(Short) THEN Ins ELSE IF k <= Len(Short) + Len(Long) THEN LongInputs(Family) ELSE Extra[k - Len(Short) - Len(Long)][2]

ASSUME JsonSerialize(EmitFile, Gs)

Init ==
  /\ gi \in DOMAIN Gs
  /\ \E p \in InputsFor(gi) : w = p[1] /\ i0 = p[2]
  /\ stack = <<>> /\ ret = NoRes /\ done = FALSE

Top == stack[Len(stack)]

\* start: invoke the root
EnterRes(g, i) == IF g.k \in LeafKinds THEN LeafEv(g, w, i) ELSE NoRes

Start ==
  /\ ~ done /\ stack = <<>>
  /\ IF Gs[gi].k \in LeafKinds
     THEN ret' = LeafEv(Gs[gi], w, i0) /\ done' = TRUE /\ UNCHANGED stack
     ELSE stack' = <<[f |-> Frame(Gs[gi], i0), ready |-> TRUE]>> /\ UNCHANGED <<ret, done>>
  /\ UNCHANGED <<gi, w, i0>>

CallStep ==
  /\ ~ done /\ stack # <<>> /\ Top.ready
  /\ LET st == Resume(Top.f, ret, w) IN
     /\ st.t = "call"
     /\ LET g == Top.f.g.c[st.x]
            s2 == [stack EXCEPT ![Len(stack)] = [f |-> st.f, ready |-> g.k \in LeafKinds]]
        IN IF g.k \in LeafKinds
           THEN stack' = s2 /\ ret' = LeafEv(g, w, st.at)
           ELSE stack' = Append(s2, [f |-> Frame(g, st.at), ready |-> TRUE]) /\ ret' = NoRes
  /\ UNCHANGED <<gi, w, i0, done>>

ReturnStep ==
  /\ ~ done /\ stack # <<>> /\ Top.ready
  /\ LET st == Resume(Top.f, ret, w) IN
     /\ st.t = "ret"
     /\ ret' = st.r
     /\ IF Len(stack) = 1 THEN stack' = <<>> /\ done' = TRUE
        ELSE LET s2 == SubSeq(stack, 1, Len(stack) - 1)
             IN stack' = [s2 EXCEPT ![Len(s2)].ready = TRUE] /\ UNCHANGED done
  /\ UNCHANGED <<gi, w, i0>>

Next == Start \/ CallStep \/ ReturnStep
Spec == Init /\ [][Next]_vars

Case == [g |-> gi - 1, w |-> w, i |-> i0, r |-> ret]
Emit == done => PrintT(ToJson(Case))

------------------------------------------------------------------------------
(* Invariants *)
Refines   == done => ret = Ev(Gs[gi], w, i0)
InBounds  == /\ ret.ok => (ret.n >= 0 /\ (done => i0 + ret.n <= Len(w)))
             /\ \A k \in 1..Len(stack) : stack[k].f.i + stack[k].f.n <= Len(w) /\ stack[k].f.i >= i0
\* a child runs inside its parent's span, and a sequence's next part exactly at its end
Nested    == \A k \in 1..Len(stack) - 1 : stack[k + 1].f.i >= stack[k].f.i
\* C02: the second alternative is entered only after an uncommitted failure of the first, at the same place
OrSecond  == \A k \in 1..Len(stack) : (stack[k].f.g.k = "or" /\ stack[k].f.pc = 2) =>
                LET a == Ev(stack[k].f.g.c[1], w, stack[k].f.i) IN
                  /\ ~ a.ok /\ ~ a.c
                  /\ (k < Len(stack) => stack[k + 1].f.i = stack[k].f.i)
\* C03: bounds are never exceeded while running
RepBounds == \A k \in 1..Len(stack) : LET f == stack[k].f IN
                f.g.k = "rep" => (f.g.m >= 0 => Len(f.xs) <= f.g.m)
\* C02/C04/C10: the shape of results by kind of root
Shape     == done => LET g == Gs[gi] IN
                /\ g.k \in {"peek", "not", "exists"} => (ret.ok => ret.n = 0)
                /\ g.k \in {"opt", "exists"} => ret.ok
                /\ g.k \in {"attempt", "not"} => ~ ret.c
                /\ g.k \in {"rep"} => ~ ret.c
                /\ ~ ret.ok => ret.d >= i0 /\ ret.d <= Len(w) /\ ret.o >= i0 /\ ret.o <= Len(w)
Terminates == TLCGet("level") < 400
=============================================================================
