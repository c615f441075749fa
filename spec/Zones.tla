-------------------------------- MODULE Zones --------------------------------
(***************************************************************************)
(* Time zones whose offset changes: [o |-> the first offset,               *)
(* tr |-> <<[u |-> instant, o |-> the offset from then on], ...>>].        *)
(* Instants are minutes of UTC here; what a schedule looks at is the local *)
(* time, instant + offset.                                                 *)
(***************************************************************************)
EXTENDS Cron

RECURSIVE OffAt(_, _, _)
\* the offset at instant u, looking at the first k transitions
OffAt(z, k, u) == IF k = 0 THEN z.o ELSE IF z.tr[k].u <= u THEN z.tr[k].o ELSE OffAt(z, k - 1, u)
Off(z, u) == OffAt(z, Len(z.tr), u)
Local(z, u) == u + Off(z, u)
SatisfiedIn(z, fs, u) == Satisfied(fs, Local(z, u))

\* the first instant from u on, not after last, that satisfies fs: stretch by stretch of constant offset
RECURSIVE FirstIn(_, _, _, _)
FirstIn(z, fs, u, last) ==
  LET later == { k \in 1..Len(z.tr) : z.tr[k].u > u }
      k == IF later = {} THEN 0 ELSE MinOf(later)
      stop == IF k = 0 \/ z.tr[k].u > last THEN last ELSE z.tr[k].u - 1
      o == Off(z, u)
      t == FirstOcc(fs, u + o, stop + o)
  IN IF u > last THEN -1
     ELSE IF t # -1 THEN t - o
     ELSE IF stop = last THEN -1
     ELSE FirstIn(z, fs, stop + 1, last)
=============================================================================
