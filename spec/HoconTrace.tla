----------------------------- MODULE HoconTrace -----------------------------
(***************************************************************************)
(* Validation of what the real crate was recorded finding in documents.  A *)
(* line is [q |-> text, env |-> names and texts set, err |-> whether       *)
(* reading failed, w |-> what was found].  The text is read (one           *)
(* transition), its meaning settled (one more) and compared.               *)
(***************************************************************************)
EXTENDS Hocon, Json

CONSTANT TraceFile
Lines == ndJsonDeserialize(TraceFile)

VARIABLES ln, st
vars == <<ln, st>>

R == Lines[ln]
Init == ln \in DOMAIN Lines /\ st = [v |-> "text", d |-> Bad, want |-> <<>>]

RECURSIVE Same(_, _)
Same(w, r) ==
  /\ w.t = r.t
  /\ CASE w.t = "null" -> TRUE
       [] w.t = "bool" -> w.b = r.b
       [] w.t = "str" -> w.s = r.s
       [] w.t \in {"num", "dur"} -> w.neg = r.neg /\ w.co = r.co /\ w.ex = r.ex
       [] w.t = "arr" -> Len(w.es) = Len(r.es) /\ \A x \in 1..Len(w.es) : Same(w.es[x], r.es[x])
       [] w.t = "map" -> /\ Len(r.kv) = Cardinality(DOMAIN w.kv)
                         /\ \A x \in 1..Len(r.kv) : r.kv[x].k \in DOMAIN w.kv /\ Same(w.kv[r.kv[x].k], r.kv[x].v)
       [] OTHER -> FALSE

Env == [nm \in { R.env[x].k : x \in 1..Len(R.env) } |-> LET x == CHOOSE y \in 1..Len(R.env) : R.env[y].k = nm IN R.env[x].v]

Read == /\ st.v = "text"
        /\ LET d == ReadDoc(R.q) IN st' = [v |-> IF d = Bad THEN "bad" ELSE "doc", d |-> d, want |-> <<"not a document">>]
Judge == /\ st.v = "doc"
         /\ LET cx == Context(st.d, Env, Nothing)
                w  == CutVal(st.d, Env)
                out == ObjOnRef(cx.evs)
                good == out \/ (IF w = Err THEN R.err ELSE ~ R.err /\ Same(w, R.w))
            IN st' = [st EXCEPT !.v = IF good THEN "ok" ELSE "bad", !.want = <<Shown(w)>>]
Next == (Read \/ Judge) /\ UNCHANGED ln
Spec == Init /\ [][Next]_vars
Report == st.v = "bad" => PrintT(ToJson([line |-> ln - 1, want |-> st.want]))
Accepted == st.v = "ok" => PrintT(ToJson([accepted |-> ln - 1]))
=============================================================================
