------------------------------ MODULE UriQuery ------------------------------
(***************************************************************************)
(* U03: queries as multimaps.  A query begins as a text or as a list of    *)
(* parameters and parameters are added; an index from names to values is   *)
(* kept beside the list and must be what the list says.  Every state is    *)
(* printed with all that can be observed of it, for replay.                *)
(***************************************************************************)
EXTENDS Uri, Json

CONSTANT Deep

VARIABLES start, ops, params, index
vars == <<start, ops, params, index>>

Words(A, lo, hi) == UNION { [1..len -> A] : len \in lo..hi }

\* texts of queries: short ones over the classes that matter, and lists of pieces
Texts == Words({97, 98, EQ, AM}, 0, IF Deep THEN 7 ELSE 5)
         \cup Words({97, EQ, AM, QM, SL, AT}, 0, IF Deep THEN 5 ELSE 4)
         \cup { FlatWith(q, <<AM>>) : q \in Words(TS({"", "a", "a=", "a=1", "b=1", "a=b=c", "%41=%3d", "="}), 1, IF Deep THEN 4 ELSE 3) }
         \cup { T_("a") \o <<ch>> \o T_("b=c") \o <<ch>> \o T_("d") : ch \in 32..126 }

\* long ones: many parameters of few or many names, long names and values
Repeat(a, n) == [x \in 1..n * Len(a) |-> a[((x - 1) % Len(a)) + 1]]
RECURSIVE Numeral_(_)
Numeral_(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Numeral_(n \div 10), 48 + (n % 10))
Sizes == IF Deep THEN {7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129} ELSE {8, 17, 33, 65}
Large == { FlatWith([x \in 1..n |-> T_("k") \o Numeral_(x % m) \o T_("=") \o Numeral_(x)], <<AM>>) : n \in Sizes, m \in {1, 3, 1000} }
         \cup { FlatWith([x \in 1..n |-> a], <<AM>>) : n \in Sizes, a \in TS({"a", "a=1", "=", ""}) }
         \cup { T_("b=1&") \o Repeat(T_("a"), n) \o T_("=") \o Repeat(T_("xyz/?"), n) \o T_("&b=2") : n \in Sizes }
         \cup { T_("a=") \o Repeat(T_("%e3"), n) \o T_("&") \o Repeat(T_("%41"), n) : n \in Sizes }

P(k, v) == Param(T_(k), TRUE, T_(v))
K(k) == Param(T_(k), FALSE, <<>>)
Lists == { <<>>, << P("a", "1") >>, << K("a") >>, << P("a", "1"), P("b", "2"), P("a", "3") >>, << K("a"), P("a", "1"), K("a") >>, << P("b", ""), K("b") >> }
Seeds == TS({"", "a", "a=1&b&a=2", "b=x=y&=&a"})

Starts == [kind : {"text"}, t : Texts \cup Large, ps : {<<>>}, grow : {FALSE}]
          \cup [kind : {"text"}, t : Seeds, ps : {<<>>}, grow : {TRUE}]
          \cup [kind : {"list"}, t : {<<>>}, ps : Lists, grow : {TRUE}]

Op(o, k, hv, v) == [o |-> o, k |-> k, hv |-> hv, v |-> v]
Ops == { Op("add", T_(k), TRUE, T_(v)) : k \in {"a", "b"}, v \in {"1", ""} }
       \cup { Op("opt", T_(k), TRUE, T_("2")) : k \in {"a", "b"} }
       \cup { Op("opt", T_(k), FALSE, <<>>) : k \in {"a", "c"} }
       \cup { Op("add", T_("a"), TRUE, T_("x=y")) }
Depth == IF Deep THEN 4 ELSE 3

\* the index, kept parameter by parameter: names in order of appearance, each with its values
Slot(k, vs) == [k |-> k, vs |-> vs]
Keep(ix, p) ==
  LET at == { x \in 1..Len(ix) : ix[x].k = p.k } IN
  IF at = {} THEN Append(ix, Slot(p.k, IF p.hv THEN <<p.v>> ELSE <<>>))
  ELSE LET x == CHOOSE y \in at : TRUE IN IF p.hv THEN [ix EXCEPT ![x].vs = Append(@, p.v)] ELSE ix
RECURSIVE KeepAll(_, _)
KeepAll(ix, ps) == IF Len(ps) = 0 THEN ix ELSE KeepAll(Keep(ix, ps[1]), Tail(ps))

\* the text of the query as the reader of URIs reads it, character by character
RECURSIVE ReadOn(_, _)
ReadOn(s, q) == IF Len(q) = 0 THEN Read(s, End) ELSE ReadOn(Read(s, q[1]), Tail(q))
Begun(s0) == IF s0.kind = "list" THEN [ok |-> TRUE, ps |-> s0.ps]
             ELSE LET u == Outcome(ReadOn(Reader0, T_("s:?") \o s0.t)) IN [ok |-> u.ok, ps |-> u.q]

Init == /\ start \in Starts /\ ops = <<>>
        /\ params = Begun(start).ps /\ index = KeepAll(<<>>, params)
Add(o) == /\ ops' = Append(ops, o)
          /\ IF o.o = "opt" /\ ~ o.hv THEN UNCHANGED <<params, index>>
             ELSE LET p == Param(o.k, TRUE, o.v) IN params' = Append(params, p) /\ index' = Keep(index, p)
          /\ UNCHANGED start
Next == start.grow /\ Begun(start).ok /\ Len(ops) < Depth /\ \E o \in Ops : Add(o)
Spec == Init /\ [][Next]_vars

Ok == Begun(start).ok
MeaningAgrees == start.kind = "text" => LET u == Meaning(T_("s:?") \o start.t) IN u.ok = Ok /\ u.q = Begun(start).ps
IndexIsList == /\ { index[x].k : x \in 1..Len(index) } = Names(params)
               /\ \A x \in 1..Len(index) : index[x].vs = ValuesOf(params, index[x].k)
PrintedIsRead == (start.kind = "text" /\ Ok /\ ops = <<>>) => PrintQuery(params) = start.t
\* adding keeps what was there, in order
Monotone == /\ Len(params) >= Len(Begun(start).ps)
            /\ SubSeq(params, 1, Len(Begun(start).ps)) = Begun(start).ps
            /\ Len(params) = Len(Begun(start).ps) + Cardinality({ x \in 1..Len(ops) : ops[x].hv })

Asked == Names(params) \cup TS({"a", "c", "zz"})
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetSeq(S \ {e})
Emit == PrintT(ToJson([from |-> start, ok |-> Ok, ops |-> ops, ps |-> params, pr |-> PrintQuery(params),
                       n |-> Cardinality(Names(params)), lk |-> SetSeq({ Lookup(params, k) : k \in Asked })]))
=============================================================================
