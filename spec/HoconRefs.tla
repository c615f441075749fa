----------------------------- MODULE HoconRefs -----------------------------
(***************************************************************************)
(* References (H02).  The machine resolves the references of a document    *)
(* one by one, in any order in which each finds what it needs already      *)
(* resolved; whatever the order, every reference gets the value that       *)
(* following it recursively gives (Agree), at the end the document is the  *)
(* same (Confluent), and a reference that is in force and leads back to    *)
(* itself is never resolved (Stays): such a reference is taken to lead     *)
(* nowhere (Cut), so that every document means something or fails          *)
(* (Decided).  The documents are replayed on the real crate in two         *)
(* environments.                                                           *)
(***************************************************************************)
EXTENDS Hocon, Json

CONSTANT Deep

A == <<97>>
B == <<98>>
CC == <<99>>
K == <<107>>
M == <<109>>
X(n) == Int_(n)
S_(n) == Str_(<<120, 48 + n>>)
SET == T_("SET")
UNSET == T_("UNSET")

Defs(n) == <<
  Prop(<<A>>, X(n)), Prop(<<B>>, S_(n)), Prop(<<CC, K>>, X(n)),
  Prop(<<A>>, Ref_(<<B>>)), Prop(<<A>>, Opt_(<<B>>)), Prop(<<A>>, Ref_(<<CC, K>>)), Prop(<<A>>, Opt_(<<UNSET>>)),
  Prop(<<B>>, Opt_(<<CC, K>>)), Prop(<<B>>, Ref_(<<CC>>)), Prop(<<B>>, Opt_(<<UNSET>>)), Prop(<<A>>, Opt_(<<SET>>)),
  Prop(<<B>>, Ref_(<<SET>>)),
  Prop(<<CC>>, Obj_(<<Prop(<<K>>, X(n)), Prop(<<K>>, Opt_(<<UNSET>>)), Prop(<<M>>, Ref_(<<CC, K>>))>>)),
  Prop(<<B>>, Arr_(<<Ref_(<<A>>), Opt_(<<UNSET>>), X(n), Obj_(<<Prop(<<K>>, X(n)), Prop(<<K>>, Opt_(<<CC>>)), Prop(<<M>>, Opt_(<<UNSET>>))>>)>>)),
  Prop(<<B>>, Obj_(<<Prop(<<K>>, Opt_(<<A>>)), Prop(<<M>>, Opt_(<<UNSET>>))>>)),
  Prop(<<CC>>, Ref_(<<B>>)), Prop(<<CC, K>>, Opt_(<<B, K>>)), Prop(<<A>>, Opt_(<<B, K>>)),
  Prop(<<A, K>>, Ref_(<<CC, M>>)), Prop(<<CC>>, Opt_(<<A>>)),
  Prop(<<CC, M>>, S_(n)), Prop(<<B>>, Obj_(<<>>))
>>
Few == {1, 2, 5, 6, 7, 8, 10, 11, 15, 16, 17, 20}
N == Len(Defs(1))
PropDoc(ps) == [k |-> "props", ps |-> ps, rs |-> <<>>]
SplitDoc(ps) == [k |-> "objs", ps |-> <<>>, rs |-> [x \in 1..Len(ps) |-> Obj_(<<ps[x]>>)]]
ArrDoc(vs)  == [k |-> "arrs", ps |-> <<>>, rs |-> [x \in 1..Len(vs) |-> Arr_(<<vs[x], X(x)>>)]]
\* which definitions may be the f-th and following ones
Choice(f) == IF Len(f) < 3 THEN 1..N
             ELSE LET S == IF Deep THEN IF Len(f) = 3 THEN 1..N ELSE {1, 4, 5, 7, 8, 15, 16, 17, 21} ELSE {1, 4, 7, 8, 15, 16, 21}
                  IN IF \A x \in DOMAIN f : f[x] \in S THEN S ELSE {}
Longest == IF Deep THEN 5 ELSE 4
\* the ways to write these definitions as one document
Made(f) == LET ps == [x \in DOMAIN f |-> Defs(x)[f[x]]] IN
           {PropDoc(ps)} \cup (IF Len(f) = 2 \/ (Len(f) = 3 /\ (Deep \/ \A x \in 1..3 : f[x] \in Few)) THEN {SplitDoc(ps)} ELSE {})
           \cup (IF Len(f) < 3 THEN {ArrDoc([x \in DOMAIN ps |-> ps[x].v])} ELSE {})

\* without anything set; with a set name, and a name and a path which documents may define themselves
Envs == << NoEnv, SET :> T_("env") @@ B :> T_("envb") @@ T_("c.k") :> T_("env ck") >>

Styles == << Style(<<10>>, T_(" = "), <<10>>, FALSE, FALSE, FALSE), Style(<<44>>, T_(":"), <<>>, TRUE, TRUE, FALSE) >>

\* the references of a document: [id, evs, i, v] as RefVal takes them
RECURSIVE RefsIn(_, _, _, _)
RefsOfEvents(evs, id) == UNION { IF evs[i].k = "leaf" THEN RefsIn(evs, i, evs[i].v, Append(id, i)) ELSE {} : i \in DOMAIN evs }
RefsIn(evs, i, v, id) ==
  IF v.t = "ref" THEN {[id |-> id, evs |-> evs, i |-> i, v |-> v]}
  ELSE IF v.t = "arr" THEN UNION { RefsIn(<<>>, 0, v.es[k], Append(id, k)) : k \in 1..Len(v.es) }
  ELSE IF v.t = "obj" THEN RefsOfEvents(Events(v.ps, <<>>), id)
  ELSE {}
Refs(d) == IF d.k = "arrs" THEN RefsIn(<<>>, 0, Arr_(DocElems(d)), <<>>) ELSE RefsOfEvents(DocEvents(d), <<>>)

\* def: the definitions so far, while doc is not made yet
VARIABLES def, doc, e, refs, res
vars == <<def, doc, e, refs, res>>
None == [k |-> "none"]

Cx(known) == Context(doc, Envs[e], known)
Fuel == Cardinality(refs)
Init == def = <<>> /\ doc = None /\ e = 0 /\ refs = {} /\ res = Nothing
Write == /\ doc = None
         /\ Len(def) < Longest
         /\ \E x \in Choice(def) : def' = Append(def, x)
         /\ UNCHANGED <<doc, e, refs, res>>
Made_ == /\ doc = None
         /\ \E d \in Made(def) : /\ doc' = d
                                 /\ ~ ObjOnRef(DocEvents(d))
                                 /\ refs' = Refs(d)
         /\ refs' # {}
         /\ e' \in DOMAIN Envs
         /\ def' = <<>>
         /\ UNCHANGED res
Ready(r) == r.id \notin DOMAIN res /\ RefVal(Cx(res), r.evs, r.i, r.v, r.id, 1) # Stuck
Resolve(r) == /\ Ready(r)
              /\ res' = (r.id :> RefVal(Cx(res), r.evs, r.i, r.v, r.id, 1)) @@ res
              /\ UNCHANGED <<def, doc, e, refs>>
\* larger documents: long chains of references, a key redefined many times, many references to one path
R(n) == <<97 + n>>
Chain(m, opt) == [n \in 1..m |-> Prop(<<R(n)>>, IF n = m THEN X(7) ELSE IF opt THEN Opt_(<<R(n + 1)>>) ELSE Ref_(<<R(n + 1)>>))]
Turned(ps) == [n \in DOMAIN ps |-> ps[Len(ps) + 1 - n]]
Larger == { PropDoc(ps) : ps \in { Chain(m, o) : m \in {4, 9}, o \in BOOLEAN } } \cup { PropDoc(Turned(Chain(m, o))) : m \in {4, 9}, o \in BOOLEAN }
     \cup { PropDoc(<<Prop(<<A>>, X(1))>> \o [n \in 1..m |-> Prop(<<A>>, Opt_(<<IF n = k THEN SET ELSE UNSET>>))]) : m \in {5, 8}, k \in {0, 2, 5} }
     \cup { PropDoc(<<Prop(<<A>>, Arr_([n \in 1..7 |-> IF n % 3 = 0 THEN X(n) ELSE IF n % 3 = 1 THEN Ref_(<<B>>) ELSE Opt_(<<IF n = 5 THEN B ELSE UNSET>>)])), Prop(<<B>>, v)>>)
             : v \in {X(5), Arr_(<<X(1), X(2)>>), Obj_(<<Prop(<<K>>, X(3))>>), Ref_(<<CC>>)} }
     \cup { PropDoc(<<Prop(<<A>>, Obj_([n \in 1..6 |-> Prop(<<R(n)>>, IF n % 2 = 0 THEN Ref_(<<CC, K>>) ELSE Opt_(<<CC, M>>))])), Prop(<<CC>>, Obj_(<<Prop(<<K>>, X(1))>>)), Prop(<<CC, K>>, Opt_(<<UNSET>>))>>) }
MadeLarger == /\ doc = None /\ def = <<>>
              /\ doc' \in Larger
              /\ refs' = Refs(doc') /\ e' \in DOMAIN Envs
              /\ UNCHANGED <<def, res>>
Next == Write \/ Made_ \/ MadeLarger \/ \E r \in refs : Resolve(r)
Spec == Init /\ [][Next]_vars

Final == doc # None /\ \A r \in refs : ~ Ready(r)
Whole_ == RootVal(Cx(Nothing), doc, Fuel)
Agree == \A r \in refs : r.id \in DOMAIN res => res[r.id] = RefVal(Cx(Nothing), r.evs, r.i, r.v, r.id, Fuel)
Confluent == Final => RootVal(Cx(res), doc, 0) = Whole_
Stays == Final => \A r \in refs : r.id \notin DOMAIN res => RefVal(Cx(Nothing), r.evs, r.i, r.v, r.id, Fuel) = Stuck
\* an optional reference never makes an error of its own
Optional == doc # None /\ (\A r \in refs : r.v.opt) => Whole_ # Err
\* where nothing leads back to itself, cutting changes nothing
Cut == doc # None => (Whole_ # Stuck => CutVal(doc, Envs[e]) = Whole_)
\* every document has a meaning or is an error
Decided == doc # None => CutVal(doc, Envs[e]) # Stuck
OptionalCut == doc # None /\ (\A r \in refs : r.v.opt) => CutVal(doc, Envs[e]) # Err
Emit == DOMAIN res = {} /\ e = 1 =>
  PrintT(ToJson([ts |-> [s \in DOMAIN Styles |-> DocText(Styles[s], doc)],
                 ws |-> <<Shown(CutVal(doc, Envs[1])), Shown(CutVal(doc, Envs[2]))>>]))
=============================================================================
