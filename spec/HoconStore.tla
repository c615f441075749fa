----------------------------- MODULE HoconStore -----------------------------
(***************************************************************************)
(* Lookup in a document (H01).  The machine applies the definitions of a   *)
(* document to a tree one event at a time; at each moment the tree is what *)
(* the last touching definitions say (LastWins), its shape is sound        *)
(* (Prefixes), and every spelling of the document reads back as the same   *)
(* document (ReadsBack).  The texts, with the final tree, are replayed on  *)
(* the real crate.                                                         *)
(***************************************************************************)
EXTENDS Hocon, Json

CONSTANT Deep

A == <<97>>
B == <<98>>
CC == <<99>>
X(n) == Int_(n)
S_(n) == Str_(<<120, 48 + n>>)

\* the definitions of which documents are made; n tells the values of different definitions apart
Defs(n) == <<
  Prop(<<A>>, X(n)), Prop(<<A, B>>, X(n)), Prop(<<A, B, CC>>, X(n)), Prop(<<B>>, S_(n)),
  Prop(<<A>>, Obj_(<<Prop(<<B>>, X(n)), Prop(<<CC>>, X(n + 100))>>)),
  Prop(<<A>>, Obj_(<<Prop(<<B>>, Obj_(<<Prop(<<CC>>, X(n))>>))>>)),
  Prop(<<A>>, Obj_(<<>>)),
  Prop(<<A, B>>, Obj_(<<Prop(<<CC>>, X(n)), Prop(<<CC>>, X(n + 100))>>)),
  Prop(<<A>>, Arr_(<<X(n)>>)),
  Prop(<<A>>, Null_),
  Prop(<<A>>, Obj_(<<Prop(<<B>>, X(n)), Prop(<<B, CC>>, X(n + 100))>>)),
  Prop(<<A>>, Obj_(<<Prop(<<B, CC>>, X(n)), Prop(<<B>>, X(n + 100))>>)),
  Prop(<<B, A>>, Bool_(n % 2 = 1)),
  Prop(<<B>>, Arr_(<<X(n), Obj_(<<Prop(<<A>>, X(n)), Prop(<<A>>, X(n + 100)), Prop(<<B, A>>, X(n))>>), Arr_(<<>>)>>)),
  Prop(<<B>>, Obj_(<<Prop(<<A>>, Arr_(<<Obj_(<<Prop(<<CC>>, X(n))>>), Obj_(<<Prop(<<CC>>, S_(n))>>)>>))>>))
>>
Few == {1, 2, 4, 5, 6, 7, 8, 11, 13}
N == Len(Defs(1))
Docs0(k, S) == { [x \in 1..k |-> Defs(x)[f[x]]] : f \in [1..k -> S] }
PropDoc(ps) == [k |-> "props", ps |-> ps, rs |-> <<>>]
ObjDoc(ps)  == [k |-> "objs", ps |-> <<>>, rs |-> <<Obj_(ps)>>]
SplitDoc(ps) == [k |-> "objs", ps |-> <<>>, rs |-> [x \in 1..Len(ps) |-> Obj_(<<ps[x]>>)]]
ArrDoc(vs)  == [k |-> "arrs", ps |-> <<>>, rs |-> [x \in 1..Len(vs) |-> Arr_(<<vs[x], vs[x]>>)]]
Docs == { PropDoc(ps) : ps \in UNION { Docs0(k, 1..N) : k \in 0..3 } }
        \cup { ObjDoc(ps) : ps \in UNION { Docs0(k, 1..N) : k \in 0..2 } }
        \cup { SplitDoc(ps) : ps \in UNION { Docs0(k, IF Deep THEN 1..N ELSE Few) : k \in 1..3 } }
        \cup { ArrDoc([x \in DOMAIN ps |-> ps[x].v]) : ps \in UNION { Docs0(k, 1..N) : k \in 1..2 } }
        \cup (IF Deep THEN { PropDoc(ps) : ps \in Docs0(4, 1..N) } ELSE { PropDoc(ps) : ps \in Docs0(4, {1, 2, 5, 6, 8}) })

\* larger ones: many definitions, one key many times, deep nesting in either spelling, long arrays and strings, many objects merged
Name(n) == <<97 + (n % 26), 97 + (n \div 26)>>
RECURSIVE Deep_(_, _), DeepArr(_, _), DeepKeys(_, _)
Deep_(n, v) == IF n = 0 THEN v ELSE Obj_(<<Prop(<<A>>, Deep_(n - 1, v)), Prop(<<B>>, X(n))>>)
DeepKeys(n, v) == IF n = 0 THEN v ELSE Obj_(<<Prop(<<A, CC>>, DeepKeys(n - 1, v)), Prop(<<A, B>>, X(n))>>)
DeepArr(n, v) == IF n = 0 THEN v ELSE Arr_(<<X(n), DeepArr(n - 1, v)>>)
Few3(n) == <<A, B, CC>>[(n % 3) + 1]
Many == IF Deep THEN {9, 17, 33, 66, 120} ELSE {17, 66}
Levels == IF Deep THEN {5, 9, 14} ELSE {9}
Large == { PropDoc([n \in 1..m |-> Prop(<<Name(n)>>, X(n))]) : m \in Many }
   \cup { PropDoc([n \in 1..m |-> Prop(<<A, Name(n % 20)>>, X(n))]) : m \in Many }
   \cup { PropDoc([n \in 1..m |-> Defs(n % 10)[((n * k) % N) + 1]]) : m \in Many, k \in {4, 7, 11} }
   \cup { SplitDoc([n \in 1..m |-> Prop(<<A>>, Obj_(<<Prop(<<Name(n % 13)>>, X(n)), Prop(<<B>>, X(n + 1))>>))]) : m \in Many }
   \cup { ObjDoc([n \in 1..m |-> Prop(<<Few3(n), Few3(n \div 3), Name(n)>>, X(n))]) : m \in Many }
   \cup { ObjDoc(<<Prop(<<A>>, f), Prop(<<B>>, X(1)), Prop(<<A>>, g)>>) : f \in {Deep_(m, X(0)) : m \in Levels}, g \in {Deep_(4, Bool_(TRUE)), DeepKeys(3, X(1)), X(1)} }
   \cup { PropDoc(<<Prop(<<A>>, DeepKeys(m, Obj_(<<>>)))>>) : m \in Levels } \cup { PropDoc(<<Prop(<<B>>, DeepArr(m, Null_)), Prop(<<A>>, X(m))>>) : m \in Levels }
   \cup { PropDoc(<<Prop([n \in 1..m |-> A], X(1)), Prop([n \in 1..m |-> IF n = m THEN B ELSE A], X(2)), Prop([n \in 1..m - 2 |-> A], v)>>) : m \in Levels, v \in {X(3), Obj_(<<Prop(<<CC>>, X(4))>>)} }
   \cup { PropDoc(<<Prop(<<A>>, Arr_([n \in 1..m |-> IF n % 7 = 3 THEN S_(n % 10) ELSE X(n)])), Prop(<<B>>, X(m))>>) : m \in Many }
   \cup { ArrDoc([n \in 1..m |-> X(n)]) : m \in Many } \cup { PropDoc(<<Prop(<<A>>, Str_([n \in 1..m |-> 97 + (n % 26)])), Prop(<<[n \in 1..m |-> 97 + (n % 26)]>>, X(1))>>) : m \in Many }

\* spellings: newline; comma; comment before every newline; colon and comma-newline; CRLF and hash comments; dense
Styles == <<
  Style(<<10>>, T_(" = "), <<10>>, FALSE, FALSE, FALSE),
  Style(<<44>>, T_("="), <<>>, TRUE, FALSE, FALSE),
  Style(T_(" // c, d=1") \o <<10>>, T_(" : "), T_(" # {") \o <<10, 9>>, TRUE, FALSE, FALSE),
  Style(T_(" ,") \o <<10, 32>>, T_(":"), <<32, 10>>, FALSE, TRUE, TRUE),
  Style(<<13, 10>> \o T_("#x") \o <<13, 10>> \o T_("  //y") \o <<13, 10>>, <<61, 9>>, <<13, 10>>, TRUE, TRUE, FALSE),
  Style(<<32>>, T_("= "), <<32>>, FALSE, FALSE, TRUE)
>>

VARIABLES doc, evs, n, tree
vars == <<doc, evs, n, tree>>

\* the tree: path -> "obj" or a value
Below(t, p) == { q \in DOMAIN t : Before(p, q) }
Cut(t, S) == [q \in DOMAIN t \ S |-> t[q]]
Put(t, p, x) == (p :> x) @@ t
IsObj(t, p) == p \in DOMAIN t /\ t[p] = [o |-> TRUE]
Apply(t, e) == IF e.k = "obj" THEN IF IsObj(t, e.p) THEN t ELSE Put(t, e.p, [o |-> TRUE])
               ELSE Put(Cut(t, Below(t, e.p)), e.p, e.v)

Init == /\ doc \in Docs \cup Large
        /\ evs = DocEvents(doc)
        /\ n = 0
        /\ tree = [q \in {} |-> Undef]
Next == /\ n < Len(evs)
        /\ n' = n + 1
        /\ tree' = Apply(tree, evs[n + 1])
        /\ UNCHANGED <<doc, evs>>
Spec == Init /\ [][Next]_vars

Paths == UNION { [1..k -> {A, B, CC}] : k \in 1..3 }
LastWins == \A p \in Paths :
  LET i == At(evs, n, p) IN
  IF i = 0 THEN p \notin DOMAIN tree
  ELSE p \in DOMAIN tree /\ tree[p] = (IF evs[i].k = "obj" THEN [o |-> TRUE] ELSE evs[i].v)
Prefixes == \A p \in DOMAIN tree : Len(p) > 1 => IsObj(tree, SubSeq(p, 1, Len(p) - 1))
Whole_ == RootVal(Context(doc, NoEnv, Nothing), doc, 0)
\* what is found at a path is there, and the other way round
Found == n = Len(evs) /\ doc.k # "arrs" => \A p \in Paths :
  LET w == Lookup(Whole_, p) IN
  /\ (w # Undef) = (p \in DOMAIN tree)
  /\ w # Undef => (w.t = "map") = IsObj(tree, p)
ReadsBack == n = 0 => \A s \in DOMAIN Styles : ReadDoc(DocText(Styles[s], doc)) = (IF doc.k = "objs" /\ Len(doc.rs) = 0 THEN PropDoc(<<>>) ELSE doc)
\* the document in several files that one document includes one after the other
Parts == IF doc.k = "props" THEN [x \in DOMAIN doc.ps |-> PropDoc(<<doc.ps[x]>>)] ELSE [x \in DOMAIN doc.rs |-> [doc EXCEPT !.rs = <<doc.rs[x]>>]]
PartsAreWhole == n = 0 => Flat([x \in DOMAIN Parts |-> DocEvents(Parts[x])]) = evs
Emit == n = Len(evs) =>
  PrintT(ToJson([ts |-> [s \in DOMAIN Styles |-> DocText(Styles[s], doc)], w |-> Shown(Whole_),
                 is |-> IF Len(Parts) \in 2..5 THEN [x \in DOMAIN Parts |-> DocText(Styles[((x + Len(evs)) % Len(Styles)) + 1], Parts[x])] ELSE <<>>]))
=============================================================================
