----------------------------- MODULE HoconValues -----------------------------
(***************************************************************************)
(* Configuration values as data (H04).                                     *)
(*                                                                         *)
(* "hist": a value is the history of what it was given, newest last: a     *)
(* sequence of nodes; a node is a scalar, an array or an object, whose     *)
(* keys have histories of their own.  push adds a node; merge_with adds    *)
(* the nodes of another history one after the other, and an object on an   *)
(* object merges with it key by key.  Nothing of the past is lost (Past),  *)
(* what was merged last is found, and what it does not say anything about  *)
(* stays (Newest); it does not matter how a chain of merges is bracketed   *)
(* (Bracket).                                                              *)
(*                                                                         *)
(* "print": a value is built a key or element at a time; "text": a string  *)
(* (or key) of awkward characters; "nums": a number (or duration) of more  *)
(* and more digits, the point anywhere.  The text the value is printed as, in   *)
(* every order of its keys, reads back as it (ReadsBack).                  *)
(***************************************************************************)
EXTENDS Hocon, Json

CONSTANT Deep

VARIABLES fam, ops, st, was
vars == <<fam, ops, st, was>>

(* ---- histories ---- *)
Hobj(kv) == [t |-> "hobj", kv |-> kv]
NoKeys == [x \in {} |-> <<>>]
RECURSIVE MergeH(_, _), MergeO(_, _), ViewH(_), ViewN(_), ShownH(_), ShownN(_), PairsH(_, _)
MergeO(a, b) == Hobj(TLCEval([k \in DOMAIN a.kv \cup DOMAIN b.kv |->
                  IF k \notin DOMAIN b.kv THEN a.kv[k] ELSE IF k \notin DOMAIN a.kv THEN b.kv[k] ELSE MergeH(a.kv[k], b.kv[k])]))
Newer(h) == h[Len(h)]
Give(h, n) == IF n.t = "hobj" /\ Newer(h).t = "hobj"
              THEN LET m == MergeO(Newer(h), n) IN IF Len(h) = 1 THEN <<m>> ELSE Append(h, m)
              ELSE Append(h, n)
MergeH(h, g) == IF Len(g) = 0 THEN h ELSE MergeH(Give(h, g[1]), Tail(g))
ViewN(n) == IF n.t = "hobj" THEN [t |-> "map", kv |-> TLCEval([k \in DOMAIN n.kv |-> ViewH(n.kv[k])])]
            ELSE IF n.t = "arr" THEN Arr_([x \in 1..Len(n.es) |-> ViewN(n.es[x])])
            ELSE n
ViewH(h) == ViewN(Newer(h))
PairsH(f, S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : TRUE IN <<[k |-> c, v |-> ShownH(f[c])]>> \o PairsH(f, S \ {c})
ShownN(n) == IF n.t = "hobj" THEN [t |-> "hobj", kv |-> PairsH(n.kv, DOMAIN n.kv)]
             ELSE IF n.t = "arr" THEN Arr_([x \in 1..Len(n.es) |-> ShownN(n.es[x])])
             ELSE n
ShownH(h) == [x \in 1..Len(h) |-> ShownN(h[x])]

na == T_("a")
nb == T_("b")
nc == T_("c")
One(k, h) == Hobj(k :> h)
Scal == { Null_, Int_(1), Int_(2), Str_(T_("s")), Bool_(TRUE), Dur_(Norm(FALSE, <<3>>, 9)) }
ObjA == One(na, <<Int_(1)>>)
ObjB == One(nb, <<Arr_(<<Int_(2)>>)>>)
ObjAB == One(na, <<One(nb, <<Int_(7)>>)>>)
ObjAC == One(na, <<One(nc, <<Str_(<<>>)>>)>>)
ObjH == One(na, <<Int_(1), One(nc, <<Int_(3)>>)>>)
ObjI == Hobj(na :> <<One(nb, <<Null_>>), Int_(4)>> @@ nb :> <<Int_(5)>>)
Nodes == { Null_, Int_(1), Str_(T_("s")), Arr_(<<Int_(1), ObjA>>), Hobj(NoKeys), ObjA, ObjB, ObjAB, ObjAC, ObjH, ObjI }
         \cup IF Deep THEN { Bool_(TRUE), Arr_(<<>>), One(nb, <<ObjAB>>), One(nb, <<ObjA, Int_(1), ObjAC>>) } ELSE {}
Givens == { <<n>> : n \in Nodes } \cup { <<Int_(1), ObjA>>, <<ObjA, Int_(1)>>, <<ObjAB, Null_, ObjAC>> }
HistLen == IF Deep THEN 3 ELSE 2
Names3 == {na, nb, nc}
HPaths == UNION { [1..k -> Names3] : k \in 1..3 }

(* ---- printing ---- *)
HexOf(n) == IF n < 10 THEN 48 + n ELSE 87 + n
U4(n) == <<92, 117, HexOf(n \div 4096), HexOf((n \div 256) % 16), HexOf((n \div 16) % 16), HexOf(n % 16)>>
Escaped(s, all) ==
  Flat([x \in 1..Len(s) |-> LET c == s[x] IN
    CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
      [] c = 9 /\ all -> <<92, 116>> [] c = 8 /\ all -> <<92, 98>> [] c = 12 /\ all -> <<92, 102>> [] c = 47 /\ all -> <<92, 47>>
      [] c < 65536 /\ all -> U4(c)
      [] c >= 65536 /\ all -> U4(55296 + (c - 65536) \div 1024) \o U4(56320 + ((c - 65536) % 1024))
      [] OTHER -> <<c>>])
InQuotes(s, all) == <<34>> \o Escaped(s, all) \o <<34>>
BareName(n) == Len(n) > 0 /\ \A x \in 1..Len(n) : n[x] \in NameCh
RECURSIVE Printed(_, _), Backwards(_)
Backwards(ps) == IF Len(ps) = 0 THEN <<>> ELSE Append(Backwards(Tail(ps)), ps[1])
Printed(v, all) ==
  CASE v.t = "str" -> InQuotes(v.s, all)
    [] v.t = "arr" -> <<91>> \o FlatWith([k \in 1..Len(v.es) |-> Printed(v.es[k], all)], <<44, 32>>) \o <<93>>
    [] v.t = "obj" -> LET ps == IF all THEN Backwards(v.ps) ELSE v.ps IN
         <<123, 32>> \o FlatWith([k \in 1..Len(ps) |-> (IF BareName(ps[k].p[1]) THEN ps[k].p[1] ELSE InQuotes(ps[k].p[1], all))
                                                       \o <<32, 61, 32>> \o Printed(ps[k].v, all)], <<44, 32>>) \o <<32, 125>>
    [] OTHER -> ValueText(Style(<<>>, <<>>, <<>>, FALSE, FALSE, FALSE), v)
\* the value itself, its references evaluated in the document it is
RECURSIVE CountRefs(_)
CountRefs(v) == IF v.t = "ref" THEN 1
                ELSE IF v.t = "arr" THEN LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE CountRefs(v.es[k]) + S(k - 1) IN S(Len(v.es))
                ELSE IF v.t = "obj" THEN LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE CountRefs(v.ps[k].v) + S(k - 1) IN S(Len(v.ps))
                ELSE 0
DocFor(v) == IF v.t = "arr" THEN [k |-> "arrs", ps |-> <<>>, rs |-> <<v>>] ELSE [k |-> "objs", ps |-> <<>>, rs |-> <<v>>]
MeaningOf(d, n) == RootVal(Context(d, NoEnv, Nothing), d, n)
Leaves == { Null_, Bool_(FALSE), Int_(0), Int_(120), Num_(Norm(TRUE, <<2, 5>>, -2)), Dur_(Norm(FALSE, <<1, 5>>, 8)), Dur_(Norm(TRUE, <<9>>, 0)), Str_(<<>>), Str_(T_("a b")),
            Str_(<<34, 92, 10>>), Ref_(<<na>>), Opt_(<<nb>>), Ref_(<<nb, na>>) }
          \cup IF Deep THEN { Bool_(TRUE), Num_(Norm(FALSE, <<1>>, 12)), Dur_(Norm(FALSE, <<8, 6, 4>>, 11)), Str_(<<39, 36, 123, 97, 125>>), Str_(T_("${a}")), Opt_(<<na, nb>>) } ELSE {}
Keys4 == { na, nb, T_("x y"), <<>> } \cup IF Deep THEN { <<34, 92>>, T_("1") } ELSE {}
PrintLen == IF Deep THEN 4 ELSE 3

Awkward == {34, 39, 92, 10, 13, 9, 8, 12, 47, 36, 123, 125, 91, 93, 44, 61, 58, 35, 32, 117, 110, 1, 127, 233, 8364, 128512} \cup IF Deep THEN {0, 11, 31, 46 + 1, 63, 43, 45, 48, 97, 128, 160, 2028, 8232, 65279, 65533} ELSE {}
TextLen == IF Deep THEN 3 ELSE 2

DigitPats == << <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<9>>, <<1, 0>>, <<3, 0, 0, 7>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5>> >>
Points(n) == { z \in {0, 2, - (n \div 2), 1 - n, - n, - n - 2} : z >= -27 /\ n + z <= 27 }

(* ---- the machine ---- *)
Init == \/ /\ fam = "hist" /\ was = <<>>
           /\ \E g \in Givens : st = g /\ ops = <<[o |-> "start", w |-> ShownH(g)]>>
        \/ /\ fam = "print" /\ ops = <<>> /\ was = <<>>
           /\ \E k \in {"obj", "arr"} : st = [open |-> <<>>, cur |-> [k |-> k, key |-> <<>>, is |-> <<>>], n |-> 0, v |-> Undef]
        \/ /\ fam = "text" /\ ops = <<>> /\ was = <<>> /\ st = <<>>
        \/ /\ fam = "nums" /\ ops = <<>> /\ was = <<>> /\ \E x \in DOMAIN DigitPats, neg \in BOOLEAN : st = [pat |-> x, neg |-> neg, ds |-> <<>>]
Do(o, g) == /\ ops' = Append(ops, [o |-> o, w |-> ShownH(g)]) /\ was' = <<st, g>>
HistNext == /\ fam = "hist" /\ Len(ops) <= HistLen
            /\ \/ \E n \in Nodes : st' = Append(st, n) /\ Do("push", <<n>>)
               \/ \E g \in Givens : st' = MergeH(st, g) /\ Do("merge", g)
               \/ \E g \in Givens : /\ Len(st) = 1 /\ st[1].t = "arr" /\ Len(g) = 1 /\ g[1].t = "arr"
                                    /\ st' = <<Arr_(st[1].es \o g[1].es)>> /\ Do("append", g)
Fresh(c) == IF c.k = "arr" THEN {<<>>} ELSE { x \in Keys4 : \A y \in 1..Len(c.is) : c.is[y].p[1] # x }
AddItem(c, key, v) == [c EXCEPT !.is = Append(@, IF c.k = "arr" THEN v ELSE Prop(<<key>>, v))]
Finished(c) == IF c.k = "arr" THEN Arr_(c.is) ELSE Obj_(c.is)
PrintNext == /\ fam = "print" /\ st.v = Undef /\ UNCHANGED <<ops, was>>
             /\ \/ /\ st.n < PrintLen
                   /\ \E key \in Fresh(st.cur), v \in Leaves : st' = [st EXCEPT !.cur = AddItem(@, key, v), !.n = @ + 1]
                \/ /\ st.n < PrintLen
                   /\ \E key \in Fresh(st.cur), k \in {"obj", "arr"} :
                        st' = [st EXCEPT !.open = Append(@, [st.cur EXCEPT !.key = key]), !.cur = [k |-> k, key |-> <<>>, is |-> <<>>], !.n = @ + 1]
                \/ /\ Len(st.open) > 0
                   /\ LET c == st.open[Len(st.open)] IN
                      st' = [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.cur = AddItem(c, c.key, Finished(st.cur))]
                \/ /\ Len(st.open) = 0
                   /\ st' = [st EXCEPT !.v = Finished(st.cur)]
TextNext == /\ fam = "text" /\ Len(st) < TextLen /\ UNCHANGED <<ops, was>>
            /\ \E c \in Awkward : st' = Append(st, c)
NumsNext == /\ fam = "nums" /\ Len(st.ds) < 27 /\ UNCHANGED <<ops, was>>
            /\ LET w == DigitPats[st.pat] IN st' = [st EXCEPT !.ds = Append(@, w[(Len(st.ds) % Len(w)) + 1])]
Next == (NumsNext \/ HistNext \/ PrintNext \/ TextNext) /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars

(* ---- histories: properties ---- *)
Past == fam = "hist" /\ Len(ops) > 1 => SubSeq(st, 1, Len(was[1]) - 1) = SubSeq(was[1], 1, Len(was[1]) - 1)
\* some prefix of p is a value other than an object in w
Covers(w, p) == \E k \in 1..Len(p) : LET x == Lookup(w, SubSeq(p, 1, k)) IN x # Undef /\ x.t # "map"
Newest == fam = "hist" /\ Len(ops) > 1 /\ ops[Len(ops)].o # "append" =>
  LET new == ViewH(st)
      g   == was[2]
      w   == ViewH(g)
      old == ViewH(was[1])
  IN /\ w.t # "map" => new = w
     /\ w.t = "map" => /\ new.t = "map"
                       /\ \A p \in HPaths : LET x == Lookup(w, p) IN x # Undef /\ x.t # "map" => Lookup(new, p) = x
                       /\ ops[Len(ops)].o = "push" => new = w
     /\ ops[Len(ops)].o = "merge" /\ Len(g) = 1 /\ w.t = "map" /\ old.t = "map" /\ (\A k \in DOMAIN g[1].kv : Len(g[1].kv[k]) = 1)
          => \A p \in HPaths : Lookup(w, p) = Undef /\ ~ Covers(w, p) /\ (\A k \in 1..Len(p) - 1 : Lookup(w, SubSeq(p, 1, k)) # Undef => Lookup(old, SubSeq(p, 1, k)) # Undef /\ Lookup(old, SubSeq(p, 1, k)).t = "map")
                 => Lookup(new, p) = Lookup(old, p)
Bracket == fam = "hist" /\ Len(ops) <= HistLen => \A a \in Givens, b \in Givens : ViewH(MergeH(MergeH(st, a), b)) = ViewH(MergeH(st, MergeH(a, b)))

(* ---- printing: properties ---- *)
Wholes == CASE fam = "print" -> IF st.v = Undef THEN {} ELSE {st.v}
            [] fam = "text" -> { Obj_(<<Prop(<<na>>, Str_(st))>>), Arr_(<<Str_(st), Str_(<<34>>)>>), Obj_(<<Prop(<<nb>>, Int_(1)), Prop(<<st>>, Int_(2)), Prop(<<nc>>, Str_(st))>>) }
            [] fam = "nums" -> IF st.ds = <<>> THEN {}
                               ELSE { Obj_(<<Prop(<<na>>, Num_(Norm(st.neg, st.ds, z)))>>) : z \in Points(Len(st.ds)) }
                                    \cup IF Len(st.ds) > 18 THEN {} ELSE { Arr_(<<Dur_(Norm(st.neg, st.ds, 0)), Num_(Norm(st.neg, st.ds, -1))>>) }
            [] OTHER -> {}
ReadsBack == \A v \in Wholes : \A all \in BOOLEAN :
               LET d == ReadDoc(Printed(v, all)) IN d # Bad /\ MeaningOf(d, CountRefs(v)) = MeaningOf(DocFor(v), CountRefs(v))
Emit == /\ fam = "hist" => PrintT(ToJson([ops |-> ops, to |-> ShownH(st), w |-> Shown(ViewH(st))]))
        /\ \A v \in Wholes : LET w == MeaningOf(DocFor(v), CountRefs(v)) IN w \notin {Err, Stuck} => PrintT(ToJson([v |-> v, w |-> Shown(w)]))
=============================================================================
