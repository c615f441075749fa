------------------------------- MODULE Hocon -------------------------------
(***************************************************************************)
(* Configuration documents.  A document is a sequence of properties, of    *)
(* objects or of arrays; it is written as a text (Rendered), read from one *)
(* (ReadDoc), and means the sequence of definition events it makes in the  *)
(* order of the source.  What is at a path after some of the events is     *)
(* decided by the last event that touches the path (At), and the value     *)
(* there is that definition's, with its references evaluated (Val).        *)
(*                                                                         *)
(* Values:  [t |-> "null"]  [t |-> "bool", b]  [t |-> "str", s]            *)
(*          [t |-> "num", neg, co, ex]   (co: digits without a trailing 0) *)
(*          [t |-> "dur", neg, co, ex]   (the same number, of nanoseconds) *)
(*          [t |-> "arr", es]  [t |-> "obj", ps]  [t |-> "ref", opt, p]    *)
(*          a property is [p |-> names, v |-> value]                       *)
(* Evaluated: the same without "ref", and [t |-> "map", kv |-> function],  *)
(*          [t |-> "undef"]; [t |-> "err"]: a required reference leads     *)
(*          nowhere; [t |-> "stuck"]: evaluation depends on itself.        *)
(***************************************************************************)
EXTENDS Text

Null_  == [t |-> "null"]
Bool_(x) == [t |-> "bool", b |-> x]
Str_(q)  == [t |-> "str", s |-> q]
Arr_(vs) == [t |-> "arr", es |-> vs]
Obj_(ps) == [t |-> "obj", ps |-> ps]
Ref_(p)  == [t |-> "ref", opt |-> FALSE, p |-> p]
Opt_(p)  == [t |-> "ref", opt |-> TRUE, p |-> p]
Prop(p, v) == [p |-> p, v |-> v]
Undef == [t |-> "undef"]
Err   == [t |-> "err"]
Stuck == [t |-> "stuck"]

(* ---- numbers as digit sequences (a digit is 0..9, the first is not 0) ---- *)
RECURSIVE NoLead(_), Norm(_, _, _)
NoLead(ds) == IF Len(ds) > 0 /\ ds[1] = 0 THEN NoLead(Tail(ds)) ELSE ds
\* the number of coefficient ds and exponent ex, without trailing zeros
Norm(neg, ds, ex) == IF Len(ds) = 0 THEN [neg |-> FALSE, co |-> <<>>, ex |-> 0]
                     ELSE IF ds[1] = 0 THEN Norm(neg, NoLead(ds), ex)
                     ELSE IF ds[Len(ds)] = 0 THEN Norm(neg, SubSeq(ds, 1, Len(ds) - 1), ex + 1)
                     ELSE [neg |-> neg, co |-> ds, ex |-> ex]
RECURSIVE TimesR(_, _, _)
TimesR(ds, n, carry) == IF Len(ds) = 0 THEN IF carry = 0 THEN <<>> ELSE Append(TimesR(<<>>, n, carry \div 10), carry % 10)
                        ELSE LET v == ds[Len(ds)] * n + carry
                             IN Append(TimesR(SubSeq(ds, 1, Len(ds) - 1), n, v \div 10), v % 10)
Times(ds, n) == NoLead(TimesR(ds, n, 0))
\* without what is below one
Whole(x) == IF x.ex >= 0 THEN x
            ELSE IF Len(x.co) + x.ex <= 0 THEN Norm(FALSE, <<>>, 0)
            ELSE Norm(x.neg, SubSeq(x.co, 1, Len(x.co) + x.ex), 0)
Num_(x) == [t |-> "num", neg |-> x.neg, co |-> x.co, ex |-> x.ex]
Dur_(x) == [t |-> "dur", neg |-> x.neg, co |-> x.co, ex |-> x.ex]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
Int_(n) == Num_(Norm(FALSE, DigitsOf(n), 0))

\* nanoseconds per unit: f * 10^e
Units == { [u |-> T_(x[1]), f |-> x[2], e |-> x[3]] : x \in {
  <<"ns", 1, 0>>, <<"nano", 1, 0>>, <<"nanos", 1, 0>>, <<"nanosecond", 1, 0>>, <<"nanoseconds", 1, 0>>,
  <<"us", 1, 3>>, <<"micro", 1, 3>>, <<"micros", 1, 3>>, <<"microsecond", 1, 3>>, <<"microseconds", 1, 3>>,
  <<"ms", 1, 6>>, <<"milli", 1, 6>>, <<"millis", 1, 6>>, <<"millisecond", 1, 6>>, <<"milliseconds", 1, 6>>,
  <<"s", 1, 9>>, <<"second", 1, 9>>, <<"seconds", 1, 9>>,
  <<"m", 6, 10>>, <<"minute", 6, 10>>, <<"minutes", 6, 10>>,
  <<"h", 36, 11>>, <<"hour", 36, 11>>, <<"hours", 36, 11>>,
  <<"d", 864, 11>>, <<"day", 864, 11>>, <<"days", 864, 11>> } }
UnitNames == { x.u : x \in Units }
UnitOf(w) == CHOOSE x \in Units : x.u = w
InNanos(x, unit) == Dur_(Whole(Norm(x.neg, Times(x.co, unit.f), x.ex + unit.e)))

(* ---- reading ---------------------------------------------------------- *)
NL == {10, 13}
Blank == {9, 10, 13, 32}
NameCh == Alpha \cup {45, 95}
C(q, i) == IF i <= Len(q) THEN q[i] ELSE -1
RECURSIVE Gap(_, _), Skip(_, _, _)
\* the first position from i on whose character is not in S
Skip(q, i, S) == IF C(q, i) \in S THEN Skip(q, i + 1, S) ELSE i
ToEol(q, i) == FindFrom(q, NL, i)
Gap(q, i) == IF C(q, i) \in Blank THEN Gap(q, i + 1)
             ELSE IF C(q, i) = 35 \/ (C(q, i) = 47 /\ C(q, i + 1) = 47) THEN Gap(q, ToEol(q, i))
             ELSE i
No == [ok |-> FALSE, i |-> 0, v |-> Undef]
Yes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

RECURSIVE ReadPath(_, _)
ReadPath(q, i) == LET j == Skip(q, i, NameCh)
                      r == ReadPath(q, j + 1) IN
                  IF j = i THEN [ok |-> FALSE, i |-> i, v |-> <<>>]
                  ELSE IF C(q, j) = 46 /\ r.ok THEN [ok |-> TRUE, i |-> r.i, v |-> <<SubSeq(q, i, j - 1)>> \o r.v]
                  ELSE [ok |-> TRUE, i |-> j, v |-> <<SubSeq(q, i, j - 1)>>]

Escapes == 92 :> 92 @@ 47 :> 47 @@ 34 :> 34 @@ 98 :> 8 @@ 102 :> 12 @@ 110 :> 10 @@ 114 :> 13 @@ 116 :> 9
IsHex4(q, i) == i + 3 <= Len(q) /\ \A x \in 0..3 : q[i + x] \in Hex
\* a run of \uXXXX: UTF-16 units
RECURSIVE Units16(_, _)
Units16(q, i) == IF C(q, i) = 92 /\ C(q, i + 1) = 117 /\ IsHex4(q, i + 2)
                 THEN <<HexNum(SubSeq(q, i + 2, i + 5))>> \o Units16(q, i + 6) ELSE <<>>
\* the rest of a string quoted with ch
RECURSIVE ReadStr(_, _, _, _)
ReadStr(q, i, ch, acc) ==
  IF C(q, i) = -1 \/ C(q, i) \in NL THEN No
  ELSE IF q[i] = ch THEN Yes(i + 1, Str_(acc))
  ELSE IF q[i] # 92 THEN ReadStr(q, i + 1, ch, Append(acc, q[i]))
  ELSE IF C(q, i + 1) \in DOMAIN Escapes THEN ReadStr(q, i + 2, ch, Append(acc, Escapes[q[i + 1]]))
  ELSE LET us == Units16(q, i) IN
       IF Len(us) = 0 THEN No ELSE ReadStr(q, i + 6 * Len(us), ch, acc \o FromUtf16(us))

Vals(q) == [x \in 1..Len(q) |-> q[x] - 48]
ReadNum(q, i) ==
  LET neg == C(q, i) = 45
      a   == IF neg THEN i + 1 ELSE i
      b   == IF C(q, a) = 48 THEN a + 1 ELSE Skip(q, a, Digit)
      c0  == Skip(q, b + 1, Digit)
      hasf == C(q, b) = 46 /\ c0 > b + 1
      c1  == IF hasf THEN c0 ELSE b
      sg  == IF C(q, c1 + 1) \in {43, 45} THEN c1 + 2 ELSE c1 + 1
      d   == Skip(q, sg, Digit)
      hase == C(q, c1) \in {69, 101} /\ d > sg
      fr  == IF hasf THEN SubSeq(q, b + 1, c1 - 1) ELSE <<>>
      ex  == IF hase THEN Decimal(SubSeq(q, sg, d - 1)) * (IF C(q, c1 + 1) = 45 THEN -1 ELSE 1) ELSE 0
      j   == IF hase THEN d ELSE c1
      x   == Norm(neg, Vals(SubSeq(q, a, b - 1) \o fr), ex - Len(fr))
      u   == Skip(q, j, {9, 32})
      w   == SubSeq(q, u, Skip(q, u, NameCh) - 1)
  IN IF b = a THEN No
     ELSE IF w \in UnitNames THEN Yes(u + Len(w), InNanos(x, UnitOf(w)))
     ELSE Yes(j, Num_(x))

RECURSIVE ReadValue(_, _), ReadElems(_, _, _), ReadProps(_, _, _)
ReadRef(q, i) ==
  LET a == Gap(q, i)
      o == C(q, a) = 63
      r == ReadPath(q, IF o THEN a + 1 ELSE a)
      z == Gap(q, r.i)
  IN IF r.ok /\ C(q, z) = 125 THEN Yes(z + 1, [t |-> "ref", opt |-> o, p |-> r.v]) ELSE No
Word(q, i, w, v) == IF SubSeq(q, i, Skip(q, i, NameCh) - 1) = w THEN Yes(i + Len(w), v) ELSE No
\* i is at the value's first character
ReadValue(q, i) ==
  LET ch == C(q, i) IN
  IF ch = 91 THEN LET r == ReadElems(q, Gap(q, i + 1), <<>>) IN IF r.ok THEN Yes(r.i, Arr_(r.v)) ELSE No
  ELSE IF ch = 123 THEN LET r == ReadProps(q, Gap(q, i + 1), <<>>) IN
       IF r.ok /\ C(q, r.i) = 125 THEN Yes(r.i + 1, Obj_(r.v)) ELSE No
  ELSE IF ch \in {34, 39} THEN ReadStr(q, i + 1, ch, <<>>)
  ELSE IF ch = 36 /\ C(q, i + 1) = 123 THEN ReadRef(q, i + 2)
  ELSE IF ch \in Digit \cup {45} THEN ReadNum(q, i)
  ELSE IF ch = 116 THEN Word(q, i, T_("true"), Bool_(TRUE))
  ELSE IF ch = 102 THEN Word(q, i, T_("false"), Bool_(FALSE))
  ELSE IF ch = 110 THEN Word(q, i, T_("null"), Null_)
  ELSE No
\* elements separated by commas up to the bracket
ReadElems(q, i, acc) ==
  IF C(q, i) = 93 THEN [ok |-> TRUE, i |-> i + 1, v |-> acc]
  ELSE LET r == ReadValue(q, i)
           j == Gap(q, r.i) IN
       IF ~ r.ok THEN [ok |-> FALSE, i |-> i, v |-> <<>>]
       ELSE IF C(q, j) = 44 THEN ReadElems(q, Gap(q, j + 1), Append(acc, r.v))
       ELSE IF C(q, j) = 93 THEN [ok |-> TRUE, i |-> j + 1, v |-> Append(acc, r.v)]
       ELSE [ok |-> FALSE, i |-> i, v |-> <<>>]
ReadKey(q, i) == IF C(q, i) \in {34, 39}
                 THEN LET r == ReadStr(q, i + 1, q[i], <<>>) IN
                      IF r.ok THEN [ok |-> TRUE, i |-> r.i, v |-> <<r.v.s>>] ELSE [ok |-> FALSE, i |-> i, v |-> <<>>]
                 ELSE ReadPath(q, i)
\* properties up to a character that does not begin one
ReadProps(q, i, acc) ==
  LET k == ReadKey(q, i)
      j == Gap(q, k.i)
      e == C(q, j) \in {58, 61}
      r == ReadValue(q, IF e THEN Gap(q, j + 1) ELSE j)
      z == Gap(q, r.i)
  IN IF ~ k.ok THEN [ok |-> TRUE, i |-> i, v |-> acc]
     ELSE IF ~ r.ok \/ (~ e /\ r.v.t \notin {"obj", "arr"}) THEN [ok |-> FALSE, i |-> i, v |-> <<>>]
     ELSE ReadProps(q, IF C(q, z) = 44 THEN Gap(q, z + 1) ELSE z, Append(acc, Prop(k.v, r.v)))

RECURSIVE ReadRoots(_, _, _)
ReadRoots(q, i, acc) == IF i > Len(q) THEN [ok |-> TRUE, v |-> acc]
                        ELSE IF C(q, i) \notin {91, 123} THEN [ok |-> FALSE, v |-> <<>>]
                        ELSE LET r == ReadValue(q, i) IN
                             IF r.ok THEN ReadRoots(q, Gap(q, r.i), Append(acc, r.v)) ELSE [ok |-> FALSE, v |-> <<>>]
Bad == [k |-> "bad", ps |-> <<>>, rs |-> <<>>]
ReadDoc(q) ==
  LET i == Gap(q, 1) IN
  IF C(q, i) \in {91, 123}
  THEN LET r == ReadRoots(q, i, <<>>) IN
       IF ~ r.ok THEN Bad
       ELSE IF \A x \in 1..Len(r.v) : r.v[x].t = "obj" THEN [k |-> "objs", ps |-> <<>>, rs |-> r.v]
       ELSE IF \A x \in 1..Len(r.v) : r.v[x].t = "arr" THEN [k |-> "arrs", ps |-> <<>>, rs |-> r.v]
       ELSE Bad
  ELSE LET r == ReadProps(q, i, <<>>) IN
       IF r.ok /\ r.i > Len(q) THEN [k |-> "props", ps |-> r.v, rs |-> <<>>] ELSE Bad

(* ---- writing ---------------------------------------------------------- *)
\* sep between properties, asg between key and value, pad inside brackets and around the document;
\* bare: an object follows its key directly; quote: keys of one name in quotes; trail: a comma after the last
Style(sep, asg, pad, bare, quote, trail) == [sep |-> sep, asg |-> asg, pad |-> pad, bare |-> bare, quote |-> quote, trail |-> trail]
NumText(x) ==
  LET ds  == [k \in 1..Len(x.co) |-> 48 + x.co[k]]
      zs(n) == [k \in 1..n |-> 48]
      sg  == IF x.neg THEN <<45>> ELSE <<>>
  IN IF Len(ds) = 0 THEN <<48>>
     ELSE IF x.ex >= 0 THEN sg \o ds \o zs(x.ex)
     ELSE IF Len(ds) > - x.ex THEN sg \o SubSeq(ds, 1, Len(ds) + x.ex) \o <<46>> \o SubSeq(ds, Len(ds) + x.ex + 1, Len(ds))
     ELSE sg \o <<48, 46>> \o zs(- x.ex - Len(ds)) \o ds
PathText(p) == FlatWith(p, <<46>>)
RECURSIVE ValueText(_, _), PropsText(_, _)
PropText(z, pr) ==
  (IF z.quote /\ Len(pr.p) = 1 THEN <<34>> \o pr.p[1] \o <<34>> ELSE PathText(pr.p))
  \o (IF z.bare /\ pr.v.t = "obj" THEN <<32>> ELSE z.asg)
  \o ValueText(z, pr.v)
ValueText(z, v) ==
  IF v.t = "null" THEN T_("null")
  ELSE IF v.t = "bool" THEN IF v.b THEN T_("true") ELSE T_("false")
  ELSE IF v.t = "num" THEN NumText(v)
  ELSE IF v.t = "dur" THEN NumText(v) \o T_("ns")
  ELSE IF v.t = "str" THEN <<34>> \o v.s \o <<34>>
  ELSE IF v.t = "ref" THEN <<36, 123>> \o (IF v.opt THEN <<63>> ELSE <<>>) \o PathText(v.p) \o <<125>>
  ELSE IF v.t = "arr" THEN <<91>> \o z.pad \o FlatWith([k \in 1..Len(v.es) |-> ValueText(z, v.es[k])], <<44>> \o z.pad) \o
                           (IF z.trail /\ Len(v.es) > 0 THEN <<44>> ELSE <<>>) \o z.pad \o <<93>>
  ELSE <<123>> \o z.pad \o PropsText(z, v.ps) \o z.pad \o <<125>>
PropsText(z, ps) == FlatWith([k \in 1..Len(ps) |-> PropText(z, ps[k])], z.sep)
                    \o (IF z.trail /\ Len(ps) > 0 THEN <<44>> ELSE <<>>)
DocText(z, d) == IF d.k = "props" THEN z.pad \o PropsText(z, d.ps) \o z.pad
                 ELSE z.pad \o FlatWith([k \in 1..Len(d.rs) |-> ValueText(z, d.rs[k])], z.pad) \o z.pad

(* ---- meaning ---------------------------------------------------------- *)
\* k: "obj": there is an object at p; "leaf": the value v is at p
ObjEv(p)     == [k |-> "obj", p |-> p, v |-> Undef]
LeafEv(p, v) == [k |-> "leaf", p |-> p, v |-> v]
RECURSIVE Events(_, _)
EventsOf(pr, base) ==
  LET p == base \o pr.p IN
  [k \in 1..Len(pr.p) - 1 |-> ObjEv(base \o SubSeq(pr.p, 1, k))]
  \o (IF pr.v.t = "obj" THEN <<ObjEv(p)>> \o Events(pr.v.ps, p) ELSE <<LeafEv(p, pr.v)>>)
Events(ps, base) == IF Len(ps) = 0 THEN <<>> ELSE EventsOf(ps[1], base) \o Events(Tail(ps), base)
DocEvents(d) == IF d.k = "props" THEN Events(d.ps, <<>>)
                ELSE IF d.k = "objs" THEN Flat([x \in 1..Len(d.rs) |-> Events(d.rs[x].ps, <<>>)])
                ELSE <<>>
\* the elements of a document of arrays
DocElems(d) == IF d.k = "arrs" THEN Flat([x \in 1..Len(d.rs) |-> d.rs[x].es]) ELSE <<>>

Before(p, q) == Len(p) < Len(q) /\ p = SubSeq(q, 1, Len(p))
Touches(e, p) == e.p = p \/ (e.k = "leaf" /\ Before(e.p, p))
\* the definition in force at p after the first n events; 0 if there is none
RECURSIVE LastTouch(_, _, _)
LastTouch(evs, n, p) == IF n = 0 \/ Touches(evs[n], p) THEN n ELSE LastTouch(evs, n - 1, p)
At(evs, n, p) == LET i == LastTouch(evs, n, p) IN IF i > 0 /\ evs[i].p = p THEN i ELSE 0
Children(evs, n, p) == { evs[i].p[Len(p) + 1] : i \in { j \in 1..n : Before(p, evs[j].p) } }

\* an object was defined where a reference is in force: merging with what the reference leads to is not specified here
ObjOnRef(evs) == \E i \in DOMAIN evs : evs[i].k = "obj" /\
                   LET j == At(evs, i - 1, evs[i].p) IN j > 0 /\ evs[j].k = "leaf" /\ evs[j].v.t = "ref"

(* Evaluation.  cx.evs: the events of the document; cx.env: name -> text;  *)
(* cx.known: values of references already evaluated, by occurrence (the    *)
(* index of the event, then positions inside its value).  fuel: how deep   *)
(* to follow the others, Stuck when that is not enough; if cx.cut, instead *)
(* the names being followed: one that leads back to itself leads nowhere.  *)
RECURSIVE ValAt(_, _, _, _, _, _), Leaf(_, _, _, _, _, _), ObjAt(_, _, _, _, _, _), RefVal(_, _, _, _, _, _), Through(_, _, _, _), Inside(_, _)
Poison(vs) == IF Stuck \in vs THEN Stuck ELSE IF Err \in vs THEN Err ELSE Undef
ObjAt(cx, evs, n, p, id, fuel) ==
  LET names == { c \in Children(evs, n, p) : At(evs, n, Append(p, c)) > 0 }
      f     == TLCEval([c \in names |-> ValAt(cx, evs, n, Append(p, c), id, fuel)])
      bad   == Poison({ f[c] : c \in names })
      def   == { c \in names : f[c] # Undef }
  IN IF bad # Undef THEN bad ELSE [t |-> "map", kv |-> TLCEval([c \in def |-> f[c]])]
ValAt(cx, evs, n, p, id, fuel) ==
  LET i == At(evs, n, p) IN
  IF i = 0 THEN Undef
  ELSE IF evs[i].k = "obj" THEN ObjAt(cx, evs, n, p, id, fuel)
  ELSE Leaf(cx, evs, i, evs[i].v, Append(id, i), fuel)
\* evs[i] makes the definition; i = 0 for an element of an array
Leaf(cx, evs, i, v, id, fuel) ==
  IF v.t = "ref" THEN RefVal(cx, evs, i, v, id, fuel)
  ELSE IF v.t = "arr"
       THEN LET f == TLCEval([k \in 1..Len(v.es) |-> Leaf(cx, <<>>, 0, v.es[k], Append(id, k), fuel)])
                bad == Poison({ f[k] : k \in 1..Len(v.es) })
            IN IF bad # Undef THEN bad ELSE Arr_(SelectSeq(f, LAMBDA w : w # Undef))
  ELSE IF v.t = "obj" THEN LET own == Events(v.ps, <<>>) IN ObjAt(cx, own, Len(own), <<>>, id, fuel)
  ELSE v
RefVal(cx, evs, i, v, id, fuel) ==
  IF id \in DOMAIN cx.known THEN cx.known[id]
  ELSE IF ~ cx.cut /\ fuel = 0 THEN Stuck
  ELSE LET nm == PathText(v.p)
           w  == IF ~ cx.cut THEN Through(cx, <<>>, v.p, fuel - 1)
                 ELSE IF nm \in fuel THEN Undef
                 ELSE Through(cx, <<>>, v.p, fuel \cup {nm}) IN
       IF w # Undef THEN w
       ELSE IF nm \in DOMAIN cx.env THEN Str_(cx.env[nm])
       ELSE IF ~ v.opt THEN Err
       ELSE IF i = 0 THEN Undef
       ELSE ValAt(cx, evs, i - 1, evs[i].p, SubSeq(id, 1, Len(id) - 1), IF cx.cut THEN fuel ELSE fuel - 1)
\* the value of the document at q \o rest; the definition at q is known to be an object
Through(cx, q, rest, fuel) ==
  LET p == Append(q, rest[1])
      i == At(cx.evs, Len(cx.evs), p) IN
  IF i = 0 THEN Undef
  ELSE IF Len(rest) = 1 THEN ValAt(cx, cx.evs, Len(cx.evs), p, <<>>, fuel)
  ELSE IF cx.evs[i].k = "obj" THEN Through(cx, p, Tail(rest), fuel)
  ELSE IF cx.evs[i].v.t = "ref" THEN Inside(RefVal(cx, cx.evs, i, cx.evs[i].v, <<i>>, fuel), Tail(rest))
  ELSE Undef
Inside(w, rest) == IF Len(rest) = 0 \/ w \in {Stuck, Err} THEN w
                   ELSE IF w.t = "map" /\ rest[1] \in DOMAIN w.kv THEN Inside(w.kv[rest[1]], Tail(rest))
                   ELSE Undef

Context(d, env, known) == [evs |-> DocEvents(d), env |-> env, known |-> known, cut |-> FALSE]
NoEnv == [x \in {} |-> <<>>]
Nothing == [x \in {} |-> Undef]
\* the value of the whole document
RootVal(cx, d, fuel) ==
  IF d.k = "arrs" THEN Leaf(cx, <<>>, 0, Arr_(DocElems(d)), <<>>, fuel)
  ELSE ObjAt(cx, cx.evs, Len(cx.evs), <<>>, <<>>, fuel)

\* the same with references that may lead back to themselves
CutVal(d, env) == RootVal([Context(d, env, Nothing) EXCEPT !.cut = TRUE], d, {})

\* what a lookup of a path finds in an evaluated document
Lookup(w, p) == Inside(w, p)

\* for printing: maps as lists of pairs
RECURSIVE Shown(_), Pairs(_, _)
Pairs(f, S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : TRUE IN <<[k |-> c, v |-> Shown(f[c])]>> \o Pairs(f, S \ {c})
Shown(w) == IF w.t = "map" THEN [t |-> "map", kv |-> Pairs(w.kv, DOMAIN w.kv)]
            ELSE IF w.t = "arr" THEN Arr_([k \in 1..Len(w.es) |-> Shown(w.es[k])])
            ELSE w
=============================================================================
