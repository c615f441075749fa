-------------------------------- MODULE Comb --------------------------------
(***************************************************************************)
(* The combinator library of oni-comb-rs (parser/): what every combinator  *)
(* means (Ev, a denotational semantics) and how it gets there (Resume, one *)
(* transition per call of a sub-parser, on which the machine in CombRun    *)
(* and the trace specification in CombTrace are built).                    *)
(*                                                                         *)
(* A grammar node is a record [k, s, n, m, q, c]: kind, string argument,   *)
(* two integer arguments, a sequence of element codes, children.  Values   *)
(* are canonical strings, the same ones the Rust harness builds:           *)
(* element 97 = "97", slice/vec = "[97,98]", pair "(x,y)", unit "()",      *)
(* offsets "@3", folded chains "<x op y>", optional "S(x)" / "N".          *)
(* Offsets are 0-based as in the code; inputs are sequences of codes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

G(k, s, n, m, q, c) == [k |-> k, s |-> s, n |-> n, m |-> m, q |-> q, c |-> c]
G0(k)        == G(k, "", 0, 0, <<>>, <<>>)
GS(k, s)     == G(k, s, 0, 0, <<>>, <<>>)
GN(k, n)     == G(k, "", n, 0, <<>>, <<>>)
GNM(k, n, m) == G(k, "", n, m, <<>>, <<>>)
GQ(k, q)     == G(k, "", 0, 0, q, <<>>)
GC(k, c)     == G(k, "", 0, 0, <<>>, c)
GSC(k, s, c) == G(k, s, 0, 0, <<>>, c)

\* results: ok, value, length, committed, chain of error kinds (outermost first),
\* offset of the outermost error, offset at which the failing element parser gave up
OK(v, n)       == [ok |-> TRUE,  v |-> v,  n |-> n, c |-> FALSE, e |-> "", o |-> 0, d |-> 0]
Fail(c, e, o)  == [ok |-> FALSE, v |-> "", n |-> 0, c |-> c, e |-> e, o |-> o, d |-> o]

Lo(w, q) == \E x \in 1..Len(q) : q[x] = w

RECURSIVE Join(_)
Join(q) == IF Len(q) = 0 THEN ""
           ELSE IF Len(q) = 1 THEN q[1]
           ELSE q[1] \o "," \o Join(Tail(q))
List(q)  == "[" \o Join(q) \o "]"
Codes(q) == List([x \in 1..Len(q) |-> ToString(q[x])])

\* w[i+1..j] : the elements at offsets i .. j-1
Slice(w, i, j) == SubSeq(w, i + 1, j)

Min2(a, b) == IF a < b THEN a ELSE b

------------------------------------------------------------------------------
(* Elements *)

Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x

InClass(s, x) ==
  CASE s = "space"       -> x \in {32, 9}
    [] s = "multispace"  -> x \in {32, 9, 10, 13}
    [] s = "whitespace"  -> x \in {32, 9, 10, 13, 12}
    [] s = "ascii"       -> x \in 0..127
    [] s = "upper"       -> x \in 65..90
    [] s = "lower"       -> x \in 97..122
    [] s = "alpha"       -> x \in 65..90 \/ x \in 97..122
    [] s = "alphadigit"  -> x \in 65..90 \/ x \in 97..122 \/ x \in 48..57
    [] s = "digit"       -> x \in 48..57
    [] s = "zero"        -> x = 48
    [] s = "nonzero"     -> x \in 49..57
    [] s = "digit19"     -> x \in 49..57
    [] s = "hex"         -> x \in 48..57 \/ x \in 65..70 \/ x \in 97..102
    [] s = "oct"         -> x \in 48..56    \* '8' is pinned by the documentation tests
    [] s = "punct"       -> x \in 33..47 \/ x \in 58..64 \/ x \in 91..96 \/ x \in 123..126
    [] s = "graphic"     -> x \in 33..126
    [] s = "control"     -> x \in 0..31 \/ x = 127

ElemKinds == {"any", "elm", "pred", "cls", "of", "noneof", "in", "until"}

Accepts(g, x) ==
  CASE g.k = "any"    -> TRUE
    [] g.k = "elm"    -> x = g.n
    [] g.k = "pred"   -> Lo(x, g.q)
    [] g.k = "cls"    -> InClass(g.s, x)
    [] g.k = "of"     -> Lo(x, g.q)
    [] g.k = "noneof" -> ~ Lo(x, g.q)
    [] g.k = "in"     -> g.n <= x /\ x <= g.m
    [] g.k = "until"  -> g.n <= x /\ x < g.m

ElemKindOfFailure(g, w, i) ==
  IF i >= Len(w)
  THEN IF g.k \in {"any", "elm", "pred", "cls"} THEN "mismatch" ELSE "incomplete"
  ELSE IF g.k = "cls" /\ g.s = "digit19" /\ w[i + 1] = 48 THEN "custom" ELSE "mismatch"

------------------------------------------------------------------------------
(* Literals: the longest common prefix decides where and how they fail *)

Eqv(g, a, b) == IF g.k = "tagnc" THEN Lower(a) = Lower(b) ELSE a = b

RECURSIVE Common(_, _, _, _)
Common(g, w, i, j) ==      \* number of elements of the literal g.q matched at i
  IF j = Len(g.q) THEN j
  ELSE IF i + j >= Len(w) THEN j
  ELSE IF ~ Eqv(g, g.q[j + 1], w[i + j + 1]) THEN j
  ELSE Common(g, w, i, j + 1)

LitEv(g, w, i) ==
  LET j == Common(g, w, i, 0) IN
  IF j = Len(g.q) THEN OK(Codes(g.q), j)
  ELSE IF i + j >= Len(w) THEN Fail(FALSE, "incomplete", i + j)
  ELSE Fail(j # 0, "mismatch", i + j)

------------------------------------------------------------------------------
(* Runs *)

RECURSIVE FirstIn(_, _, _)
FirstIn(q, w, i) ==        \* first offset >= i whose element is in q, else Len(w)
  IF i >= Len(w) \/ Lo(w[i + 1], q) THEN i ELSE FirstIn(q, w, i + 1)
RECURSIVE FirstOut(_, _, _)
FirstOut(q, w, i) == IF i >= Len(w) \/ ~ Lo(w[i + 1], q) THEN i ELSE FirstOut(q, w, i + 1)

RunEv(g, w, i) ==
  LET a == FirstIn(g.q, w, i)
      b == FirstOut(g.q, w, a)
  IN CASE g.k = "while0" -> IF a >= Len(w) THEN OK("[]", 0) ELSE OK(Codes(Slice(w, a, b)), b - i)
       [] g.k = "while1" -> IF a >= Len(w) THEN Fail(FALSE, "incomplete", Len(w))
                            ELSE OK(Codes(Slice(w, a, b)), b - i)
       [] g.k = "whilenm" -> IF a >= Len(w) \/ b - a < g.n \/ b - a > g.m
                             THEN Fail(FALSE, "incomplete", Len(w))
                             ELSE OK(Codes(Slice(w, a, b)), b - i)
       [] g.k = "till0" -> LET t == Min2(a + 1, Len(w)) IN OK(Codes(Slice(w, i, t)), t - i)
       [] g.k = "till1" -> IF a >= Len(w) THEN Fail(FALSE, "incomplete", Len(w))
                           ELSE OK(Codes(Slice(w, i, a + 1)), a + 1 - i)

TakeEv(g, w, i) ==
  IF Len(w) - i < g.n THEN Fail(FALSE, "incomplete", Len(w))
  ELSE OK(IF g.k = "take" THEN Codes(Slice(w, i, i + g.n)) ELSE "()", g.n)

------------------------------------------------------------------------------
(* Regular expressions: g.s is the pattern text (for the harness), g.c[1]   *)
(* its syntax tree.  Ends(r, w, i) lists the offsets at which r can end a   *)
(* match begun at i, most preferred first (leftmost-first, greedy stars).   *)

RECURSIVE Concat(_)
Concat(qs) == IF Len(qs) = 0 THEN <<>> ELSE qs[1] \o Concat(Tail(qs))

RECURSIVE Ends(_, _, _)
Ends(r, w, i) ==
  CASE r.k = "chr" -> IF i < Len(w) /\ Lo(w[i + 1], r.q) THEN <<i + 1>> ELSE <<>>
    [] r.k = "dot" -> IF i < Len(w) /\ w[i + 1] # 10 THEN <<i + 1>> ELSE <<>>
    [] r.k = "eps" -> <<i>>
    [] r.k = "alt" -> Concat([x \in 1..Len(r.c) |-> Ends(r.c[x], w, i)])
    [] r.k = "cat" ->
         IF Len(r.c) = 0 THEN <<i>>
         ELSE LET hs == Ends(r.c[1], w, i)
                  t  == [r EXCEPT !.c = Tail(r.c)]
              IN Concat([x \in 1..Len(hs) |-> Ends(t, w, hs[x])])
    [] r.k = "star" ->
         LET hs == Ends(r.c[1], w, i)
         IN Concat([x \in 1..Len(hs) |-> IF hs[x] = i THEN <<>> ELSE Ends(r, w, hs[x])]) \o <<i>>

RegexEv(g, w, i) ==
  LET es == Ends(g.c[1], w, i)
  IN IF Len(es) = 0 THEN Fail(FALSE, "incomplete", i)
     ELSE OK(Codes(Slice(w, i, es[1])), es[1] - i)

------------------------------------------------------------------------------
(* Leaves *)

LitKinds  == {"seq", "tag", "tagnc"}
RunKinds  == {"while0", "while1", "whilenm", "till0", "till1"}
TakeKinds == {"take", "skip"}
LeafKinds == ElemKinds \cup LitKinds \cup RunKinds \cup TakeKinds
             \cup {"regex", "end", "unit", "succ", "fail"}

LeafEv(g, w, i) ==
  CASE g.k \in ElemKinds -> IF i < Len(w) /\ Accepts(g, w[i + 1])
                            THEN OK(ToString(w[i + 1]), 1)
                            ELSE Fail(FALSE, ElemKindOfFailure(g, w, i), i)
    [] g.k \in LitKinds  -> LitEv(g, w, i)
    [] g.k \in RunKinds  -> RunEv(g, w, i)
    [] g.k \in TakeKinds -> TakeEv(g, w, i)
    [] g.k = "regex"     -> RegexEv(g, w, i)
    [] g.k = "end"       -> IF i >= Len(w) THEN OK("()", 0) ELSE Fail(FALSE, "mismatch", i)
    [] g.k = "unit"      -> OK("()", 0)
    [] g.k = "succ"      -> OK(g.s, 0)
    [] g.k = "fail"      -> Fail(g.n = 1, g.s, i)      \* a failure the user builds

------------------------------------------------------------------------------
(* What a combinator does with the result of its only child *)

Unary1 == {"map", "discard", "collect", "last", "next", "filter", "filternot", "mapres",
           "attempt", "opt", "not", "peek", "exists", "name", "log", "cache", "lazy", "clone"}

Wrap(r, kind, o) == [r EXCEPT !.e = kind \o ">" \o r.e, !.o = o]

\* the name of the outermost error kind
IsCustom(e) == Len(e) >= 6 /\ SubSeq(e, 1, 6) = "custom"

UnaryEv(g, w, i, r) ==
  CASE g.k = "map"     -> IF r.ok THEN OK("m(" \o r.v \o ")", r.n) ELSE r
    [] g.k = "discard" -> IF r.ok THEN OK("()", r.n) ELSE r
    [] g.k = "collect" -> IF r.ok THEN OK(Codes(Slice(w, i, i + r.n)), r.n) ELSE r
    [] g.k = "last"    -> IF r.ok THEN OK("@" \o ToString(IF i + r.n = 0 THEN 0 ELSE i + r.n - 1), r.n) ELSE r
    [] g.k = "next"    -> IF r.ok THEN OK("@" \o ToString(i + r.n), r.n) ELSE r
    [] g.k = "filter"  -> IF r.ok /\ r.v # g.s THEN Fail(FALSE, "custom", i + r.n) ELSE r
    [] g.k = "filternot" -> IF r.ok /\ r.v = g.s THEN Fail(FALSE, "custom", i + r.n) ELSE r
    [] g.k = "mapres"  -> IF ~ r.ok THEN r
                          ELSE IF r.v = g.s THEN Fail(FALSE, "conversion", i)
                          ELSE OK("r(" \o r.v \o ")", r.n)
    [] g.k = "attempt" -> IF r.ok THEN r ELSE [r EXCEPT !.c = FALSE]
    [] g.k = "opt"     -> IF r.ok THEN OK("S(" \o r.v \o ")", r.n) ELSE OK("N", 0)
    [] g.k = "not"     -> IF r.ok THEN Fail(FALSE, "mismatch", i) ELSE OK("()", 0)
    [] g.k = "peek"    -> IF r.ok THEN OK(r.v, 0) ELSE r
    [] g.k = "exists"  -> OK(IF r.ok THEN "true" ELSE "false", 0)
    [] g.k = "name"    -> IF r.ok \/ IsCustom(r.e) THEN r ELSE Wrap(r, "custom", i)
    [] g.k \in {"log", "cache", "lazy", "clone"} -> r

Pair(x, y)    == "(" \o x \o "," \o y \o ")"
Fold1(x, o, y) == "<" \o x \o " " \o o \o " " \o y \o ">"

RECURSIVE FoldL(_, _)
FoldL(xs, os) == IF Len(xs) = 1 THEN xs[1]
                 ELSE FoldL(<<Fold1(xs[1], os[1], xs[2])>> \o SubSeq(xs, 3, Len(xs)), Tail(os))
RECURSIVE FoldR(_, _)
FoldR(xs, os) == IF Len(xs) = 1 THEN xs[1] ELSE Fold1(xs[1], os[1], FoldR(Tail(xs), Tail(os)))

ChainKinds == {"chainl1", "chainr1", "chainl0", "chainr0", "restl1", "restr1", "scanr1"}
FoldOf(k, xs, os) == IF k \in {"chainl1", "chainl0", "restl1"} THEN FoldL(xs, os) ELSE FoldR(xs, os)

Commit(r, b) == IF r.ok THEN r ELSE [r EXCEPT !.c = r.c \/ b]

------------------------------------------------------------------------------
(* The operational semantics: a frame is an invocation of a composite node. *)
(* Resume(f, r) is what that invocation does next, given the result r of    *)
(* the sub-parser it last called: it either returns (t = "ret") or calls    *)
(* child x at offset `at` and becomes frame f (t = "call").                 *)

Frame(g, i) == [g |-> g, i |-> i, pc |-> 0, n |-> 0, l |-> 0, xs |-> <<>>, os |-> <<>>]
NoRes == OK("", 0)
NoFrame == Frame(G0("unit"), 0)

Ret(r)         == [t |-> "ret", r |-> r, x |-> 0, at |-> 0, f |-> NoFrame]
Call(x, at, f) == [t |-> "call", r |-> NoRes, x |-> x, at |-> at, f |-> f]

Full(g, k) == g.m >= 0 /\ k >= g.m      \* g.m = -1: unbounded

RepDone(g, i, xs, n) ==
  IF Len(xs) < g.n THEN Fail(FALSE, "mismatch", i + n) ELSE OK(List(xs), n)

Resume(f, r, w) ==
  LET g == f.g
      i == f.i
      at == i + f.n
  IN
  CASE g.k \in Unary1 ->
         IF f.pc = 0 THEN Call(1, i, [f EXCEPT !.pc = 1]) ELSE Ret(UnaryEv(g, w, i, r))

    [] g.k \in {"and", "skipl", "skipr"} ->
         (CASE f.pc = 0 -> Call(1, i, [f EXCEPT !.pc = 1])
            [] f.pc = 1 -> IF r.ok THEN Call(2, i + r.n, [f EXCEPT !.pc = 2, !.n = r.n, !.xs = <<r.v>>]) ELSE Ret(r)
            [] f.pc = 2 -> IF ~ r.ok THEN Ret(r)
                           ELSE Ret(OK(IF g.k = "and" THEN Pair(f.xs[1], r.v)
                                       ELSE IF g.k = "skipl" THEN r.v ELSE f.xs[1], f.n + r.n)))

    [] g.k = "surround" ->      \* children: left, body, right
         (CASE f.pc = 0 -> Call(1, i, [f EXCEPT !.pc = 1])
            [] f.pc = 1 -> IF r.ok THEN Call(2, i + r.n, [f EXCEPT !.pc = 2, !.n = r.n]) ELSE Ret(r)
            [] f.pc = 2 -> IF r.ok THEN Call(3, at + r.n, [f EXCEPT !.pc = 3, !.n = f.n + r.n, !.xs = <<r.v>>]) ELSE Ret(r)
            [] f.pc = 3 -> IF r.ok THEN Ret(OK(f.xs[1], f.n + r.n)) ELSE Ret(r))

    [] g.k = "bind" ->          \* children: first, continuation if its value is g.s, other continuation
         (CASE f.pc = 0 -> Call(1, i, [f EXCEPT !.pc = 1])
            [] f.pc = 1 -> IF r.ok THEN Call(IF r.v = g.s THEN 2 ELSE 3, i + r.n, [f EXCEPT !.pc = 2, !.n = r.n]) ELSE Ret(r)
            [] f.pc = 2 -> IF r.ok THEN Ret(OK(r.v, f.n + r.n)) ELSE Ret(Commit(r, f.n # 0)))

    [] g.k = "or" ->
         (CASE f.pc = 0 -> Call(1, i, [f EXCEPT !.pc = 1])
            [] f.pc = 1 -> IF r.ok \/ r.c THEN Ret(r) ELSE Call(2, i, [f EXCEPT !.pc = 2])
            [] f.pc = 2 -> Ret(r))

    [] g.k = "rep" ->           \* children: item [, separator];  l = length of the separator just read
         (CASE f.pc = 0 -> IF Full(g, 0) THEN Ret(RepDone(g, i, <<>>, 0)) ELSE Call(1, i, [f EXCEPT !.pc = 1])
            [] f.pc = 1 ->      \* an item was tried
                 IF ~ r.ok THEN Ret(RepDone(g, i, f.xs, f.n))
                 ELSE IF Len(f.xs) > 0 /\ g.m = -1 /\ Len(f.xs) >= g.n /\ f.l + r.n = 0
                 THEN Ret(RepDone(g, i, f.xs, f.n))      \* no progress
                 ELSE LET xs == Append(f.xs, r.v)
                          n  == f.n + r.n
                          f2 == [f EXCEPT !.xs = xs, !.n = n, !.l = 0]
                      IN IF Full(g, Len(xs)) THEN Ret(RepDone(g, i, xs, n))
                         ELSE IF Len(g.c) = 2 THEN Call(2, i + n, [f2 EXCEPT !.pc = 2])
                         ELSE Call(1, i + n, [f2 EXCEPT !.pc = 1])
            [] f.pc = 2 ->      \* the separator was tried
                 IF ~ r.ok THEN Ret(RepDone(g, i, f.xs, f.n))
                 ELSE Call(1, at + r.n, [f EXCEPT !.pc = 1, !.n = f.n + r.n, !.l = r.n]))

    [] g.k \in ChainKinds ->    \* children: operand, operator;  l = length of the operator just read
         (CASE f.pc = 0 -> IF g.k \in {"restl1", "restr1"} THEN Call(2, i, [f EXCEPT !.pc = 2, !.xs = <<g.s>>])
                           ELSE Call(1, i, [f EXCEPT !.pc = 1])
            [] f.pc = 1 ->      \* the first operand was tried
                 IF r.ok THEN Call(2, i + r.n, [f EXCEPT !.pc = 2, !.n = r.n, !.xs = <<r.v>>])
                 ELSE IF g.k \in {"chainl0", "chainr0"} /\ ~ r.c THEN Ret(OK(g.s, 0)) ELSE Ret(r)
            [] f.pc = 2 ->      \* an operator was tried
                 IF r.ok THEN Call(1, at + r.n, [f EXCEPT !.pc = 3, !.os = Append(f.os, r.v), !.n = f.n + r.n, !.l = r.n])
                 ELSE IF r.c THEN Ret(r)
                 ELSE Ret(OK(FoldOf(g.k, f.xs, f.os), f.n))
            [] f.pc = 3 ->      \* the operand after it was tried
                 IF r.ok THEN Call(2, at + r.n, [f EXCEPT !.pc = 2, !.xs = Append(f.xs, r.v), !.n = f.n + r.n])
                 ELSE IF r.c \/ f.l # 0 THEN Ret(Commit(r, TRUE))
                 ELSE Ret(OK(FoldOf(g.k, f.xs, SubSeq(f.os, 1, Len(f.os) - 1)), f.n)))

------------------------------------------------------------------------------
(* The denotational semantics, written independently of Resume: the result  *)
(* of a node in terms of the results of its children.                       *)

RECURSIVE Ev(_, _, _), RepEv(_, _, _, _), ChainEv(_, _, _, _, _)

Shift(r, n) == IF r.ok THEN [r EXCEPT !.n = r.n + n] ELSE r

\* the longest run of items from offset j, k items already found; result <<values, end offset>>
RepEv(g, w, j, k) ==
  IF Full(g, k) THEN <<<<>>, j>>
  ELSE LET sep == IF k > 0 /\ Len(g.c) = 2 THEN Ev(g.c[2], w, j) ELSE OK("", 0)
       IN IF ~ sep.ok THEN <<<<>>, j>>
          ELSE LET it == Ev(g.c[1], w, j + sep.n) IN
               IF ~ it.ok THEN <<<<>>, j + sep.n>>
               ELSE IF k > 0 /\ g.m = -1 /\ k >= g.n /\ sep.n + it.n = 0 THEN <<<<>>, j>>
               ELSE LET t == RepEv(g, w, j + sep.n + it.n, k + 1) IN <<<<it.v>> \o t[1], t[2]>>

\* operators and operands from offset j: values, operators, end offset, or the committed failure
ChainEv(g, w, j, xs, os) ==
  LET o == Ev(g.c[2], w, j) IN
  IF ~ o.ok THEN IF o.c THEN [r |-> o, xs |-> xs, os |-> os, j |-> j]
                 ELSE [r |-> OK("", 0), xs |-> xs, os |-> os, j |-> j]
  ELSE LET p == Ev(g.c[1], w, j + o.n) IN
       IF p.ok THEN ChainEv(g, w, j + o.n + p.n, Append(xs, p.v), Append(os, o.v))
       ELSE IF p.c \/ o.n > 0 THEN [r |-> Commit(p, TRUE), xs |-> xs, os |-> os, j |-> j]
       ELSE [r |-> OK("", 0), xs |-> xs, os |-> os, j |-> j]

Ev(g, w, i) ==
  CASE g.k \in LeafKinds -> LeafEv(g, w, i)
    [] g.k \in Unary1    -> UnaryEv(g, w, i, Ev(g.c[1], w, i))
    [] g.k \in {"and", "skipl", "skipr"} ->
         LET a == Ev(g.c[1], w, i) IN
         IF ~ a.ok THEN a
         ELSE LET b == Ev(g.c[2], w, i + a.n) IN
              IF ~ b.ok THEN b
              ELSE OK(CASE g.k = "and" -> Pair(a.v, b.v) [] g.k = "skipl" -> b.v [] g.k = "skipr" -> a.v, a.n + b.n)
    [] g.k = "surround" -> Ev(GC("skipl", <<g.c[1], GC("skipr", <<g.c[2], g.c[3]>>)>>), w, i)
    [] g.k = "bind" ->
         LET a == Ev(g.c[1], w, i) IN
         IF ~ a.ok THEN a
         ELSE Shift(Commit(Ev(IF a.v = g.s THEN g.c[2] ELSE g.c[3], w, i + a.n), a.n > 0), a.n)
    [] g.k = "or" ->
         LET a == Ev(g.c[1], w, i) IN IF ~ a.ok /\ ~ a.c THEN Ev(g.c[2], w, i) ELSE a
    [] g.k = "rep" ->
         LET t == RepEv(g, w, i, 0) IN
         IF Len(t[1]) < g.n THEN Fail(FALSE, "mismatch", t[2]) ELSE OK(List(t[1]), t[2] - i)
    [] g.k \in ChainKinds ->
         LET rest == g.k \in {"restl1", "restr1"}
             a == IF rest THEN OK(g.s, 0) ELSE Ev(g.c[1], w, i)
         IN IF ~ a.ok THEN IF g.k \in {"chainl0", "chainr0"} /\ ~ a.c THEN OK(g.s, 0) ELSE a
            ELSE LET t == ChainEv(g, w, i + a.n, <<a.v>>, <<>>) IN
                 IF ~ t.r.ok THEN t.r ELSE OK(FoldOf(g.k, t.xs, t.os), t.j - i)

\* the calls an invocation makes: set of <<child, offset>>
RECURSIVE CallsFrom(_, _, _)
CallsFrom(f, r, w) ==
  LET st == Resume(f, r, w) IN
  IF st.t = "ret" THEN {}
  ELSE {<<st.x, st.at>>} \cup CallsFrom(st.f, Ev(st.f.g.c[st.x], w, st.at), w)
Calls(g, w, i) == IF g.k \in LeafKinds THEN {} ELSE CallsFrom(Frame(g, i), NoRes, w)
=============================================================================
