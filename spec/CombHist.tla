------------------------------ MODULE CombHist ------------------------------
(***************************************************************************)
(* C08: histories of runs of one parser (or of clones sharing its state).  *)
(* Runs see views (buffer, from, to, start offset) of a few buffers, some  *)
(* of equal content, some overlapping.  The only state a parser may carry  *)
(* from run to run is a memo table; the design is right if what is found   *)
(* there is always what the run would compute.                             *)
(***************************************************************************)
EXTENDS CombFamilies, Json

CONSTANTS EmitFile, MaxRuns

VARIABLES gi, memo, runs
vars == <<gi, memo, runs>>

Bufs == << <<97, 98, 97, 98>>, <<97, 98, 97, 98>>, <<98, 98, 97>>,
           <<97, 97, 98>>, <<97, 98, 98>>, <<97, 98, 97>>, <<98, 97, 98>> >>
\* buffer, from, to, offset: same text at another address, same address with another length,
\* same remaining text at another offset, empty views
Views == { <<1, 0, 4, 0>>, <<1, 0, 4, 1>>, <<1, 0, 2, 0>>, <<1, 1, 4, 0>>, <<1, 2, 4, 0>>, <<1, 2, 2, 0>>,
           <<2, 0, 4, 0>>, <<2, 1, 4, 0>>, <<3, 0, 3, 0>>, <<3, 0, 3, 1>>, <<3, 1, 3, 0>> }
          \cup IF Deep THEN { <<1, 0, 4, 2>>, <<1, 0, 3, 1>>, <<2, 0, 4, 1>>, <<3, 0, 2, 1>>, <<2, 2, 4, 0>>, <<3, 3, 3, 0>> } ELSE {}

ca_(x) == U("cache", x)
\* texts of one length that differ in one place only
Views2 == { <<b, 0, 3, o>> : b \in 3..7, o \in {0, 1} }
Inner == { ea, any, sab, And(ea, eb), U("next", any), U("last", sab), U("collect", And(any, any)), burn, acb, many(any),
           GC("chainl1", <<any, eb>>), eoi, U("opt", ea), GQ("while0", <<a1>>), GN("take", 2), hard, one }
Gs8 == SetToSeq( { ca_(x) : x \in Inner } \cup { U("lazy", x) : x \in Inner } \cup { U("log", x) : x \in Inner } \cup Inner
           \cup { ca_(ca_(any)), And(ca_(any), ca_(U("next", any))), many(ca_(U("next", any))), Or(ca_(sab), ca_(any)),
                  U("lazy", ca_(U("next", any))), ca_(U("lazy", And(any, any))), GC("chainr1", <<ca_(any), ca_(eb)>>),
                  Bind(ca_(any), "97", ca_(any), ca_(U("collect", any))), U("not", ca_(ea)), U("peek", ca_(U("next", any))),
                  ca_(Or(U("attempt", acb), ca_(any))), RepSep(ca_(any), ca_(eb), 0, -1, "many0"),
                  GC("surround", <<ca_(any), ca_(any), ca_(eb)>>), U("collect", ca_(GN("skip", 1))) })

\* the parsers that look at the input themselves, alone and behind another
Lits8 == { GQ(k, q) : k \in LitKinds, q \in {<<97>>, <<97, 98>>, <<97, 98, 97>>, <<98, 97, 98, 98>>} }
Leafs8 == Lits8 \cup Regexes \cup { GQ(k, q) : k \in {"while0", "while1", "till0", "till1"}, q \in {<<97>>, <<98>>} }
  \cup { G("whilenm", "", 1, 2, <<97>>, <<>>), GN("take", 2), GN("skip", 3), GS("cls", "alpha"), GQ("of", <<98>>), GQ("noneof", <<98>>),
         GNM("in", 98, 99), GNM("until", 98, 99), eb, any, eoi, emp }
Gs9 == SetToSeq(Leafs8 \cup { And(any, x) : x \in Lits8 } \cup { Or(x, GN("take", 1)) : x \in Lits8 } \cup { many(x) : x \in {ea, sab, GQ("tag", <<97, 98>>)} }
        \cup { RepSep(ea, eb, 0, -1, "many0"), GC("chainl1", <<any, eb>>), U("not", sab), U("peek", sab), U("exists", sab), GSC("filter", "98", <<any>>) })
All8 == Gs8 \o Gs9
ViewsFor(k) == IF k <= Len(Gs8) THEN Views ELSE Views2

ASSUME JsonSerialize(EmitFile, [gs |-> All8, bufs |-> Bufs])

View(v) == SubSeq(Bufs[v[1]], v[2] + 1, v[3])
\* what identifies a run: the text that is left (which text, not just equal text) and the offset
Key(v) == <<v[1], v[2] + v[4], v[3] - v[2] - v[4], v[4]>>

Init == gi \in DOMAIN All8 /\ memo = <<>> /\ runs = <<>>

Known(v) == \E k \in 1..Len(memo) : memo[k][1] = Key(v)
Recall(v) == memo[CHOOSE k \in 1..Len(memo) : memo[k][1] = Key(v)][2]

Run(v, clone) ==
  /\ Len(runs) < MaxRuns
  /\ LET cached == All8[gi].k = "cache"
         r == IF cached /\ Known(v) THEN Recall(v) ELSE Ev(All8[gi], View(v), v[4])
     IN /\ runs' = Append(runs, [b |-> v[1], from |-> v[2], to |-> v[3], off |-> v[4], cl |-> clone, r |-> r])
        /\ memo' = IF cached /\ ~ Known(v) THEN Append(memo, <<Key(v), r>>) ELSE memo
  /\ UNCHANGED gi

\* odd runs use a clone of the parser
Next == \E v \in ViewsFor(gi) : Run(v, Len(runs) % 2 = 1)
Spec == Init /\ [][Next]_vars

Pure == \A k \in 1..Len(runs) :
          runs[k].r = Ev(All8[gi], SubSeq(Bufs[runs[k].b], runs[k].from + 1, runs[k].to), runs[k].off)
PureLast == Len(runs) > 0 => LET x == runs[Len(runs)] IN x.r = Ev(All8[gi], SubSeq(Bufs[x.b], x.from + 1, x.to), x.off)
MemoSound == \A j, k \in 1..Len(memo) : memo[j][1] = memo[k][1] => memo[j][2] = memo[k][2]
Emit == Len(runs) = MaxRuns => PrintT(ToJson([g |-> gi - 1, runs |-> runs]))
=============================================================================
