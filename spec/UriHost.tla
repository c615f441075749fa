------------------------------- MODULE UriHost -------------------------------
(***************************************************************************)
(* U02: hosts.  A host text is read one character per transition by a      *)
(* machine that counts octets and groups; it must classify the text as     *)
(* HostOf does, and find the same address.                                 *)
(***************************************************************************)
EXTENDS Uri, Json

CONSTANT Deep

VARIABLES text, pos, st
vars == <<text, pos, st>>

Words(A, lo, hi) == UNION { [1..len -> A] : len \in lo..hi }

------------------------------------------------------------------------------
(* The machine.  k: what the text can still be; cur: the digits being read;  *)
(* oct: octets read; grp: groups read; dbl: groups before "::", -1 if none;  *)
(* sep: colons read since the last group; n4: inside an IPv4 address.        *)

St0 == [k |-> "start", v4 |-> TRUE, cur |-> <<>>, oct |-> <<>>, grp |-> <<>>, dbl |-> -1, sep |-> 0, n4 |-> FALSE,
        pct |-> 0, v6 |-> TRUE, fut |-> "v", shut |-> FALSE]

NumOk(q) == Len(q) \in 1..3 /\ All(q, Digit) /\ (q[1] # 48 \/ Len(q) = 1) /\ Decimal(q) < 256

\* an unbracketed character
RegStep(s, ch) ==
  LET r == IF s.pct > 0 THEN IF ch \in Hex THEN [s EXCEPT !.pct = @ - 1, !.v4 = FALSE] ELSE [s EXCEPT !.k = "no"]
           ELSE IF ch = PC THEN [s EXCEPT !.pct = 2, !.v4 = FALSE]
           ELSE IF ch \in RegChars THEN s ELSE [s EXCEPT !.k = "no"]
  IN IF r.k = "no" \/ ~ r.v4 THEN r
     ELSE IF ch \in Digit THEN [r EXCEPT !.cur = Append(@, ch)]
     ELSE IF ch = DO /\ NumOk(r.cur) THEN [r EXCEPT !.oct = Append(@, Decimal(r.cur)), !.cur = <<>>]
     ELSE [r EXCEPT !.v4 = FALSE]

\* a bracketed character, as part of an IPv6 address
SixStep(s, ch) ==
  IF ~ s.v6 THEN s
  ELSE IF ch = CO THEN
    IF s.n4 THEN [s EXCEPT !.v6 = FALSE]
    ELSE IF s.cur # <<>> THEN IF Len(s.cur) > 4 THEN [s EXCEPT !.v6 = FALSE] ELSE [s EXCEPT !.grp = Append(@, HexNum(s.cur)), !.cur = <<>>, !.sep = 1]
    ELSE IF s.sep = 0 /\ s.grp = <<>> /\ s.dbl = -1 THEN [s EXCEPT !.sep = 1]
    ELSE IF s.sep = 1 /\ s.dbl = -1 THEN [s EXCEPT !.sep = 2, !.dbl = Len(s.grp)]
    ELSE [s EXCEPT !.v6 = FALSE]
  ELSE IF ch = DO THEN
    IF NumOk(s.cur) THEN [s EXCEPT !.oct = Append(@, Decimal(s.cur)), !.cur = <<>>, !.n4 = TRUE] ELSE [s EXCEPT !.v6 = FALSE]
  ELSE IF ch \in Hex THEN
    IF s.sep = 1 /\ s.grp = <<>> /\ s.dbl = -1 THEN [s EXCEPT !.v6 = FALSE]      \* a single leading colon
    ELSE [s EXCEPT !.cur = Append(@, ch), !.sep = 0]
  ELSE [s EXCEPT !.v6 = FALSE]

\* a bracketed character, as part of a future address: v, digits, dot, the rest
FutStep(s, ch) ==
  CASE s.fut = "v" -> [s EXCEPT !.fut = IF ch \in {118, 86} THEN "d" ELSE "no"]
    [] s.fut = "d" -> [s EXCEPT !.fut = IF ch \in Hex THEN "d2" ELSE "no"]
    [] s.fut = "d2" -> [s EXCEPT !.fut = IF ch \in Hex THEN "d2" ELSE IF ch = DO THEN "r" ELSE "no"]
    [] s.fut \in {"r", "r2"} -> [s EXCEPT !.fut = IF ch \in RegChars \cup {CO} THEN "r2" ELSE "no"]
    [] s.fut = "no" -> s

CharStep(s, ch) ==
  IF s.k = "start" THEN IF ch = LB THEN [s EXCEPT !.k = "lit"] ELSE RegStep([s EXCEPT !.k = "reg"], ch)
  ELSE IF s.k = "reg" THEN RegStep(s, ch)
  ELSE IF s.shut THEN [s EXCEPT !.k = "no"]
  ELSE IF ch = RB THEN [s EXCEPT !.shut = TRUE]
  ELSE FutStep(SixStep(s, ch), ch)

\* all groups of a finished address, or <<>>
Finish(s) ==
  LET last == IF s.n4 THEN IF NumOk(s.cur) /\ Len(s.oct) = 3 THEN << 256 * s.oct[1] + s.oct[2], 256 * s.oct[3] + Decimal(s.cur) >> ELSE <<-1>>
              ELSE IF s.cur = <<>> THEN IF s.sep = 2 THEN <<>> ELSE <<-1>>
              ELSE IF Len(s.cur) > 4 THEN <<-1>> ELSE << HexNum(s.cur) >>
      gs == s.grp \o last
      nz == 8 - Len(gs)
  IN IF ~ s.v6 \/ ~ s.shut \/ -1 \in { gs[x] : x \in 1..Len(gs) } THEN <<>>
     ELSE IF s.dbl = -1 THEN IF nz = 0 THEN gs ELSE <<>>
     ELSE IF nz >= 1 THEN SubSeq(gs, 1, s.dbl) \o [x \in 1..nz |-> 0] \o From(gs, s.dbl + 1) ELSE <<>>

Classified(s) ==
  CASE s.k = "start" -> Host("reg", <<>>, <<>>)
    [] s.k = "no" -> NoHost
    [] s.k = "reg" -> IF s.pct > 0 THEN NoHost
                      ELSE IF s.v4 /\ Len(s.oct) = 3 /\ NumOk(s.cur) THEN Host("v4", text, Append(s.oct, Decimal(s.cur))) ELSE Host("reg", text, <<>>)
    [] s.k = "lit" -> LET in == SubSeq(text, 2, Len(text) - 1) IN
                      IF ~ s.shut THEN NoHost
                      ELSE IF Finish(s) # <<>> THEN Host("v6", in, Finish(s))
                      ELSE IF s.fut = "r2" THEN Host("fut", in, <<>>) ELSE NoHost

------------------------------------------------------------------------------
(* The texts.  A text without brackets has no colon: a port would begin.    *)

Bracketed(q) == <<LB>> \o q \o <<RB>>

\* groups 1..8, each with its own value, cut by "::" anywhere, with an IPv4 tail or none
Spell(x, style) == CASE style = 1 -> <<48 + x>> [] style = 2 -> <<97 + (x % 6), 65 + (x % 6), 48, 48 + x>> [] style = 3 -> <<48, 48, 48 + x>>
                     [] style = 4 -> <<102, 102, 102, 102>> [] style = 5 -> <<48>>
Groups(from, n, style) == FlatWith([x \in 1..n |-> Spell(from + x, style)], <<CO>>)
Tails == TS({"", "1.2.3.4", "255.255.255.255", "0.0.0.0", "1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "1.2.3.a"})
With(q, tail) == IF Len(tail) = 0 THEN q ELSE IF Len(q) = 0 THEN tail ELSE q \o <<CO>> \o tail
Sixes ==
  { With(Groups(0, n, sty), tl) : n \in 0..9, sty \in 1..5, tl \in Tails }
  \cup { Groups(0, l, sty) \o <<CO, CO>> \o With(Groups(l, r, sty), tl) : l \in 0..8, r \in 0..8, sty \in 1..(IF Deep THEN 5 ELSE 3), tl \in IF Deep THEN Tails ELSE TS({"", "1.2.3.4"}) }
  \cup { Groups(0, l, 1) \o <<CO, CO>> \o With(Groups(l, r, 1), tl) : l \in 0..5, r \in 0..3, tl \in Tails }
\* one group of eight spelt in every odd way
Odd == TS({"", "0", "00000", "12345", "g", "-1", " 1", "1 ", "0x1", "FfFf", "1.2.3.4", "%41", "+1"})
OddSixes == { FlatWith([x \in 1..n |-> IF x = at THEN od ELSE Spell(x, 1)], <<CO>>) : n \in {1, 7, 8}, at \in 1..8, od \in Odd }
            \cup { FlatWith([x \in 1..n |-> IF x = at THEN od ELSE Spell(x, 1)], <<CO>>) \o <<CO, CO>> : n \in {1, 4, 7}, at \in 1..7, od \in Odd }
            \cup { <<CO, CO>> \o FlatWith([x \in 1..n |-> IF x = at THEN od ELSE Spell(x, 1)], <<CO>>) : n \in {1, 4, 7}, at \in 1..7, od \in Odd }
Pairs == Words({CO, 49}, 0, IF Deep THEN 15 ELSE 11)
Triples == Words({CO, 49, DO}, 0, IF Deep THEN 9 ELSE 7)

Octets == TS({"0", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "00", "01", "010", "1000", "", "a", "-1", "1a", "%31"})
Plain == TS({"1", "0", "255"})
Fours ==
  { FlatWith([x \in 1..4 |-> IF x = at THEN od ELSE pl], <<DO>>) : at \in 1..4, od \in Octets, pl \in Plain }
  \cup { FlatWith([x \in 1..4 |-> IF x = at THEN od ELSE IF x = at2 THEN od2 ELSE T_("7")], <<DO>>) : at \in 1..4, at2 \in 1..4, od \in Octets, od2 \in Octets }
  \cup { FlatWith([x \in 1..n |-> pl], <<DO>>) : n \in 0..6, pl \in Octets }
  \cup { FlatWith(<<T_(a), T_(b), T_("0"), T_("255")>>, <<DO>>) : a \in {"192", "127", "10"}, b \in {"168", "0", "1"} }
  \cup (IF Deep THEN { FlatWith(<<DecText(n), T_("0"), T_("0"), DecText(n)>>, <<DO>>) : n \in 0..1100 } ELSE { FlatWith(<<DecText(n), T_("1"), T_("2"), T_("3")>>, <<DO>>) : n \in 0..300 })
  \cup { T_("1.2.3.4") \o <<ch>> : ch \in 33..126 } \cup { <<ch>> \o T_("1.2.3.4") : ch \in 33..126 }
  \cup { T_("1.2.") \o <<ch>> \o T_("3.4") : ch \in 33..126 }
  \cup Words({49, 50, 53, DO}, 0, IF Deep THEN 8 ELSE 6)
  \cup TS({"1.2.3.4.example", "1.2.3.4%20", "1.2.3.4a", "256.256.256.256", "1.2.3.4%"})
Futures == TS({"v1.a", "V1.a", "vF.a:b", "v1.", "v.a", "v1a", "1.a", "v1.a/b", "v1.%41", "vg.a", "v1f.-._~!$&'()*+,;=:", "v1..", "vv1.a", "v1.a]", "x1.a", "v12.a", "v123.a", "v1234.a", "v12345.a", "vdeadBEEF0123456789abcdefABCDEF.z", "V00000000000000000001.a",
                "v1.a.b.c.d.e.f", "v1.:::::", "v1.abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"})
           \cup { T_("v1.") \o <<ch>> : ch \in 33..126 } \cup { T_("v") \o <<ch>> \o T_(".a") : ch \in 33..126 } \cup { <<ch>> \o T_("1.a") : ch \in 33..126 }
RegNames == { [x \in 1..n |-> IF x % 64 = 0 THEN DO ELSE 97 + (x % 26)] : n \in {63, 64, 65, 255, 256, 300} } \cup TS({"", "localhost", "a-b.c_d~e", "%41b", "%4", "%zz", "a%20b", "!$&'()*+,;=", "xn--a", "v1.a", "1.2.3", "0x7f.1", "fe80"})
         \cup { <<ch>> : ch \in 33..126 } \cup { <<97, ch>> : ch \in 33..126 }

Allowed(q) == /\ \A x \in 1..Len(q) : q[x] \notin {SL, QM, HA, AT}
              /\ IF Len(q) > 0 /\ q[1] = LB THEN \A x \in 1..Len(q) - 1 : q[x] # RB ELSE \A x \in 1..Len(q) : q[x] # CO
Texts == { q \in { Bracketed(z) : z \in Sixes \cup OddSixes \cup Pairs \cup Triples \cup Futures \cup TS({"", "1.2.3.4", "localhost", "::1%25eth0", "[::1]"}) }
                 \cup Fours \cup RegNames \cup TS({"[", "[::1", "[1:2:3:4:5:6:7:8", "[v1.a"}) : Allowed(q) }

Init == text \in Texts /\ pos = 1 /\ st = St0
Next == /\ pos <= Len(text) /\ st.k # "no"
        /\ st' = CharStep(st, text[pos]) /\ pos' = pos + 1 /\ UNCHANGED text
Spec == Init /\ [][Next]_vars

Done == pos > Len(text) \/ st.k = "no"
H == HostOf(text)
Refines == Done => Classified(st) = H
EightGroups == H.k = "v6" => Len(H.a) = 8 /\ \A x \in 1..8 : H.a[x] \in 0..65535
FourOctets == H.k = "v4" => /\ Len(H.a) = 4 /\ \A x \in 1..4 : H.a[x] \in 0..255
                            /\ FlatWith([x \in 1..4 |-> DecText(H.a[x])], <<DO>>) = text
Literal == H.k \in {"v6", "fut"} <=> Len(text) > 0 /\ text[1] = LB /\ H.k # "none"
Same == Done => LET u == Meaning(T_("s://") \o text) IN IF H.k = "none" THEN ~ u.ok ELSE u.ok /\ u.host = H
Emit == Done => PrintT(ToJson([h |-> text, r |-> H]))
=============================================================================
