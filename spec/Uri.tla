--------------------------------- MODULE Uri ---------------------------------
(***************************************************************************)
(* uri/: the language of URIs (RFC 3986; the scheme may be missing before  *)
(* its colon), the components of a text, hosts, queries, and how a parsed  *)
(* URI is printed.  Texts are sequences of codes.                          *)
(***************************************************************************)
EXTENDS Text

CO == 58   \* :
SL == 47   \* /
QM == 63   \* ?
HA == 35   \* #
AT == 64   \* @
PC == 37   \* %
EQ == 61   \* =
AM == 38   \* &
DO == 46   \* .
LB == 91
RB == 93

Unreserved == Alpha \cup Digit \cup {45, 46, 95, 126}
SubDelims  == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
RegChars   == Unreserved \cup SubDelims
PChars     == RegChars \cup {CO, AT}

\* q is made of members of S and percent-encoded triples
RECURSIVE Encoded(_, _)
Encoded(q, S) ==
  \/ Len(q) = 0
  \/ q[1] \in S /\ Encoded(Tail(q), S)
  \/ q[1] = PC /\ Len(q) >= 3 /\ q[2] \in Hex /\ q[3] \in Hex /\ Encoded(From(q, 4), S)

------------------------------------------------------------------------------
(* Hosts (U02) *)

Octet(q) == /\ Len(q) \in 1..3 /\ All(q, Digit)
            /\ Len(q) > 1 => q[1] # 48
            /\ Decimal(q) <= 255
V4(q) == LET ps == SplitOn(q, DO) IN
         IF Len(ps) = 4 /\ \A x \in 1..4 : Octet(ps[x]) THEN [x \in 1..4 |-> Decimal(ps[x])] ELSE <<>>

Group(q) == Len(q) \in 1..4 /\ All(q, Hex)

\* a run of groups separated by colons; the last piece may be an IPv4 address (two groups) if v4ok
\* <<FALSE, <<>>>> if it is not one
RunOf(q, v4ok) ==
  IF Len(q) = 0 THEN <<TRUE, <<>>>>
  ELSE LET ps == SplitOn(q, CO)
           n  == Len(ps)
           v4 == IF v4ok THEN V4(ps[n]) ELSE <<>>
           hx == [x \in 1..n |-> IF Group(ps[x]) THEN <<HexNum(ps[x])>>
                                  ELSE IF x = n /\ v4 # <<>> THEN <<v4[1] * 256 + v4[2], v4[3] * 256 + v4[4]>> ELSE <<>>]
       IN IF \E x \in 1..n : hx[x] = <<>> THEN <<FALSE, <<>>>> ELSE <<TRUE, Flat(hx)>>

\* the eight groups an IPv6 text denotes, or <<>>
V6(q) ==
  LET cs == { x \in 1..Len(q) - 1 : q[x] = CO /\ q[x + 1] = CO } IN
  IF cs = {} THEN LET r == RunOf(q, TRUE) IN IF r[1] /\ Len(r[2]) = 8 THEN r[2] ELSE <<>>
  ELSE IF Cardinality(cs) > 1 THEN <<>>
  ELSE LET x == CHOOSE y \in cs : TRUE
           l == RunOf(SubSeq(q, 1, x - 1), FALSE)
           r == RunOf(From(q, x + 2), TRUE)
       IN IF l[1] /\ r[1] /\ Len(l[2]) + Len(r[2]) <= 7
          THEN l[2] \o [y \in 1..(8 - Len(l[2]) - Len(r[2])) |-> 0] \o r[2] ELSE <<>>

Future(q) == LET x == Find(q, {DO}) IN
             /\ Len(q) >= 1 /\ q[1] \in {118, 86}
             /\ x >= 3 /\ All(SubSeq(q, 2, x - 1), Hex)
             /\ x < Len(q) /\ All(From(q, x + 1), RegChars \cup {CO})

Host(k, q, a) == [k |-> k, s |-> q, a |-> a]
NoHost == Host("none", <<>>, <<>>)
HostOf(q) ==
  IF Len(q) >= 1 /\ q[1] = LB
  THEN IF q[Len(q)] # RB \/ Len(q) < 2 THEN NoHost
       ELSE LET in == SubSeq(q, 2, Len(q) - 1) IN
            IF V6(in) # <<>> THEN Host("v6", in, V6(in))
            ELSE IF Future(in) THEN Host("fut", in, <<>>) ELSE NoHost
  ELSE IF V4(q) # <<>> THEN Host("v4", q, V4(q))
  ELSE IF Encoded(q, RegChars) THEN Host("reg", q, <<>>) ELSE NoHost

------------------------------------------------------------------------------
(* Authority, path, query *)

NoPort == -1
\* port text after the colon: empty is no port
PortOf(q) == IF Len(q) = 0 THEN <<TRUE, NoPort>>
             ELSE LET z == FindFrom(q, 49..57, 1)            \* leading zeros do not count
                      d == IF z > Len(q) THEN <<48>> ELSE From(q, z)
                  IN IF All(q, Digit) /\ Len(d) <= 5 /\ Decimal(d) <= 65535 THEN <<TRUE, Decimal(d)>> ELSE <<FALSE, NoPort>>

NoUser == [has |-> FALSE, u |-> <<>>, hp |-> FALSE, p |-> <<>>]
UserOf(q) == LET x == Find(q, {CO}) IN
             [has |-> TRUE, u |-> SubSeq(q, 1, x - 1), hp |-> x <= Len(q), p |-> From(q, x + 1)]

NoAuth == [ok |-> FALSE, user |-> NoUser, host |-> NoHost, port |-> NoPort]
AuthOf(q) ==
  LET ats == SplitOn(q, AT)
      hp  == ats[Len(ats)]
      x   == IF Len(hp) >= 1 /\ hp[1] = LB THEN FindFrom(hp, {RB}, 1) + 1 ELSE Find(hp, {CO})
      h   == HostOf(SubSeq(hp, 1, IF x - 1 > Len(hp) THEN Len(hp) ELSE x - 1))
      p   == IF x > Len(hp) THEN <<TRUE, NoPort>> ELSE IF hp[x] # CO THEN <<FALSE, NoPort>> ELSE PortOf(From(hp, x + 1))
  IN IF Len(ats) > 2 \/ h.k = "none" \/ ~ p[1] THEN NoAuth
     ELSE IF Len(ats) = 2 /\ ~ Encoded(ats[1], RegChars \cup {CO}) THEN NoAuth
     ELSE [ok |-> TRUE, user |-> IF Len(ats) = 2 THEN UserOf(ats[1]) ELSE NoUser, host |-> h, port |-> p[2]]

\* the parts of a path: every part but a rootless path's first begins with its slash
RECURSIVE PartsOf(_)
PartsOf(q) == IF Len(q) = 0 THEN <<>>
              ELSE LET x == FindFrom(q, {SL}, 2) IN <<SubSeq(q, 1, x - 1)>> \o PartsOf(From(q, x))
PathOk(q) == Encoded(q, PChars \cup {SL})

Param(k, hv, v) == [k |-> k, hv |-> hv, v |-> v]
ParamOf(q) == LET x == Find(q, {EQ}) IN Param(SubSeq(q, 1, x - 1), x <= Len(q), From(q, x + 1))
ParamsOf(q) == LET ps == SplitOn(q, AM) IN [x \in 1..Len(ps) |-> ParamOf(ps[x])]
QueryOk(q) == Encoded(q, PChars \cup {SL, QM})
FragmentOk(q) == Encoded(q, PChars \cup {SL, QM})

------------------------------------------------------------------------------
(* A URI *)

NoUri == [ok |-> FALSE, hs |-> FALSE, sch |-> <<>>, ha |-> FALSE, user |-> NoUser, host |-> NoHost, port |-> NoPort,
          pk |-> "none", parts |-> <<>>, hq |-> FALSE, q |-> <<>>, hf |-> FALSE, f |-> <<>>]

SchemeOk(q) == Len(q) = 0 \/ (q[1] \in Alpha /\ All(q, Alpha \cup Digit \cup {43, 45, 46}))

\* denotation: split at the delimiters (RFC 3986 appendix B), check every component
Meaning(t) ==
  LET c  == Find(t, {CO})
      h  == Find(t, {HA})
      r1 == From(SubSeq(t, 1, h - 1), c + 1)
      qm == Find(r1, {QM})
      hier == SubSeq(r1, 1, qm - 1)
      ha == Len(hier) >= 2 /\ hier[1] = SL /\ hier[2] = SL
      e  == IF ha THEN FindFrom(hier, {SL}, 3) ELSE 1
      au == IF ha THEN AuthOf(SubSeq(hier, 3, e - 1)) ELSE [NoAuth EXCEPT !.ok = TRUE]
      pth == From(hier, e)
      qt == From(r1, qm + 1)
      ft == From(t, h + 1)
  IN IF c > Len(t) \/ c > h \/ ~ SchemeOk(SubSeq(t, 1, c - 1)) \/ ~ au.ok \/ ~ PathOk(pth) \/ ~ QueryOk(qt) \/ ~ FragmentOk(ft) THEN NoUri
     ELSE [ok |-> TRUE, hs |-> c > 1, sch |-> SubSeq(t, 1, c - 1), ha |-> ha, user |-> au.user, host |-> au.host, port |-> au.port,
           pk |-> IF ha \/ (Len(pth) > 0 /\ pth[1] = SL) THEN "abempty" ELSE IF Len(pth) > 0 THEN "rootless" ELSE "none",
           parts |-> PartsOf(pth), hq |-> qm <= Len(r1), q |-> IF qm <= Len(r1) THEN ParamsOf(qt) ELSE <<>>,
           hf |-> h <= Len(t), f |-> ft]

\* the printed form; the text of an IPv6 address is left to its own notation (code -6)
PrintParam(p) == p.k \o (IF p.hv THEN <<EQ>> \o p.v ELSE <<>>)
PrintQuery(ps) == FlatWith([x \in 1..Len(ps) |-> PrintParam(ps[x])], <<AM>>)
PrintHost(h) == CASE h.k = "v6" -> <<LB, -6, RB>> [] h.k = "fut" -> <<LB>> \o h.s \o <<RB>> [] OTHER -> h.s
PrintUser(u) == IF ~ u.has THEN <<>> ELSE u.u \o (IF u.hp THEN <<CO>> \o u.p ELSE <<>>) \o <<AT>>
Printed(u) ==
  u.sch \o <<CO>>
  \o (IF u.ha THEN <<SL, SL>> \o PrintUser(u.user) \o PrintHost(u.host) \o (IF u.port = NoPort THEN <<>> ELSE <<CO>> \o DecText(u.port)) ELSE <<>>)
  \o Flat(u.parts)
  \o (IF u.hq THEN <<QM>> \o PrintQuery(u.q) ELSE <<>>)
  \o (IF u.hf THEN <<HA>> \o u.f ELSE <<>>)

------------------------------------------------------------------------------
(* The same language read one character at a time (operational).            *)
(* ph: scheme colon-hier slash auth path query value frag ok no             *)
(* pct: hexadecimal digits still owed to a percent sign                     *)

Reader0 == [ph |-> "scheme", pct |-> 0, buf |-> <<>>, u |-> [NoUri EXCEPT !.ok = TRUE], at |-> FALSE]
Stop(st) == [st EXCEPT !.ph = "no"]
End == -1

\* an ordinary character of the component being read, or Stop
Take(st, ch, S) ==
  IF st.pct > 0 THEN IF ch \in Hex THEN [st EXCEPT !.pct = @ - 1, !.buf = Append(@, ch)] ELSE Stop(st)
  ELSE IF ch = PC THEN [st EXCEPT !.pct = 2, !.buf = Append(@, ch)]
  ELSE IF ch \in S THEN [st EXCEPT !.buf = Append(@, ch)] ELSE Stop(st)

\* the authority's text is complete: userinfo was cut off at its @, the rest is host [: port]
CloseAuth(st) ==
  LET hp == st.buf
      x  == IF Len(hp) > 0 /\ hp[1] = LB THEN Find(hp, {RB}) + 1 ELSE Find(hp, {CO})
      h  == HostOf(SubSeq(hp, 1, IF x > Len(hp) THEN Len(hp) ELSE x - 1))
      p  == IF x > Len(hp) THEN <<TRUE, NoPort>> ELSE IF hp[x] = CO THEN PortOf(From(hp, x + 1)) ELSE <<FALSE, NoPort>>
  IN IF h.k = "none" \/ ~ p[1] THEN Stop(st)
     ELSE [st EXCEPT !.buf = <<>>, !.u = [@ EXCEPT !.ha = TRUE, !.host = h, !.port = p[2], !.pk = "abempty"]]
ClosePart(st) == IF st.pct > 0 THEN Stop(st)
                 ELSE IF st.buf = <<>> THEN st ELSE [st EXCEPT !.buf = <<>>, !.u.parts = Append(@, st.buf)]
CloseParam(st) ==
  IF st.pct > 0 THEN Stop(st)
  ELSE [st EXCEPT !.buf = <<>>, !.u.q = IF st.ph = "value" THEN [@ EXCEPT ![Len(@)] = [@ EXCEPT !.hv = TRUE, !.v = st.buf]]
                                        ELSE Append(@, Param(st.buf, FALSE, <<>>))]
Then(st, ph) == IF st.ph = "no" THEN st ELSE [st EXCEPT !.ph = ph]
\* ? # or the end, after the hierarchical part
After(st, ch) ==
  IF st.ph = "no" THEN st
  ELSE CASE ch = QM -> [st EXCEPT !.ph = "query", !.u.hq = TRUE]
         [] ch = HA -> [st EXCEPT !.ph = "frag", !.u.hf = TRUE]
         [] ch = End -> [st EXCEPT !.ph = "ok"]

Read(st, ch) ==
  CASE st.ph \in {"ok", "no"} -> Stop(st)
    [] st.ph = "scheme" ->
         IF ch = CO THEN [st EXCEPT !.ph = "hier", !.buf = <<>>, !.u = [@ EXCEPT !.hs = st.buf # <<>>, !.sch = st.buf]]
         ELSE IF ch \in Alpha \/ (st.buf # <<>> /\ ch \in Digit \cup {43, 45, 46}) THEN [st EXCEPT !.buf = Append(@, ch)] ELSE Stop(st)
    [] st.ph = "hier" ->
         IF ch = SL THEN [st EXCEPT !.ph = "slash", !.buf = <<SL>>]
         ELSE IF ch \in {QM, HA, End} THEN After(st, ch)
         ELSE Take([st EXCEPT !.ph = "path", !.u.pk = "rootless"], ch, PChars)
    [] st.ph = "slash" ->
         IF ch = SL THEN [st EXCEPT !.ph = "auth", !.buf = <<>>]
         ELSE IF ch \in {QM, HA, End} THEN After(ClosePart([st EXCEPT !.u.pk = "abempty"]), ch)
         ELSE Take([st EXCEPT !.ph = "path", !.u.pk = "abempty"], ch, PChars)
    [] st.ph = "auth" ->
         (CASE ch = AT -> IF st.at \/ ~ Encoded(st.buf, RegChars \cup {CO}) THEN Stop(st)
                          ELSE [st EXCEPT !.at = TRUE, !.buf = <<>>, !.u.user = UserOf(st.buf)]
            [] ch = SL -> LET s2 == CloseAuth(st) IN IF s2.ph = "no" THEN s2 ELSE [s2 EXCEPT !.ph = "path", !.buf = <<SL>>]
            [] ch \in {QM, HA, End} -> After(CloseAuth(st), ch)
            [] OTHER -> [st EXCEPT !.buf = Append(@, ch)])
    [] st.ph = "path" ->
         (CASE ch = SL -> LET s2 == ClosePart(st) IN IF s2.ph = "no" THEN s2 ELSE [s2 EXCEPT !.buf = <<SL>>]
            [] ch \in {QM, HA, End} -> After(ClosePart(st), ch)
            [] OTHER -> Take(st, ch, PChars))
    [] st.ph \in {"query", "value"} ->
         (CASE ch = AM -> Then(CloseParam(st), "query")
            [] ch = EQ /\ st.ph = "query" -> Then(CloseParam(st), "value")
            [] ch \in {HA, End} -> After(CloseParam(st), ch)
            [] OTHER -> Take(st, ch, PChars \cup {SL, QM}))
    [] st.ph = "frag" ->
         IF ch = End THEN IF st.pct > 0 THEN Stop(st) ELSE [st EXCEPT !.ph = "ok", !.u.f = st.buf]
         ELSE Take(st, ch, PChars \cup {SL, QM})

Outcome(st) == IF st.ph = "ok" THEN st.u ELSE NoUri

------------------------------------------------------------------------------
(* Queries as multimaps (U03) *)

\* the values of name k, in order, and whether the name occurs at all
ValuesOf(ps, k) == LET sel == SelectSeq(ps, LAMBDA p : p.k = k /\ p.hv) IN [x \in 1..Len(sel) |-> sel[x].v]
Has(ps, k) == \E x \in 1..Len(ps) : ps[x].k = k
Names(ps) == { ps[x].k : x \in 1..Len(ps) }
Lookup(ps, k) == [k |-> k, has |-> Has(ps, k), vs |-> ValuesOf(ps, k)]

------------------------------------------------------------------------------
(* URIs put together by a program (U04).  A path is a kind and parts; the   *)
(* empty path has no room for parts.                                        *)

Kinds == {"rootless", "abempty", "absolute", "no_scheme", "empty"}
PathIs(k, ps) == [k |-> k, parts |-> IF k = "empty" THEN <<>> ELSE ps]
Apply(p, o) ==
  CASE o.o \in {"add", "adds", "with"} -> PathIs(p.k, p.parts \o o.ps)
    [] o.o = "clone" -> p
    [] OTHER -> PathIs(o.o, p.parts)
PrintPath(p) == Flat(p.parts)

Blank == [hs |-> FALSE, sch |-> <<>>, hh |-> FALSE, ha |-> FALSE, user |-> NoUser, host |-> NoHost, port |-> NoPort, path |-> PathIs("empty", <<>>),
          hq |-> FALSE, q |-> <<>>, hf |-> FALSE, f |-> <<>>]
\* the text of an IPv6 address: its eight groups (how it is abbreviated is left open)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE Append(HexText(n \div 16), HexDigit(n % 16))
SixText(a) == FlatWith([x \in 1..8 |-> HexText(a[x])], <<CO>>)
TextOf(b, six) ==
  b.sch \o <<CO>>
  \o (IF b.ha THEN <<SL, SL>> \o PrintUser(b.user) \o (IF b.host.k = "v6" THEN <<LB>> \o (IF six THEN SixText(b.host.a) ELSE <<-6>>) \o <<RB>> ELSE PrintHost(b.host))
                  \o (IF b.port = NoPort THEN <<>> ELSE <<CO>> \o DecText(b.port)) ELSE <<>>)
  \o PrintPath(b.path)
  \o (IF b.hq THEN <<QM>> \o PrintQuery(b.q) ELSE <<>>)
  \o (IF b.hf THEN <<HA>> \o b.f ELSE <<>>)

\* when the components are what a reader of the text could have found
Slashed(ps) == \A x \in 1..Len(ps) : Len(ps[x]) > 0 /\ ps[x][1] = SL /\ Encoded(From(ps[x], 2), PChars)
PathFits(b) ==
  LET ps == b.path.parts IN
  IF b.ha THEN b.path.k = "abempty" /\ Slashed(ps)
  ELSE \/ ~ b.hh
       \/ b.path.k = "abempty" /\ Len(ps) > 0 /\ Slashed(ps) /\ (Len(ps) = 1 \/ Len(ps[1]) > 1)
       \/ b.path.k = "rootless" /\ Len(ps) > 0 /\ Len(ps[1]) > 0 /\ Encoded(ps[1], PChars) /\ Slashed(Tail(ps))
UserFits(i) == i.has => Encoded(i.u, RegChars) /\ (i.hp => Encoded(i.p, RegChars \cup {CO}))
QueryFits(b) == b.hq => /\ Len(b.q) > 0
                        /\ \A x \in 1..Len(b.q) : /\ Encoded(b.q[x].k, (PChars \cup {SL, QM}) \ {EQ, AM})
                                                   /\ Encoded(b.q[x].v, (PChars \cup {SL, QM}) \ {AM})
Fits(b) == /\ b.hs <=> Len(b.sch) > 0
           /\ SchemeOk(b.sch) /\ PathFits(b) /\ UserFits(b.user) /\ QueryFits(b)
           /\ b.ha => HostOf(IF b.host.k \in {"v6", "fut"} THEN <<LB>> \o (IF b.host.k = "v6" THEN SixText(b.host.a) ELSE b.host.s) \o <<RB>> ELSE b.host.s).k = b.host.k
           /\ b.hf => FragmentOk(b.f)
Bare(x) == IF x.host.k = "v6" THEN [x EXCEPT !.host.s = <<>>] ELSE x
Found(b) == [ok |-> TRUE, hs |-> b.hs, sch |-> b.sch, ha |-> b.ha, user |-> b.user, host |-> b.host, port |-> b.port,
             pk |-> IF b.hh THEN b.path.k ELSE "none", parts |-> b.path.parts, hq |-> b.hq, q |-> b.q, hf |-> b.hf, f |-> b.f]
=============================================================================
