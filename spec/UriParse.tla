------------------------------ MODULE UriParse ------------------------------
(***************************************************************************)
(* U01: URIs read one character per transition.  The machine must end in   *)
(* the meaning of the text; printing must give the text back.  Every text  *)
(* and its components are printed for replay on the real parser.           *)
(***************************************************************************)
EXTENDS Uri, Json

CONSTANT Deep

VARIABLES text, pos, rd
vars == <<text, pos, rd>>

Words(A, lo, hi) == UNION { [1..len -> A] : len \in lo..hi }

\* every short text over one member of each class of characters
Classes == { CodeOf[ch] : ch \in {"a", "1", ":", "/", "?", "#", "@", "[", "]", "%", "=", "&"} }
Few     == { CodeOf[ch] : ch \in {"a", ":", "/", "?", "#", "@"} }
Short == Words(Classes, 0, 3)
         \cup { T_(p) \o q : p \in {"a:", "a://"}, q \in Words(Classes, 0, IF Deep THEN 4 ELSE 3) }
         \cup { T_(p) \o q : p \in {"a:", "a://"}, q \in Words(Few, 4, IF Deep THEN 6 ELSE 5) }

\* every combination of components
Schemes == TS({"", "a", "http", "a+b-c.1", "H2"} \cup IF Deep THEN {"1a", "a_b", "+"} ELSE {})
Users   == TS({"", "@", "u@", "u:@", ":p@", "u:p@"} \cup IF Deep THEN {"u:p:q@", "%41;=@", "u@v@"} ELSE {})
HostsT  == TS({"", "h", "a.b-c", "127.0.0.1", "127.0.0.1a", "[::1]", "[v1.a:b]"} \cup IF Deep THEN {"%4a%4A", "[::1", "[::g]"} ELSE {})
Ports   == TS({"", ":", ":0", ":80", ":65535", ":65536", ":000080", ":0065535", ":00065536", ":0000000000"} \cup IF Deep THEN {":00080", ":8a"} ELSE {})
AfterAuth == TS({"", "/", "/p", "/p/q", "//", "/a:b@c;d=e"})
NoAuths == TS({"", "/", "/p", "/p/q/", "p", "p/q", "a:b", "p//q"})
Queries == TS({"", "?", "?k", "?k=v&k", "?a=b=c?/"})
Frags   == TS({"", "#", "#f", "#f?/:@"})
Big == { s \o T_("://") \o u \o h \o o \o a : s \in TS({"", "http"}), u \in Users, h \in HostsT, o \in Ports, a \in AfterAuth }
       \cup { s \o T_(":") \o a \o q \o f : s \in Schemes, a \in NoAuths \cup {T_("//") \o h \o a : h \in TS({"", "h", "u@h:1"}), a \in AfterAuth}, q \in Queries, f \in Frags }
       \cup (IF Deep THEN { T_("s://") \o u \o h \o o \o a \o q \o f : u \in Users, h \in HostsT, o \in Ports, a \in AfterAuth, q \in TS({"?k=v&k"}), f \in TS({"", "#f"}) } ELSE {})

\* every character in every component
Holes == << <<"", "://u:p@h:1/p?k=v#f">>, <<"s", "://u:p@h:1/p?k=v#f">>, <<"s:", "//u:p@h:1/p?k=v#f">>, <<"s://", "u:p@h:1/p?k=v#f">>, <<"s://u", ":p@h:1/p?k=v#f">>,
            <<"s://u:p", "@h:1/p?k=v#f">>, <<"s://u:p@", "h:1/p?k=v#f">>, <<"s://u:p@h", ":1/p?k=v#f">>, <<"s://h:1", "/p?k=v#f">>,
            <<"s://h/", "p?k=v#f">>, <<"s://h/p", "/q?k=v#f">>, <<"s:p", "?k=v">>, <<"s:", "p?k=v">>, <<"s:/p?", "k=v#f">>, <<"s:/p?k", "=v#f">>, <<"s:/p?k=", "v#f">>,
            <<"s:/p?k=v", "">>, <<"s:/p?k=v#", "f">>, <<"s:/p?k=v#f", "">>, <<"s://1.2.3.4", "/p">>, <<"s://[::1", "]/p">>, <<"s://[::1]", "/p">>, <<"s://[v1.", "a]/">> >>
Insides == { <<ch>> : ch \in 0..127 \cup {128, 233, 8364} } \cup TS({"%", "%4", "%4a", "%4A", "%g0", "%0g", "%%41", "%41%", "a%41b", "%aF1"})
Filled == { T_(Holes[x][1]) \o m \o T_(Holes[x][2]) : x \in 1..Len(Holes), m \in Insides }

\* components of many characters, and many of them
Times(q, n) == [x \in 1..n * Len(q) |-> q[((x - 1) % Len(q)) + 1]]
Lengths == IF Deep THEN {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} ELSE {17, 33, 64, 129, 256, 300}
Long == { T_(Holes[x][1]) \o Times(m, n) \o T_(Holes[x][2]) : x \in 1..Len(Holes), m \in TS({"a", "1", "%41"}), n \in Lengths \cap 0..300 }
        \cup { T_("s://h") \o Times(m, n) \o z : m \in TS({"/", "/p", "/%2F"}), n \in Lengths, z \in TS({"", "?q#f", "^"}) }
        \cup { T_("s:/?") \o Times(m, n) \o z : m \in TS({"k&", "k=v&", "&", "="}), n \in Lengths, z \in TS({"", "z#f"}) }
        \cup { T_("s://h:") \o Times(T_("0"), n) \o z : n \in Lengths, z \in TS({"", "80", "65535/", "65536"}) }
        \cup { T_("s://") \o Times(m, n) \o T_("@h") : m \in TS({"u:", "%41"}), n \in Lengths }

Texts == Short \cup Big \cup Filled \cup Long

Init == text \in Texts /\ pos = 1 /\ rd = Reader0
Next == /\ rd.ph \notin {"ok", "no"}
        /\ rd' = Read(rd, IF pos > Len(text) THEN End ELSE text[pos])
        /\ pos' = pos + 1 /\ UNCHANGED text
Spec == Init /\ [][Next]_vars

Done == rd.ph \in {"ok", "no"}
U == Outcome(rd)

Refines == Done => U = Meaning(text)
OnlyAtEnd == rd.ph = "ok" => pos = Len(text) + 2
\* reading the printed form (an IPv6 address as written) gives the same components
AsWritten(u) == Printed(IF u.host.k = "v6" THEN [u EXCEPT !.host.k = "fut"] ELSE u)
RoundTrip == rd.ph = "ok" => Meaning(AsWritten(U)) = U
\* printing gives back the text, except for the spelling of the port
TextBack == rd.ph = "ok" => AsWritten(U) = text \/ (U.ha /\ \E x \in 1..Len(text) : text[x] = CO /\ x + 1 <= Len(text) /\ text[x + 1] = 48)
                              \/ (U.ha /\ U.port = NoPort)
\* the components cover the text: none is invented and none is lost
Covers == rd.ph = "ok" =>
  /\ (~ U.ha) => Printed(U) = text
  /\ U.hs <=> Len(U.sch) > 0
  /\ Len(Flat(U.parts)) <= Len(text)
  /\ U.hf <=> \E x \in 1..Len(text) : text[x] = HA
  /\ U.pk = "none" => U.parts = <<>> /\ ~ U.ha
Emit == Done => PrintT(ToJson([t |-> text, u |-> U, pr |-> IF U.ok THEN Printed(U) ELSE <<>>]))
=============================================================================
