------------------------------ MODULE UriModel ------------------------------
(***************************************************************************)
(* U04: URIs put together by a program.  A path begins as one of the five  *)
(* kinds and is changed part by part (fam "path"); a URI is put together   *)
(* component by component, printed, and the text is read again (fam        *)
(* "uri"); queries are compared (fam "order").  Every state is printed     *)
(* with what can be observed of it, for replay on the real models.         *)
(***************************************************************************)
EXTENDS Uri, Json

CONSTANT Deep

VARIABLES fam, path, start, ops, u, at
vars == <<fam, path, start, ops, u, at>>

------------------------------------------------------------------------------
(* Paths: a kind and parts; the empty path has no room for parts. *)

Pieces == TS({"", "/", "a", "/b", "/%41"})
Longer == { [x \in 1..n |-> IF x % 2 = 0 THEN 47 ELSE 97] : n \in {40, 300} }
PartLists == { <<>>, <<T_("a")>>, <<T_("/a"), T_("/b")>>, <<T_("/"), T_("/"), T_("/c")>> }
Op(o, ps) == [o |-> o, ps |-> ps]
Ops == { Op("add", <<p>>) : p \in Pieces } \cup { Op(o, ps) : o \in {"adds", "with"}, ps \in PartLists } \cup { Op(o, <<>>) : o \in {"rootless", "absolute", "clone"} }
Depth == IF Deep THEN 4 ELSE 3

------------------------------------------------------------------------------
(* A URI component by component *)

Schemes == TS({"", "a", "http", "x+y-1.z", "1x", "a:b"})
Users   == { NoUser } \cup { [has |-> TRUE, u |-> T_(x), hp |-> FALSE, p |-> <<>>] : x \in {"", "u", "%40"} }
           \cup { [has |-> TRUE, u |-> T_(x), hp |-> TRUE, p |-> T_(y)] : x \in {"", "u"}, y \in {"", "p", "p:q", "p@q"} }
H(k, s, a) == Host(k, T_(s), a)
HostPool == { H("reg", "", <<>>), H("reg", "h.x", <<>>), H("reg", "a%41", <<>>), H("reg", "1.2.3.4", <<>>), H("reg", "a/b", <<>>),
              H("v4", "0.0.0.0", <<0, 0, 0, 0>>), H("v4", "255.1.20.3", <<255, 1, 20, 3>>), H("v6", "", <<0, 0, 0, 0, 0, 0, 0, 1>>),
              H("v6", "", <<8193, 3512, 0, 0, 0, 0, 0, 0>>), H("v6", "", <<1, 2, 3, 4, 5, 6, 7, 65535>>), H("fut", "v1.a:b", <<>>), H("fut", "vF.~", <<>>) }
PortPool == {NoPort, 0, 7, 80, 8080, 65535}
AuthPaths == { PathIs("abempty", <<>>), PathIs("abempty", <<T_("/")>>), PathIs("abempty", <<T_("/p"), T_("/q:@")>>), PathIs("empty", <<>>),
               PathIs("absolute", <<T_("/p")>>), PathIs("rootless", <<T_("p"), T_("/q")>>) }
BarePaths == AuthPaths \cup { PathIs("no_scheme", <<T_("p")>>), PathIs("rootless", <<T_("a:b"), T_("/"), T_("/c")>>), PathIs("abempty", <<T_("/"), T_("/c")>>), PathIs("rootless", <<T_("p?q")>>),
                           PathIs("abempty", <<T_("/p"), T_("/"), T_("/")>>), PathIs("rootless", <<T_("p"), T_("/"), T_("/.."), T_("/.")>>) }
QueryPool == { [hq |-> FALSE, q |-> <<>>], [hq |-> TRUE, q |-> <<>>], [hq |-> TRUE, q |-> <<Param(T_("k"), TRUE, T_("v"))>>],
               [hq |-> TRUE, q |-> <<Param(T_("k"), TRUE, <<>>), Param(T_("k"), FALSE, <<>>), Param(<<>>, TRUE, T_("v=/?"))>>],
               [hq |-> TRUE, q |-> <<Param(T_("k#"), FALSE, <<>>)>>], [hq |-> TRUE, q |-> <<Param(T_("k=x"), FALSE, <<>>)>>] }
FragPool == { [hf |-> FALSE, f |-> <<>>] } \cup { [hf |-> TRUE, f |-> T_(x)] : x \in {"", "f", "/?:@", "%4a", "#"} }

------------------------------------------------------------------------------
Orders == { <<>>, <<Param(T_("a"), FALSE, <<>>)>>, <<Param(T_("a"), TRUE, <<>>)>>, <<Param(T_("a"), TRUE, T_("1"))>>, <<Param(T_("b"), FALSE, <<>>)>>,
            <<Param(T_("a"), TRUE, T_("1")), Param(T_("b"), FALSE, <<>>)>>, <<Param(T_("ab"), FALSE, <<>>)>>, <<Param(T_("B"), FALSE, <<>>)>>, <<Param(T_("a&b"), FALSE, <<>>)>> ,
            <<Param(T_("a"), FALSE, <<>>), Param(T_("b"), FALSE, <<>>)>> }
RECURSIVE Less(_, _)
Less(a, b) == IF Len(a) = 0 THEN Len(b) > 0 ELSE IF Len(b) = 0 THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))

Init == \/ /\ fam = "path" /\ \E k \in Kinds, ps \in PartLists \cup { <<l>> : l \in Longer } : path = PathIs(k, ps) /\ start = [k |-> k, parts |-> ps]
           /\ ops = <<>> /\ u = Blank /\ at = 0
        \/ fam = "uri" /\ path = PathIs("empty", <<>>) /\ start = path /\ ops = <<>> /\ u = Blank /\ at = 1
        \/ fam = "order" /\ path = PathIs("empty", <<>>) /\ start = path /\ u = Blank /\ at = 0 /\ \E a \in Orders, b \in Orders : ops = <<a, b>>
Change == /\ fam = "path" /\ Len(ops) < Depth
          /\ \E o \in Ops : path' = Apply(path, o) /\ ops' = Append(ops, o)
          /\ UNCHANGED <<fam, start, u, at>>
\* scheme, authority, path, query, fragment: each step gives one component or leaves it out
Assemble ==
  /\ fam = "uri" /\ at \in 1..5 /\ at' = at + 1
  /\ CASE at = 1 -> \E s \in Schemes : u' = [u EXCEPT !.hs = s # <<>>, !.sch = s]
       [] at = 2 -> \/ u' = u
                    \/ \E i \in Users, h \in HostPool, p \in (IF Deep THEN PortPool ELSE {NoPort, 0, 65535}) :
                         u' = [u EXCEPT !.hh = TRUE, !.ha = TRUE, !.user = i, !.host = h, !.port = p]
       [] at = 3 -> \/ ~ u.hh /\ u' = u
                    \/ \E p \in (IF u.ha THEN AuthPaths ELSE BarePaths) : u' = [u EXCEPT !.hh = TRUE, !.path = p]
       [] at = 4 -> \E q \in (IF u.ha /\ ~ Deep THEN { r \in QueryPool : Len(r.q) # 1 } ELSE QueryPool) : u' = [u EXCEPT !.hq = q.hq, !.q = q.q]
       [] at = 5 -> \E f \in (IF u.ha /\ ~ Deep THEN { r \in FragPool : Len(r.f) < 2 } ELSE FragPool) : u' = [u EXCEPT !.hf = f.hf, !.f = f.f]
  /\ UNCHANGED <<fam, path, start, ops>>
Next == Change \/ Assemble
Spec == Init /\ [][Next]_vars

Built == fam = "uri" /\ at = 6
\* components that fit are found again in the text, and only those
ReadsBack == Built => LET m == Bare(Meaning(TextOf(u, TRUE))) IN
                      /\ Fits(u) => m = Found(u)
                      /\ m = Found(u) => Fits(u)
\* what is added to a path stays in it, in order; only a change of kind changes the kind
PathKept == fam = "path" =>
  /\ path.k = "empty" => path.parts = <<>>
  /\ path.k # "empty" /\ start.k # "empty" => SubSeq(path.parts, 1, Len(start.parts)) = start.parts
  /\ (\A x \in DOMAIN ops : ops[x].o \notin {"rootless", "absolute"}) => path.k = start.k
LessIsOrder == fam = "order" => LET a == PrintQuery(ops[1]) b == PrintQuery(ops[2]) IN Cardinality({ z \in {1, 2, 3} : <<Less(a, b), Less(b, a), a = b>>[z] }) = 1
Emit == CASE fam = "path" -> PrintT(ToJson([a |-> "path", from |-> start, ops |-> ops, k |-> path.k, parts |-> path.parts, pr |-> PrintPath(path), empty |-> path.parts = <<>>]))
          [] fam = "order" -> PrintT(ToJson([a |-> "order", x |-> ops[1], y |-> ops[2],
                                             o |-> IF PrintQuery(ops[1]) = PrintQuery(ops[2]) THEN 0 ELSE IF Less(PrintQuery(ops[1]), PrintQuery(ops[2])) THEN -1 ELSE 1]))
          [] Built -> PrintT(ToJson([a |-> "uri", b |-> u, pr |-> TextOf(u, FALSE), fits |-> Fits(u), back |-> Bare(Meaning(TextOf(u, TRUE)))]))
          [] OTHER -> TRUE
=============================================================================
