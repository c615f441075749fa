-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of character codes, written as strings.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in { SubSeq(Printable, x, x) : x \in 1..95 } |-> 31 + CHOOSE x \in 1..95 : SubSeq(Printable, x, x) = ch]
\* the codes of a string
T_(str) == [x \in 1..Len(str) |-> CodeOf[SubSeq(str, x, x)]]
TS(strs) == { T_(str) : str \in strs }

Alpha == 65..90 \cup 97..122
Digit == 48..57
Hex   == Digit \cup 65..70 \cup 97..102

HexVal(ch) == IF ch \in Digit THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE ch - 87
RECURSIVE Decimal(_), HexNum(_)
Decimal(q) == IF Len(q) = 0 THEN 0 ELSE 10 * Decimal(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)] - 48
HexNum(q)  == IF Len(q) = 0 THEN 0 ELSE 16 * HexNum(SubSeq(q, 1, Len(q) - 1)) + HexVal(q[Len(q)])
RECURSIVE DecText(_)
DecText(v) == IF v < 10 THEN <<48 + v>> ELSE Append(DecText(v \div 10), 48 + (v % 10))

All(q, S) == \A x \in 1..Len(q) : q[x] \in S
From(q, x) == SubSeq(q, x, Len(q))

\* position of the first member of S in q, Len(q) + 1 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(q, S, x) == IF x > Len(q) \/ q[x] \in S THEN x ELSE FindFrom(q, S, x + 1)
Find(q, S) == FindFrom(q, S, 1)

RECURSIVE SplitOn(_, _)
SplitOn(q, ch) == LET x == Find(q, {ch}) IN
                  IF x > Len(q) THEN <<q>> ELSE <<SubSeq(q, 1, x - 1)>> \o SplitOn(From(q, x + 1), ch)

RECURSIVE Flat(_)
Flat(qs) == IF Len(qs) = 0 THEN <<>> ELSE qs[1] \o Flat(Tail(qs))
RECURSIVE FlatWith(_, _)
FlatWith(qs, sep) == IF Len(qs) = 0 THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o sep \o FlatWith(Tail(qs), sep)

\* UTF-16 units as characters; what is no pair of surrogates is the replacement character
High(u) == u >= 55296 /\ u <= 56319
Low(u)  == u >= 56320 /\ u <= 57343
RECURSIVE FromUtf16(_)
FromUtf16(us) == IF Len(us) = 0 THEN <<>>
                 ELSE IF High(us[1]) /\ Len(us) > 1 /\ Low(us[2])
                      THEN <<65536 + (us[1] - 55296) * 1024 + us[2] - 56320>> \o FromUtf16(SubSeq(us, 3, Len(us)))
                 ELSE <<IF High(us[1]) \/ Low(us[1]) THEN 65533 ELSE us[1]>> \o FromUtf16(Tail(us))
=============================================================================
