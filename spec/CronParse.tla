------------------------------ MODULE CronParse ------------------------------
(***************************************************************************)
(* K01: the reader run over texts, one character per transition; it must   *)
(* end in the meaning of the text.  Every text and its meaning is printed  *)
(* for replay on the real parser.                                          *)
(***************************************************************************)
EXTENDS Cron, Json, SequencesExt

CONSTANT Deep

VARIABLES text, pos, rd
vars == <<text, pos, rd>>

Chars(str) == [x \in 1..Len(str) |-> SubSeq(str, x, x)]
Words(A, lo, hi) == UNION { [1..len -> A] : len \in lo..hi }

Dg == { Digits[x] : x \in 1..10 }
\* every numeral of one, two and some of three digits
Numerals == Words(Dg, 1, 2) \cup { Chars(z) : z \in {"000", "001", "010", "059", "100", "012", "007"} }
Names == { Chars(DayNames[x]) : x \in 1..7 } \cup { Chars(z) : z \in {"L", "sun", "Mon", "LL", "SUNDAY", "SU", "S", "SUNMON", "l", "W"} }
Ends == { Chars(z) : z \in {"0", "1", "5", "05", "7", "12", "13", "23", "24", "31", "32", "59", "60", "00", "MON", "L"} }
Steps == { Chars(z) : z \in {"0", "1", "2", "15", "60", "L", ""} }
Sh == {"1", "5", "0", "*", "/", "-", ",", " "}
ShortWords == Words(Sh, 0, IF Deep THEN 4 ELSE 3) \cup Words({"1", "*", "/", "-", ","}, 4, IF Deep THEN 6 ELSE 4)
            \cup Words({"1", "L", "-", ",", "/"}, 0, IF Deep THEN 5 ELSE 4)
\* every visible character of ASCII, and where it might be taken for what belongs there
Seen == { "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", 
         "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", 
         "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", 
         "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", 
         "{", "|", "}", "~" }
Strange == UNION { { <<ch>>, <<"1", ch>>, <<"2", ch>>, <<"3", ch>>, <<"0", ch>>, <<ch, "1">>, <<"1", "-", ch>>, <<"1", "-", "1", ch>>, <<"*", ch>>,
                     <<"*", "/", ch>>, <<"*", "/", "1", ch>>, <<"1", ch, "2">>, <<"1", "-", "5", ch, "2">>, <<"S", "U", ch>>, <<ch, "U", "N">>, <<"F", ch, "I">> } : ch \in Seen }
FieldTexts ==
  Strange \cup Numerals \cup Names \cup ShortWords
  \cup { a \o <<"-">> \o b : a \in Ends, b \in Ends }
  \cup { a \o <<"-">> \o b \o <<"/">> \o s : a \in {<<"1">>, <<"5">>, Chars("10"), Chars("MON")}, b \in Ends, s \in Steps }
  \cup { <<"*", "/">> \o s : s \in Steps \cup Numerals }
  \cup { a \o <<",">> \o b : a \in Ends, b \in Ends }
  \cup { a \o <<",">> \o b \o <<",">> \o d : a \in {<<"1">>, Chars("1-5"), Chars("MON")}, b \in {<<"2">>, Chars("2-4/2"), <<"*">>}, d \in Ends }

Other == << Chars("*"), Chars("3"), Chars("*/2"), Chars("1-5/2"), Chars("1,2") >>
RECURSIVE JoinSp(_)
JoinSp(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<" ">> \o JoinSp(Tail(q))
Line(f, q, o) == JoinSp([x \in 1..5 |-> IF x = f THEN q ELSE o])
\* combinations of whole fields, of wrong counts, and of white space in wrong places
Whole == { Chars(z) : z \in {"*", "1", "*/5", "1-3", "2-6/2", "1,3-5", "", "60", "L"} }
Lines == UNION { { JoinSp(q) : q \in [1..len -> { Chars(z) : z \in {"*", "1", "*/5", "1,3-5"} }] } : len \in {1, 2, 3, 4, 6} }
       \cup { JoinSp(q) : q \in [1..5 -> IF Deep THEN Whole ELSE { Chars(z) : z \in {"*", "1", "2-6/2", "1,3-5", ""} }] }
\* long lists: every value in turn, and more values than there are
RECURSIVE Join(_, _)
Join(q, ch) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<ch>> \o Join(Tail(q), ch)
Numeral(v) == IF v < 10 THEN <<Digits[v + 1]>> ELSE <<Digits[(v \div 10) + 1], Digits[(v % 10) + 1]>>
Values(f) == FieldMax[f] - FieldMin[f] + 1
Listed(f, n, k) == Join([z \in 1..n |-> Numeral(FieldMin[f] + ((z * k) % Values(f)))], ",")
LongLists == { Line(f, Listed(f, n, k) \o z, <<"*">>) : f \in 1..5, n \in {7, 8, 16, 24, 31, 32, 60, 64, 100}, k \in {1, 7}, z \in {<<>>, <<",">>, <<"-">>, Chars(",60"), Chars(",1-3/2")} }
Texts == LongLists \cup { Line(f, q, Other[1]) : f \in 1..5, q \in FieldTexts }
       \cup { Line(f, q, Other[o]) : f \in 1..5, o \in 2..5, q \in Ends \cup {Chars("1-5"), Chars("*/2"), Chars("1,2-4/2")} }
       \cup Lines
       \cup { <<ch>> \o Line(1, <<"*">>, <<"*">>) : ch \in {" ", "*", "0", ","} }
       \cup { Line(1, <<"*">>, <<"*">>) \o <<ch>> : ch \in {" ", "*", "0", ",", "x"} }
       \cup { Chars(z) : z \in {"@daily", "* * * * *\n", "*\t* * * *", "1 1 1 1 1 2030", "?", "* * ? * *", "1-5 1-5 1-5 1-5 MON-FRI", "*  * * * *"} }

Init == text \in Texts /\ pos = 1 /\ rd = Reader0
Next == /\ rd.ph \notin {"ok", "no"}
        /\ rd' = Read(rd, IF pos > Len(text) THEN "" ELSE text[pos])
        /\ pos' = pos + 1 /\ UNCHANGED text
Spec == Init /\ [][Next]_vars

Done == rd.ph \in {"ok", "no"}
\* the reader decides by reading on exactly the meaning of the text; it never reads past the end
Refines == Done => (IF rd.ph = "ok" THEN rd.out ELSE <<>>) = Meaning(text)
OnlyAtEnd == rd.ph = "ok" => pos = Len(text) + 2
FiveFields == rd.ph = "ok" => Len(rd.out) = 5
RECURSIVE Bounded(_, _)
Bounded(f, e) == /\ e.k = "val" => e.n \in FieldMin[f]..FieldMax[f]
                 /\ \A x \in 1..Len(e.c) : Bounded(f, e.c[x])
InRange == \A x \in 1..Len(rd.out) : Bounded(x, rd.out[x])
Emit == Done => PrintT(ToJson([t |-> Str(text), fs |-> IF rd.ph = "ok" THEN rd.out ELSE <<>>]))
=============================================================================
