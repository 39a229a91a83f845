------------------------------ MODULE UtilSpec ------------------------------
(* The small helpers of util/encode.go, util.CheckGzipType and fast.StringToSlice (C32). State:
   the files of a directory and their contents (named by their size), "link" leads to "f0".
   A 64-bit number is its four 16-bit limbs; texts to match are sequences of letters.       *)
EXTENDS Common
CONSTANTS Files, Sizes, Words, Dates, Texts, Small

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[f \in Files |-> "none"]}
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Join(Tail(q))
RECURSIVE Less(_, _)
Less(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b))))
Nums(q) == [i \in 1..Len(q) |-> Num(q[i])]
\* the file a name leads to; "" when there cannot be one
File(f) == IF f = "link" THEN "f0" ELSE IF f \in Files THEN f ELSE ""
\* dates of the Gregorian calendar, in a zone eight hours ahead of UTC
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 365 * (y - 1970) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400) ELSE Before(y, m - 1) + Days(y, m - 1)
Valid(d) == d[2] \in 1..12 /\ d[3] \in 1..Days(d[1], d[2]) /\ d[4] \in 0..23 /\ d[5] \in 0..59 /\ d[6] \in 0..59
\* day and second of the day, UTC
At(d) == LET s == 3600 * d[4] + 60 * d[5] + d[6] - 28800
             n == Before(d[1], d[2]) + d[3] - 1
         IN IF s < 0 THEN <<n - 1, s + 86400>> ELSE <<n, s>>
\* matching: p anywhere (its dots standing for themselves, or for anything in the line), p alone, repetitions of p alone
Split(a) == LET i == CHOOSE j \in 1..Len(a) : a[j] = "/" IN <<SubSeq(a, 1, i - 1), SubSeq(a, i + 1, Len(a))>>
Contains(p, t) == \E i \in 0..(Len(t) - Len(p)) : SubSeq(t, i + 1, i + Len(p)) = p
Wild(p, t) == \E i \in 0..(Len(t) - Len(p)) : \A j \in 1..Len(p) : IF p[j] = "." THEN t[i + j] # "\n" ELSE t[i + j] = p[j]
RECURSIVE Repeats(_, _)
Repeats(p, t) == t = <<>> \/ (p # <<>> /\ Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p /\ Repeats(p, SubSeq(t, Len(p) + 1, Len(t))))

Ops == {<<"concat">>} \cup {<<"concat", a>> : a \in Words} \cup {<<"concat", a, b, c>> : a, b, c \in Words} \cup {<<"slice", a>> : a \in Words}
       \cup {<<a, n>> : a \in {"spread", "rand"}, n \in Small} \cup {<<"uuid64", "50">>, <<"hash64", "20">>, <<"base58", "20">>, <<"digests", "10">>}
       \cup {<<"time">> \o d : d \in Dates} \cup {<<"timebad", x>> : x \in {"", "2020-01-01", "2020-01-01T00:00:00", "20-01-01 00:00:00", "now", "2020-01-01 00:00:00 ", "2020/01/01 00:00:00",
             "2020-1-01 00:00:00", "2020-01-1 00:00:00", "2020-1-1 00:00:00", "2020-01-01 00:0:00", "2020-01-01 00:00:0", "02020-01-01 00:00:00", "2020-01-01 00:00:00Z", " 2020-01-01 00:00:00", "2020-01-01 00:00:00 +0800", "2020-01-01 00:00", "2020-01-01 00:00:00 AM", "2020-Jan-01 00:00:00", "2020-01-01 00:00:00x", "2020-01-01 00-00-00"}}
       \cup {<<"put", f, n>> : f \in Files, n \in Sizes} \cup {<<"rm", f>> : f \in Files} \cup {<<a, f>> : a \in {"exist", "read"}, f \in Files \cup {"link", "nowhere/x", "f0/x", ""}} \cup {<<"exist", "dir">>}
       \cup {<<"match", k>> \o p \o <<"/">> \o t : k \in {"lit", "any", "full", "star", "bad"}, p, t \in Texts}
       \cup {<<"recover", k>> : k \in {"none", "boom", "nilptr", "again", "kept"}} \cup {<<"gz", k>> : k \in {"gzip", "short", "junk", "empty", "zlib"}}
Do(s, o) ==
  CASE o[1] = "concat" -> {Res(s, <<Join(Tail(o))>>)}
    [] o[1] = "slice" -> {Res(s, <<o[2]>>)}
    [] o[1] = "rand" -> IF Len(o) = 2 THEN {Res(s, <<ToString(k)>>) : k \in 0..(Num(o[2]) - 1)}
                        ELSE IF Num(o[3]) < Num(o[2]) THEN {Res(s, <<o[3]>>)} ELSE {}
       \* limbs of the bound, then of what was returned (rand too tells it in a recorded run)
    [] o[1] = "randbig" -> IF Len(o) = 9 /\ Less(Nums(SubSeq(o, 6, 9)), Nums(SubSeq(o, 2, 5))) THEN {Res(s, <<"ok">> \o SubSeq(o, 6, 9))} ELSE {}
    [] o[1] = "spread" -> {Res(s, <<"all">>)}
    [] o[1] = "uuid64" -> {Res(s, <<"distinct">>)}
    [] o[1] = "hash64" -> {Res(s, <<"by content">>)}
    [] o[1] = "base58" -> {Res(s, <<"same number">>)}
    [] o[1] = "digests" -> {Res(s, <<"the same">>)}
    [] o[1] = "time" -> LET d == Nums(Tail(o)) IN IF Valid(d) THEN LET a == At(d) IN {Res(s, <<ToString(a[1]), ToString(a[2])>>)} ELSE {Res(s, <<"err">>)}
    [] o[1] = "timebad" -> {Res(s, <<"err">>)}
    [] o[1] = "put" -> {Res([s EXCEPT ![o[2]] = o[3]], <<"ok">>)}
    [] o[1] = "rm" -> {Res([s EXCEPT ![o[2]] = "none"], <<"ok">>)}
    [] o[1] = "exist" -> {Res(s, <<B(o[2] = "dir" \/ (File(o[2]) # "" /\ s[File(o[2])] # "none"))>>)}
    [] o[1] = "read" -> IF File(o[2]) # "" /\ s[File(o[2])] # "none" THEN {Res(s, <<"ok", s[File(o[2])]>>)} ELSE {Res(s, <<"err">>)}
    [] o[1] = "match" -> LET x == Split(SubSeq(o, 3, Len(o))) IN
                         {Res(s, <<B(CASE o[2] = "lit" -> Contains(x[1], x[2]) [] o[2] = "any" -> Wild(x[1], x[2]) [] o[2] = "full" -> x[1] = x[2] [] o[2] = "star" -> Repeats(x[1], x[2]) [] OTHER -> FALSE)>>)}
       \* a panic becomes an error that tells its value, one that was not asked for vanishes
    [] o[1] = "recover" -> {Res(s, <<CASE o[2] = "none" -> "no error" [] o[2] = "nilptr" -> "survived" [] o[2] = "again" -> "second" [] o[2] = "kept" -> "first" [] OTHER -> o[2]>>)}
    [] o[1] = "gz" -> {Res(s, <<B(o[2] = "gzip")>>)}
    [] OTHER -> {}
Inv(s) == \A f \in Files : s[f] = "none" \/ Num(s[f]) >= 0
StepOK(s, o, r, t) == /\ o[1] \notin {"put", "rm"} => t = s
                      /\ o[1] = "read" => (r[1] = "ok") = (Do(s, <<"exist", o[2]>>) = {Res(s, <<"t">>)})
                      /\ o[1] = "match" /\ o[2] = "full" /\ r = <<"t">> => Do(s, <<"match", "lit">> \o SubSeq(o, 3, Len(o))) = {Res(s, <<"t">>)}
ASSUME At(<<2000, 3, 1, 8, 0, 0>>) = <<11017, 0>> /\ At(<<1970, 1, 1, 8, 0, 1>>) = <<0, 1>> /\ At(<<2100, 3, 1, 0, 0, 0>>) = <<47540, 57600>>
=============================================================================
