------------------------------ MODULE UuidSpec ------------------------------
(* uuid.UUID (C27). A UUID is written as the sequence of its 36 characters. State: the UUIDs
   made so far (seen), and the list of UUIDs the driver keeps (from NewUUID and Parse).
   The operation new carries what the code made: the specification says whether it may. *)
EXTENDS Common
CONSTANTS Made, Given, MaxKeep

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Lows == Range(Digits)
Hexes == Lows \cup Range(Upper)
\* the value of a hexadecimal digit
HexVal(c) == IF c \in Lows THEN (CHOOSE i \in 1..16 : Digits[i] = c) - 1 ELSE (CHOOSE i \in 1..16 : Upper[i] = c) - 1
Lower(c) == IF c \in Hexes THEN Digits[HexVal(c) + 1] ELSE c
LowerAll(q) == [i \in 1..Len(q) |-> Lower(q[i])]
Dashes == {9, 14, 19, 24}
Form(q) == Len(q) = 36 /\ \A i \in 1..36 : IF i \in Dashes THEN q[i] = "-" ELSE q[i] \in Hexes
Canonical(q) == Form(q) /\ LowerAll(q) = q
\* the 32 digits, the 16 bytes, the version and the variant
Nibbles(q) == SubSeq(q, 1, 8) \o SubSeq(q, 10, 13) \o SubSeq(q, 15, 18) \o SubSeq(q, 20, 23) \o SubSeq(q, 25, 36)
Bytes(q) == LET n == Nibbles(q) IN [i \in 1..16 |-> ToString(16 * HexVal(n[2 * i - 1]) + HexVal(n[2 * i]))]
\* base58 of the number of the first eight bytes: long division of the 16 digits
Alphabet == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
              "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
RECURSIVE Div58(_, _, _)
Div58(l, q, rem) == IF l = <<>> THEN <<q, rem>> ELSE LET x == rem * 16 + l[1] IN Div58(Tail(l), Append(q, x \div 58), x % 58)
RECURSIVE Enc58(_, _)
Enc58(l, out) == IF \A i \in 1..Len(l) : l[i] = 0 THEN out ELSE LET d == Div58(l, <<>>, 0) IN Enc58(d[1], <<Alphabet[d[2] + 1]>> \o out)
First8(q) == SubSeq(Nibbles(q), 1, 16)
Base58(q) == LET n == First8(q) IN Enc58([i \in 1..16 |-> HexVal(n[i])], <<>>)
Version(q) == ToString(HexVal(q[15]))
Variant(q) == LET v == HexVal(q[20]) IN IF v >= 8 /\ v < 12 THEN "1" ELSE IF v >= 12 /\ v < 14 THEN "2" ELSE "0"

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[seen |-> {}, ids |-> {}, keep |-> <<>>]}
Ops == {<<"new">> \o m : m \in Made} \cup {<<"parse">> \o g : g \in Made \cup Given} \cup {<<a, ToString(i)>> : a \in {"string", "bytes", "ver", "round", "int", "b58", "i32"}, i \in 1..MaxKeep}
       \cup {<<"near", ToString(i), n>> : i \in 1..MaxKeep, n \in {"1", "77", "128"}}
       \cup {<<"eq", ToString(i), ToString(j)>> : i, j \in 1..MaxKeep} \cup {<<"id", "1">>, <<"id", "2">>, <<"burst", "3", "4">>}
Kept(s, i) == Num(i) \in 1..Len(s.keep)
Do(s, o) ==
  CASE o[1] = "new" -> LET q == Tail(o) IN
         IF Canonical(q) /\ Version(q) = "4" /\ Variant(q) = "1" /\ q \notin s.seen
         THEN {Res([s EXCEPT !.seen = @ \cup {q}, !.keep = IF Len(s.keep) < MaxKeep THEN Append(s.keep, q) ELSE s.keep], q)} ELSE {}
    [] o[1] = "parse" -> LET q == Tail(o) IN
         IF Form(q) THEN {Res([s EXCEPT !.keep = IF Len(@) < MaxKeep THEN Append(@, LowerAll(q)) ELSE @], <<"ok">> \o Bytes(LowerAll(q)))} ELSE {Res(s, <<"err">>)}
    [] o[1] \in {"string", "bytes", "ver", "round", "int", "b58", "i32", "near"} /\ ~Kept(s, o[2]) -> {Res(s, <<"none">>)}
    [] o[1] = "string" -> {Res(s, s.keep[Num(o[2])])}
    [] o[1] = "bytes" -> {Res(s, Bytes(s.keep[Num(o[2])]))}
    [] o[1] = "ver" -> {Res(s, <<Version(s.keep[Num(o[2])]), Variant(s.keep[Num(o[2])])>>)}
       \* Parse of its String gives an equal one; nothing equals nil
    [] o[1] = "round" -> {Res(s, <<"t", "t", "f">>)}
       \* the number of the first eight bytes, and its base58 form
    [] o[1] = "int" -> {Res(s, SubSeq(Bytes(s.keep[Num(o[2])]), 1, 8))}
    [] o[1] = "b58" -> {Res(s, Base58(s.keep[Num(o[2])]))}
       \* Int32 of the UUID and of a copy are the same
    [] o[1] = "i32" -> {Res(s, <<"t">>)}
       \* a copy with one bit changed is not equal, either way
    [] o[1] = "near" -> {Res(s, <<"f", "f">>)}
    [] o[1] = "eq" -> IF Kept(s, o[2]) /\ Kept(s, o[3]) THEN {Res(s, <<B(s.keep[Num(o[2])] = s.keep[Num(o[3])])>>)} ELSE {Res(s, <<"none">>)}
       \* NewUUIDs by several goroutines: numbered by the driver, in a well formed way or not
    [] o[1] = "id" -> IF o[2] \notin s.ids THEN {Res([s EXCEPT !.ids = @ \cup {o[2]}], <<o[2], "well formed">>)} ELSE {}
    [] o[1] = "burst" -> {Res(s, <<ToString(Num(o[2]) * Num(o[3])), "0">>)}
    [] OTHER -> {}
Inv(s) == \A i \in 1..Len(s.keep) : Canonical(s.keep[i])
StepOK(s, o, r, t) ==
  /\ o[1] = "new" => r \notin s.seen /\ Version(r) = "4" /\ Variant(r) = "1"
  /\ o[1] = "parse" => (r[1] = "ok") = Form(Tail(o))
  /\ o[1] = "id" => o[2] \notin s.ids
=============================================================================
