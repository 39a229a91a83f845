------------------------------ MODULE NumSpec ------------------------------
(* Integer encodings of util/num.go and base58 (C31): pure functions. A 64-bit number is written
   as its four 16-bit limbs, the most significant first (a negative one in two's complement),
   a byte as its decimal value. There is no state; every operation is total.               *)
EXTENDS Common
CONSTANTS Limbs, Bytes, Texts

N16 == 65536
ToBytes(l) == [i \in 1..(2 * Len(l)) |-> IF i % 2 = 1 THEN l[(i + 1) \div 2] \div 256 ELSE l[i \div 2] % 256]
Nums(q) == [i \in 1..Len(q) |-> Num(q[i])]
Strs(q) == [i \in 1..Len(q) |-> ToString(q[i])]
\* b read as an n byte number: shorter ones are padded on the left, of longer ones the front counts
Fit(b, n) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE [i \in 1..(n - Len(b)) |-> 0] \o b
ToLimbs(b) == [i \in 1..(Len(b) \div 2) |-> 256 * b[2 * i - 1] + b[2 * i]]

Alphabet == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
              "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Letters == Range(Alphabet)
Digit(c) == (CHOOSE i \in 1..58 : Alphabet[i] = c) - 1
\* long division of limbs by 58: quotient and remainder
RECURSIVE Div(_, _, _)
Div(l, q, rem) == IF l = <<>> THEN <<q, rem>> ELSE LET x == rem * N16 + l[1] IN Div(Tail(l), Append(q, x \div 58), x % 58)
RECURSIVE Enc58(_, _)
Enc58(l, out) == IF \A i \in 1..4 : l[i] = 0 THEN out ELSE LET d == Div(l, <<>>, 0) IN Enc58(d[1], <<Alphabet[d[2] + 1]>> \o out)
\* limbs * 58 + c, and whether it still fits
RECURSIVE Mul(_, _, _)
Mul(l, i, carry) == IF i = 0 THEN <<l, carry>> ELSE LET x == l[i] * 58 + carry IN Mul([l EXCEPT ![i] = x % N16], i - 1, x \div N16)
RECURSIVE Dec58(_, _, _)
Dec58(t, l, over) == IF t = <<>> THEN <<l, over>> ELSE LET m == Mul(l, 4, Digit(t[1])) IN Dec58(Tail(t), m[1], over \/ m[2] > 0)

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {<<>>}
Four == {<<ToString(a), ToString(b), ToString(c), ToString(d)>> : a, b, c, d \in Limbs}
Ops == {<<a>> \o l : a \in {"i64", "b58", "round58"}, l \in Four} \cup {<<"i32", ToString(a), ToString(b)>> : a, b \in Limbs} \cup {<<"i16", ToString(a)>> : a \in Limbs}
       \cup {<<a>> \o Strs(b) : a \in {"to64", "to32", "to16", "toarr"}, b \in Bytes} \cup {<<"un58">> \o t : t \in Texts} \cup {<<"arr">>, <<"arr", "65535", "65535", "65535", "65534", "0", "0", "1", "0">>}
Do(s, o) ==
  LET a == Tail(o) IN
  CASE o[1] \in {"i64", "i32", "i16", "arr"} -> {Res(s, Strs(ToBytes(Nums(a))))}
    [] o[1] = "to64" -> {Res(s, Strs(ToLimbs(Fit(Nums(a), 8))))}
    [] o[1] = "to32" -> {Res(s, Strs(ToLimbs(Fit(Nums(a), 4))))}
    [] o[1] = "to16" -> {Res(s, Strs(ToLimbs(Fit(Nums(a), 2))))}
       \* as many whole numbers as there are
    [] o[1] = "toarr" -> {Res(s, Strs(ToLimbs(SubSeq(Nums(a), 1, 8 * (Len(a) \div 8)))))}
    [] o[1] = "b58" -> {Res(s, Enc58(Nums(a), <<>>))}
    [] o[1] = "round58" -> {Res(s, <<"ok">> \o a)}
       \* numbers that do not fit are not asked about
    [] o[1] = "un58" -> IF ~(Range(a) \subseteq Letters) THEN {Res(s, <<"no">>)}
                        ELSE LET d == Dec58(a, <<0, 0, 0, 0>>, FALSE) IN IF d[2] THEN {} ELSE {Res(s, <<"ok">> \o Strs(d[1]))}
    [] OTHER -> {}
Inv(s) == TRUE
StepOK(s, o, r, t) ==
  LET a == Tail(o) IN
     \* decoding gives back what was encoded
  /\ o[1] \in {"i64", "i32", "i16"} => Strs(ToLimbs(Nums(r))) = a
  /\ o[1] \in {"to64", "to32", "to16"} => ToBytes(Nums(r)) = Fit(Nums(a), 2 * Len(r))
  /\ o[1] = "b58" => LET d == Dec58(r, <<0, 0, 0, 0>>, FALSE) IN ~d[2] /\ Strs(d[1]) = a
  /\ o[1] = "un58" /\ r # <<"no">> => \E k \in 0..Len(a) : Enc58(Nums(Tail(r)), <<>>) = SubSeq(a, k + 1, Len(a)) /\ \A i \in 1..k : a[i] = "1"
=============================================================================
