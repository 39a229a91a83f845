------------------------------ MODULE HashSpec ------------------------------
(* The checksums and digests of util/encode.go (C32), from their definitions: CRC-8 (polynomial
   7), CRC-32 (IEEE) and CRC-64 (ECMA) bit by bit, FNV-1a, MD5 (RFC 1321), SHA-1 (RFC 3174)
   and BLAKE2b-256 (RFC 7693). A word is the sequence of its 16-bit limbs, most significant
   first; a byte in an operation is its decimal value; digests are results in lower-case hex. *)
EXTENDS Common, Bitwise, SequencesExt
CONSTANTS Msgs

N16 == 65536
Pow2 == [i \in 0..16 |-> 2^i]
WXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
WAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
WNot(a) == [i \in 1..Len(a) |-> N16 - 1 - a[i]]
\* sums and multiples modulo the size of the word
Carry(v) == LET f(acc, x) == LET y == x + acc[2] IN <<<<y % N16>> \o acc[1], y \div N16>> IN FoldLeft(f, <<<<>>, 0>>, Rev(v))[1]
Add(a, b) == Carry([i \in 1..Len(a) |-> a[i] + b[i]])
Sum(ws) == LET f(a, b) == Add(a, b) IN FoldLeft(f, ws[1], Tail(ws))
Times(a, k) == Carry([i \in 1..Len(a) |-> a[i] * k])
RotR(w, n) == LET L == Len(w)
                  q == n \div 16
                  r == n % 16
                  v == [i \in 1..L |-> w[((i - 1 - q) % L) + 1]]
              IN IF r = 0 THEN v ELSE [i \in 1..L |-> (v[i] \div Pow2[r]) + ((v[((i - 2) % L) + 1] * Pow2[16 - r]) % N16)]
RotL(w, n) == RotR(w, 16 * Len(w) - n)
\* shifted by whole limbs / right by one bit
ShlLimbs(w, k) == [i \in 1..Len(w) |-> IF i + k <= Len(w) THEN w[i + k] ELSE 0]
Shr1(w) == [i \in 1..Len(w) |-> (w[i] \div 2) + IF i > 1 THEN (w[i - 1] % 2) * 32768 ELSE 0]
Low(w, b) == [w EXCEPT ![Len(w)] = @ ^^ b]
BE(b) == [i \in 1..(Len(b) \div 2) |-> 256 * b[2 * i - 1] + b[2 * i]]
LE(b) == BE(Rev(b))
OutBE(w) == [i \in 1..(2 * Len(w)) |-> IF i % 2 = 1 THEN w[(i + 1) \div 2] \div 256 ELSE w[i \div 2] % 256]
OutLE(w) == Rev(OutBE(w))
Cat(ss) == LET f(a, b) == a \o b IN FoldLeft(f, <<>>, ss)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(b) == LET f(a, x) == a \o Digits[(x \div 16) + 1] \o Digits[(x % 16) + 1] IN FoldLeft(f, "", b)

Crc8(b) == LET bit(x, i) == IF x >= 128 THEN ((2 * x) % 256) ^^ 7 ELSE 2 * x
               f(x, c) == FoldLeft(bit, x ^^ c, <<1, 2, 3, 4, 5, 6, 7, 8>>)
           IN <<FoldLeft(f, 0, b)>>
Crc(b, ones, poly) == LET bit(w, i) == IF w[Len(w)] % 2 = 1 THEN WXor(Shr1(w), poly) ELSE Shr1(w)
                          f(w, c) == FoldLeft(bit, Low(w, c), <<1, 2, 3, 4, 5, 6, 7, 8>>)
                      IN OutBE(WNot(FoldLeft(f, ones, b)))
Crc32(b) == Crc(b, <<65535, 65535>>, <<60856, 33568>>)
Crc64(b) == Crc(b, <<65535, 65535, 65535, 65535>>, <<51564, 22421, 55175, 3906>>)
\* the primes are 2^24 + 403 and 2^40 + 435
Fnv32(b) == LET f(w, c) == LET x == Low(w, c) IN Add(Times(x, 403), Times(ShlLimbs(x, 1), 256)) IN OutBE(FoldLeft(f, <<33052, 40389>>, b))
Fnv64(b) == LET f(w, c) == LET x == Low(w, c) IN Add(Times(x, 435), Times(ShlLimbs(x, 2), 256)) IN OutBE(FoldLeft(f, <<52210, 40164, 33826, 8997>>, b))

Zeros(n) == [i \in 1..n |-> 0]
Blocks(b, n) == [k \in 1..(Len(b) \div n) |-> SubSeq(b, n * (k - 1) + 1, n * k)]
Words(b, n) == Blocks(b, n)
\* a 1 bit, zeros, and the length in bits (here below 2^24) to a multiple of 64 bytes
Size(b) == LET n == 8 * Len(b) IN <<n % 256, (n \div 256) % 256, n \div 65536>>
Padded(b, len8) == b \o <<128>> \o Zeros((119 - (Len(b) % 64)) % 64) \o len8

KS == <<<<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
Shifts == <<7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21>>
H0 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
From0 == [i \in 1..64 |-> i - 1]
Md5(b) ==
  LET round(m, st, i) ==
        LET B1 == st[2]
            C == st[3]
            D == st[4]
            g == CASE i < 16 -> i [] i < 32 -> (5 * i + 1) % 16 [] i < 48 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
            F == CASE i < 16 -> WXor(D, WAnd(B1, WXor(C, D)))
                   [] i < 32 -> WXor(C, WAnd(D, WXor(B1, C)))
                   [] i < 48 -> WXor(WXor(B1, C), D)
                   [] OTHER -> WXor(C, [j \in 1..2 |-> B1[j] | WNot(D)[j]])
            s == Shifts[4 * (i \div 16) + (i % 4) + 1]
        IN <<D, Add(B1, RotL(Sum(<<st[1], F, KS[i + 1], m[g + 1]>>), s)), B1, C>>
      block(st, bl) == LET ws == Words(bl, 4)
                           m == [j \in 1..16 |-> LE(ws[j])]
                           f(x, i) == round(m, x, i)
                           y == FoldLeft(f, st, From0)
                       IN [j \in 1..4 |-> Add(st[j], y[j])]
      r == FoldLeft(block, SubSeq(H0, 1, 4), Blocks(Padded(b, Size(b) \o Zeros(5)), 64))
  IN Cat([j \in 1..4 |-> OutLE(r[j])])
Sha1(b) ==
  LET sched(ws, i) == Append(ws, RotL(WXor(WXor(ws[i - 3], ws[i - 8]), WXor(ws[i - 14], ws[i - 16])), 1))
      round(ws, st, i) ==
        LET F == CASE i < 20 -> WXor(st[4], WAnd(st[2], WXor(st[3], st[4])))
                   [] i >= 40 /\ i < 60 -> [j \in 1..2 |-> (st[2][j] & st[3][j]) | (st[4][j] & (st[2][j] | st[3][j]))]
                   [] OTHER -> WXor(WXor(st[2], st[3]), st[4])
            k == <<<<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>[(i \div 20) + 1]
        IN <<Sum(<<RotL(st[1], 5), F, st[5], k, ws[i + 1]>>), st[1], RotL(st[2], 30), st[3], st[4]>>
      block(st, bl) == LET w0 == Words(bl, 4)
                           ws == FoldLeft(sched, [j \in 1..16 |-> BE(w0[j])], [i \in 1..64 |-> i + 16])
                           f(x, i) == round(ws, x, i)
                           y == FoldLeft(f, st, [i \in 1..80 |-> i - 1])
                       IN [j \in 1..5 |-> Add(st[j], y[j])]
      r == FoldLeft(block, H0, Blocks(Padded(b, Zeros(5) \o Rev(Size(b))), 64))
  IN Cat([j \in 1..5 |-> OutBE(r[j])])
IV == <<<<27145, 58983, 62396, 51464>>, <<47975, 44677, 33994, 42811>>, <<15470, 62322, 65172, 63531>>, <<42319, 62778, 24349, 14065>>, <<20750, 21119, 44518, 33489>>, <<39685, 26764, 11070, 27679>>, <<8067, 55723, 64321, 48491>>, <<23520, 52505, 4990, 8569>>>>
Sigma == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>, <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>, <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>, <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>, <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>, <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>, <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>, <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>, <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>, <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>>>>
Mix == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>, <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
W64(n) == <<0, 0, n \div N16, n % N16>>
Blake2b(b) ==
  LET half(v, q, x, r1, r2) == LET a == Sum(<<v[q[1]], v[q[2]], x>>)
                                   d == RotR(WXor(v[q[4]], a), r1)
                                   c == Add(v[q[3]], d)
                               IN [v EXCEPT ![q[1]] = a, ![q[4]] = d, ![q[3]] = c, ![q[2]] = RotR(WXor(v[q[2]], c), r2)]
      \* n: bytes up to and with this block
      block(h, bl, n, last) ==
        LET ws == Words(bl, 8)
            m == [j \in 1..16 |-> LE(ws[j])]
            v0 == h \o [j \in 1..8 |-> CASE j = 5 -> WXor(IV[5], W64(n)) [] j = 7 /\ last -> WNot(IV[7]) [] OTHER -> IV[j]]
            g(v, i) == LET s == Sigma[((i \div 8) % 10) + 1]
                           k == i % 8
                       IN half(half(v, Mix[k + 1], m[s[2 * k + 1] + 1], 32, 24), Mix[k + 1], m[s[2 * k + 2] + 1], 16, 63)
            v == FoldLeft(g, v0, [i \in 1..96 |-> i - 1])
        IN [j \in 1..8 |-> WXor(h[j], WXor(v[j], v[j + 8]))]
      n == IF b = <<>> THEN 1 ELSE (Len(b) + 127) \div 128
      all == Blocks(b \o Zeros(128 * n - Len(b)), 128)
      f(h, k) == block(h, all[k], IF k = n THEN Len(b) ELSE 128 * k, k = n)
      r == FoldLeft(f, [IV EXCEPT ![1] = WXor(@, <<0, 0, 257, 32>>)], [k \in 1..n |-> k])
  IN Cat([j \in 1..4 |-> OutLE(r[j])])

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {<<>>}
Kinds == {"crc8", "crc32", "crc64", "fnv32", "fnv64", "md5", "sha1", "blake"}
Ops == {<<k>> \o [i \in 1..Len(m) |-> ToString(m[i])] : k \in Kinds, m \in Msgs}
Do(s, o) ==
  LET a == Tail(o)
      b == [i \in 1..Len(a) |-> Num(a[i])] IN
  CASE o[1] = "crc8" -> {Res(s, <<Hex(Crc8(b))>>)}
    [] o[1] = "crc32" -> {Res(s, <<Hex(Crc32(b))>>)}
    [] o[1] = "crc64" -> {Res(s, <<Hex(Crc64(b))>>)}
    [] o[1] = "fnv32" -> {Res(s, <<Hex(Fnv32(b))>>)}
    [] o[1] = "fnv64" -> {Res(s, <<Hex(Fnv64(b))>>)}
    [] o[1] = "md5" -> {Res(s, <<Hex(Md5(b))>>)}
    [] o[1] = "sha1" -> {Res(s, <<Hex(Sha1(b))>>)}
    [] o[1] = "blake" -> {Res(s, <<Hex(Blake2b(b))>>)}
    [] OTHER -> {}
Inv(s) == TRUE
StepOK(s, o, r, t) == TRUE
\* the published check values of "123456789" and of "abc"
Nine == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
Abc == <<97, 98, 99>>
ASSUME Hex(Crc8(Nine)) = "f4" /\ Hex(Crc32(Nine)) = "cbf43926" /\ Hex(Crc64(Nine)) = "995dc9bbdf1939fa"
ASSUME Hex(Fnv32(Abc)) = "1a47e90b" /\ Hex(Fnv64(Abc)) = "e71fa2190541574b"
ASSUME Hex(Md5(Abc)) = "900150983cd24fb0d6963f7d28e17f72"
ASSUME Hex(Sha1(Abc)) = "a9993e364706816aba3e25717850c26c9cd0d89d"
ASSUME Hex(Blake2b(Abc)) = "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319"
=============================================================================
