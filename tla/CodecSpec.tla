----------------------------- MODULE CodecSpec -----------------------------
(* The compressors of compress and util (C26), the ciphers of keystore (C25) and the value
   encodings of util and thrift (C31). State: the slots q of the driver, and the contents it knows. A slot holds encoded
   data: what made it (codec, key), its content (a name), what happened to it since (st), the
   class of its length (cls: "16" a positive multiple of 16, "odd", "zero") and the content it
   last was decoded to (out). The driver names every content that was encoded; anything else
   that comes out of a decoder is "other", nothing at all is "e".                          *)
EXTENDS Common
CONSTANTS Codecs, Keys, Contents, SlotNames

Fam(c) == CASE c \in {"zlib", "zliblevel", "uzlib"} -> "zlib" [] c \in {"gzip", "ugzip"} -> "gzip" [] c \in {"snappy", "usnappy"} -> "snappy"
            [] c \in {"zstd", "zstdlevel"} -> "zstd" [] c \in {"aes", "aesf"} -> "aes" [] OTHER -> c
Checked == {"zlib", "gzip", "zstd"}
\* a key of aes is named by its two strings (AesEncrypter takes one for both); the key file holds the key p1
Key(c, k) == CASE c = "rsa" /\ k = "file" -> "p1" [] Fam(c) \in Checked \cup {"snappy"} -> "any" [] OTHER -> k
BadKeys == {"junk", "empty", "nil", "ec", "damaged", "nofile", "dir", "crossed"}
\* the longest message a key of RSA can carry
MaxMsg(k) == IF k = "def" THEN 117 ELSE 245
\* zlib has the levels -2 to 9
BadLevel(c, k) == c = "zliblevel" /\ k \notin {ToString(i) : i \in 0..9} \cup {"-1", "-2"}

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[q |-> <<>>, known |-> {}]}
Ops == {<<"enc", i, c, k>> \o d : i \in SlotNames, c \in Codecs, k \in Keys, d \in Contents} \cup {<<"dec", i, c, k>> : i \in SlotNames, c \in Codecs, k \in Keys}
       \cup {<<a, i, "1">> : a \in {"cut", "grow"}, i \in SlotNames} \cup {<<"flip", i, "900", "3">> : i \in SlotNames}
       \cup {<<a, i>> : a \in {"look", "junk"}, i \in SlotNames} \cup {<<"same", i, j>> : i \in SlotNames, j \in SlotNames} \cup {<<"burst", "2", "3", c, k>> : c \in Codecs, k \in Keys}
Classes == {"16", "odd", "zero"}
Slot(c, k, d, st, cls) == [c |-> c, k |-> k, d |-> d, st |-> st, cls |-> cls, out |-> "none"]
Has(s, i) == HasK(s.q, i)
At(s, i) == ValOf(s.q, i)
Put(s, i, v) == [q |-> IF Has(s, i) THEN SetV(s.q, i, v) ELSE Append(s.q, <<i, v>>), known |-> s.known \cup {v.d}]
Out(s, i, d) == [s EXCEPT !.q = SetV(@, i, [ValOf(@, i) EXCEPT !.out = d])]
Known(s) == s.known
\* what decoding may give when the outcome is not determined: never a silent nothing for ciphers
Anything(s, i, c) == {<<"err">>, <<"ok", "other">>} \cup {<<"ok", d>> : d \in Known(s)} \cup (IF Fam(c) \in {"aes", "rsa"} THEN {} ELSE {<<"ok", "e">>})
Decoded(s, i, c, k) ==
  LET v == At(s, i)
      own == {<<"ok", v.d>>} IN
  IF BadLevel(v.c, v.k) THEN {}
  ELSE IF c = "rsa" /\ k \in BadKeys THEN {<<"err">>}
  ELSE IF Fam(c) = "aes" /\ v.cls # "16" THEN {<<"err">>}
  ELSE IF v.st = "whole" /\ Fam(c) = Fam(v.c) /\ Key(c, k) = Key(v.c, v.k) THEN own
  ELSE IF v.st \in {"cut", "flip", "grown"} /\ Fam(c) = Fam(v.c) /\ Fam(c) \in Checked THEN {<<"err">>} \cup own
       \* another key does not open it
  ELSE IF v.st = "whole" /\ Fam(c) = Fam(v.c) /\ Fam(c) \in {"aes", "rsa"} THEN Anything(s, i, c) \ own
  ELSE Anything(s, i, c)
Do(s, o) ==
  CASE o[1] = "enc" ->
         LET ok == {Res(Put(s, o[2], Slot(o[3], o[4], o[5], "whole", cls)), <<"ok", "same", cls>>) : cls \in Classes \ (IF Fam(o[3]) = "aes" THEN {"zero", "odd"} ELSE IF o[3] = "rsa" THEN {"zero"} ELSE {})} IN
         IF o[3] = "rsa" /\ (o[4] \in BadKeys \/ Num(o[6]) > MaxMsg(Key(o[3], o[4]))) THEN {Res(s, <<"err">>)}
         ELSE IF BadLevel(o[3], o[4]) THEN {Res(s, <<"err">>)}
         ELSE ok
    [] o[1] = "burst" -> IF o[5] \in BadKeys \cup {"-3", "10"} THEN {} ELSE {Res(s, <<"0">>)}
    [] o[1] = "same" /\ (~Has(s, o[2]) \/ ~Has(s, o[3])) -> {Res(s, <<"none">>)}
       \* distinct contents have distinct encodings
    [] o[1] = "same" -> LET u == At(s, o[2]) v == At(s, o[3]) IN
         {Res(s, <<"f">>)} \cup (IF u.st = "whole" /\ v.st = "whole" /\ u.d # v.d /\ Fam(u.c) = Fam(v.c) /\ Key(u.c, u.k) = Key(v.c, v.k) THEN {} ELSE {Res(s, <<"t">>)})
    [] o[1] = "junk" -> {Res(Put(s, o[2], Slot("junk", "0", "junk", "junk", cls)), <<cls>>) : cls \in Classes}
    [] ~Has(s, o[2]) -> {Res(s, <<"none">>)}
    [] o[1] = "dec" -> {Res(Out(s, o[2], IF r[1] = "ok" THEN r[2] ELSE "none"), r) : r \in Decoded(s, o[2], o[3], o[4])}
       \* the driver leaves at least one byte; "no" when there was nothing to do it to
    [] o[1] \in {"cut", "flip", "grow"} -> {Res(s, <<"no">>)} \cup {Res(Put(s, o[2], [At(s, o[2]) EXCEPT !.st = CASE o[1] = "cut" -> "cut" [] o[1] = "flip" -> "flip" [] OTHER -> "grown", !.cls = cls]), <<cls>>) : cls \in {"16", "odd"}}
       \* what was decoded stays what it was
    [] o[1] = "look" -> {Res(s, <<At(s, o[2]).out>>)}
    [] OTHER -> {}
Inv(s) == \A i, j \in 1..Len(s.q) : i # j => s.q[i][1] # s.q[j][1]
StepOK(s, o, r, t) ==
  /\ o[1] = "dec" /\ Has(s, o[2]) => LET v == At(s, o[2]) IN
       /\ v.st = "whole" /\ v.c = o[3] /\ v.k = o[4] => r = <<"ok", v.d>>
       /\ Fam(o[3]) = Fam(v.c) /\ Fam(o[3]) \in Checked => r \in {<<"err">>, <<"ok", v.d>>}
       /\ Fam(o[3]) \in {"aes", "rsa"} => Len(r) > 1 \/ r = <<"err">>
  /\ o[1] \in {"cut", "flip", "grow", "dec", "look", "same"} => KeysOf(t.q) = KeysOf(s.q) /\ \A i \in KeysOf(s.q) : At(t, i).d = At(s, i).d
=============================================================================
