----------------------------- MODULE BufferSpec -----------------------------
(* buffer.Buffer (C21). State: whether the Buffer is nil, and the runs of bytes not read yet. *)
EXTENDS Common, ByteRuns
CONSTANTS Toks, Sizes, MaxLen

SeqCfgs == {[nil |-> a, init |-> b] : a \in {"t", "f"}, b \in {"0", "3"}}
InitStates(c) == {[nil |-> c.nil = "t", q |-> IF c.nil = "t" \/ c.init = "0" THEN <<>> ELSE << <<"9", Num(c.init)>> >>]}
Ops == {<<a, t, n>> : a \in {"w", "ws"}, t \in Toks, n \in Sizes}
       \cup {<<"w", t, "1", u, "2", t, "1">> : t \in Toks, u \in Toks}
       \cup {<<"wb", t>> : t \in Toks} \cup {<<"wi", top, "0", "513">> : top \in {"0", "7"}} \cup {<<"wi", "-1", "65535", "65534">>}
       \cup {<<"read", n>> : n \in Sizes} \cup {<<"bytes">>, <<"str">>, <<"len">>, <<"reset">>, <<"free">>}
Min(a, b) == IF a < b THEN a ELSE b
\* the data of a write: alternating bytes and counts
RECURSIVE Data(_, _)
Data(o, i) == IF i > Len(o) THEN <<>> ELSE << <<o[i], Num(o[i + 1])>> >> \o Data(o, i + 2)
\* the two halves of a 32 bit integer, most significant byte first
Half(x) == << <<ToString(Num(x) \div 256), 1>>, <<ToString(Num(x) % 256), 1>> >>
Written(o) == CASE o[1] \in {"w", "ws"} -> Norm(Data(o, 2))
                [] o[1] = "wb" -> << <<o[2], 1>> >>
                [] o[1] = "wi" -> Norm(Half(o[3]) \o Half(o[4]))
Do(s, o) ==
  CASE o[1] \in {"w", "ws", "wb", "wi"} ->
         IF s.nil THEN {Res(s, IF o[1] = "wb" THEN <<"err", "t">> ELSE <<"0", "err", "t">>)}
         ELSE LET d == Written(o) IN
              IF Total(s.q) + Total(d) > MaxLen THEN {}
              ELSE {Res([s EXCEPT !.q = Norm(@ \o d)], IF o[1] = "wb" THEN <<"ok", "t">> ELSE <<ToString(Total(d)), "ok", "t">>)}
    [] o[1] = "read" ->
         \* a Read may return fewer bytes than there are, but at least one; io.EOF may come with the last one
         LET n == Num(o[2]) IN LET t == Total(s.q) IN
         IF n = 0 THEN {Res(s, <<"0", "ok">>)}
         ELSE IF t = 0 THEN {Res(s, <<"0", "eof">>)}
         ELSE UNION {LET y == [s EXCEPT !.q = Rest(@, k)] IN LET r == <<ToString(k), "ok">> \o Runs(First(s.q, k)) IN
                     {Res(y, r)} \cup (IF k = t THEN {Res(y, [r EXCEPT ![2] = "eof"])} ELSE {})
                     : k \in {k \in (IF Len(o) > 2 THEN {Num(o[3])} ELSE 1..Min(n, t)) : k >= 1 /\ k <= Min(n, t)}}
    [] o[1] \in {"bytes", "str"} -> {Res(s, Runs(s.q))}
    [] o[1] = "len" -> IF s.nil THEN {} ELSE {Res(s, <<ToString(Total(s.q))>>)}
    [] o[1] = "reset" -> IF s.nil THEN {} ELSE {Res([s EXCEPT !.q = <<>>], <<"ok">>)}
    [] o[1] = "free" -> IF s.nil THEN {Res(s, <<"ok">>)} ELSE {}
    [] OTHER -> {}
Inv(s) == s.q = Norm(s.q) /\ (s.nil => s.q = <<>>)
StepOK(s, o, r, t) ==
  /\ t.nil = s.nil
  /\ o[1] \in {"w", "ws", "wb", "wi"} /\ ~s.nil => t.q = Norm(s.q \o Written(o)) /\ (o[1] # "wb" => r[1] = ToString(Total(Written(o))))
  /\ o[1] = "wi" /\ ~s.nil => r[1] = "4"
  /\ o[1] = "read" => Norm(First(s.q, Num(r[1])) \o t.q) = s.q
  /\ o[1] = "read" /\ r[2] = "eof" => t.q = <<>> /\ Num(o[2]) > 0
  /\ o[1] = "read" /\ Num(o[2]) > 0 /\ r[1] = "0" => s.q = <<>> /\ r[2] = "eof"
  /\ o[1] \in {"bytes", "str", "len", "free"} => t.q = s.q
=============================================================================
