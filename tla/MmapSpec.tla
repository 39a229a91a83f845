------------------------------ MODULE MmapSpec ------------------------------
(* mmap.Mmap (C20). State: the content of the file (its size never changes), the append
   position, and whether it is mapped. *)
EXTENDS Common, ByteRuns
CONSTANTS Toks, Sizes, Offs, FileSizes, Starts

SeqCfgs == {[size |-> c, start |-> d] : c \in FileSizes, d \in Starts}
\* huge offsets stand for the largest and smallest ones of the machine
Off(x) == IF x \in {"max", "max7"} THEN 2000000000 ELSE IF x = "min" THEN -1 ELSE Num(x)
\* start is valid inside the file only; a failed NewMMAP leaves nothing to use
Valid(size, start) == Off(start) >= 0 /\ Off(start) < Num(size)
InitStates(c) == {[q |-> IF c.size = "0" THEN <<>> ELSE << <<"31", Num(c.size)>> >>, pos |-> IF Valid(c.size, c.start) THEN Num(c.start) ELSE 0,
                   st |-> IF Valid(c.size, c.start) THEN "mapped" ELSE "failed"]}
Ops == {<<a, t, n>> : a \in {"ap", "aps"}, t \in Toks, n \in Sizes} \cup {<<a, t, n, off>> : a \in {"wa", "was"}, t \in Toks, n \in Sizes, off \in Offs}
       \cup {<<"bytes">>, <<"file">>, <<"size">>, <<"flush">>, <<"close">>, <<"unmap">>, <<"unmapclose">>, <<"status">>}
       \cup {<<"reopen", d>> : d \in Starts}
Max(a, b) == IF a > b THEN a ELSE b
Do(s, o) ==
  LET size == Total(s.q) IN
  CASE (s.st # "mapped" /\ o[1] \notin {"reopen", "file", "status"}) \/ (s.st = "mapped" /\ o[1] = "reopen") -> {Res(s, <<"not asked">>)}
    [] o[1] \in {"ap", "aps"} /\ s.st = "mapped" ->
         LET n == Num(o[3]) IN
         IF s.pos + n > size THEN {Res(s, <<"err">>)}
         ELSE {Res([s EXCEPT !.q = Over(@, o[2], n, s.pos), !.pos = @ + n], <<"ok", ToString(s.pos), "t">>)}
    [] o[1] \in {"wa", "was"} /\ s.st = "mapped" ->
         LET n == Num(o[3]) IN LET off == Off(o[4]) IN
         IF off < 0 \/ off + n > size THEN {Res(s, <<"err">>)}
         ELSE {Res([s EXCEPT !.q = Over(@, o[2], n, off), !.pos = Max(@, off + n)], <<"ok", "t">>)}
    [] o[1] = "bytes" /\ s.st = "mapped" -> {Res(s, Runs(s.q))}
    [] o[1] = "size" /\ s.st = "mapped" -> {Res(s, <<ToString(size)>>)}
    [] o[1] = "flush" /\ s.st = "mapped" -> {Res(s, <<"ok">>)}
    [] o[1] \in {"close", "unmap", "unmapclose"} /\ s.st = "mapped" -> {Res([s EXCEPT !.st = "closed", !.pos = 0], <<"ok">>)}
    [] o[1] = "reopen" /\ s.st # "mapped" ->
         IF Valid(ToString(size), o[2]) THEN {Res([s EXCEPT !.st = "mapped", !.pos = Num(o[2])], <<"ok">>)} ELSE {Res([s EXCEPT !.st = "failed"], <<"err">>)}
    [] o[1] = "file" -> {Res(s, Runs(s.q))}
    [] o[1] = "status" -> {Res(s, <<s.st>>)}
    [] OTHER -> {}
Inv(s) == s.q = Norm(s.q) /\ s.pos <= Total(s.q)
Slice(q, a, n) == Norm(First(Rest(q, a), n))
\* n bytes at a carry t; everything else is as before
Written(s, t, a, n, tok) == /\ Total(t.q) = Total(s.q)
                            /\ Slice(t.q, a, n) = Norm(<< <<tok, n>> >>)
                            /\ Slice(t.q, 0, a) = Slice(s.q, 0, a)
                            /\ Norm(Rest(t.q, a + n)) = Norm(Rest(s.q, a + n))
StepOK(s, o, r, t) ==
  /\ o[1] \in {"ap", "aps"} /\ r[1] = "ok" => Num(r[2]) = s.pos /\ t.pos = s.pos + Num(o[3]) /\ Written(s, t, s.pos, Num(o[3]), o[2])
  /\ o[1] \in {"wa", "was"} /\ r[1] = "ok" => Written(s, t, Off(o[4]), Num(o[3]), o[2]) /\ t.pos >= Off(o[4]) + Num(o[3]) /\ t.pos >= s.pos
  /\ o[1] \notin {"ap", "aps", "wa", "was"} => t.q = s.q
  /\ r = <<"err">> /\ o[1] # "reopen" => t = s
=============================================================================
