----------------------------- MODULE FastioSpec -----------------------------
(* fastio.File (C18). State: the file's content as runs <<token, length>> (every call writes
   its own token, repeated), and whether the file is open. Zero bytes have the token "0". *)
EXTENDS Common, ByteRuns
CONSTANTS Toks, Sizes, Offs, MaxLen

SeqCfgs == {[orig |-> c] : c \in {"0", "3"}}
InitStates(c) == {[q |-> IF c.orig = "0" THEN <<>> ELSE << <<"31", Num(c.orig)>> >>, open |-> TRUE]}
Ops == {<<w, t, n>> : w \in {"w", "ws"}, t \in Toks, n \in Sizes} \cup {<<"wa", t, n, off>> : t \in Toks, n \in Sizes, off \in Offs}
       \cup {<<"ra", off, n>> : off \in Offs, n \in Sizes} \cup {<<"close">>, <<"reopen">>, <<"content">>}

Do(s, o) ==
  CASE o[1] \in {"w", "ws", "wa", "ra"} /\ ~s.open ->
         {Res(s, <<"err">>)} \cup (IF o[3] = "0" THEN {Res(s, x) : x \in {<<"ok", "0">>, <<"ok">>}} ELSE {})
    [] o[1] = "w" -> IF Total(s.q) + Num(o[3]) > MaxLen THEN {}
                     ELSE {Res([s EXCEPT !.q = Append1(@, o[2], Num(o[3]))], <<"ok", o[3]>>)}
    [] o[1] = "ws" -> IF Total(s.q) + Num(o[3]) > MaxLen THEN {}
                      ELSE {Res([s EXCEPT !.q = Append1(@, o[2], Num(o[3]))], <<"ok", ToString(Total(s.q)), "t">>)}
    [] o[1] = "wa" -> IF Num(o[4]) + Num(o[3]) > MaxLen THEN {}
                      ELSE {Res([s EXCEPT !.q = Over(@, o[2], Num(o[3]), Num(o[4]))], <<"ok", o[3]>>)}
    [] o[1] = "ra" -> {Res(s, <<"ok">> \o Runs(Norm(First(Rest(s.q, Num(o[2])), Num(o[3])))))}
    [] o[1] = "close" -> {Res([s EXCEPT !.open = FALSE], IF s.open THEN <<"ok">> ELSE <<"err">>)}
    [] o[1] = "reopen" -> {Res([s EXCEPT !.open = TRUE], <<>>)}
    [] o[1] = "content" -> {Res(s, Runs(s.q))}
    [] OTHER -> {}
Inv(s) == s.q = Norm(s.q) /\ Total(s.q) <= MaxLen
StepOK(s, o, r, t) ==
  /\ o[1] \in {"w", "ws"} /\ s.open => First(t.q, Total(s.q)) = s.q /\ Total(t.q) = Total(s.q) + Num(o[3])
  /\ o[1] = "ws" /\ s.open => Norm(Rest(t.q, Num(r[2]))) = Norm(<< <<o[2], Num(o[3])>> >>)
  /\ o[1] = "wa" /\ s.open => LET n == Num(o[3]) IN Norm(First(Rest(t.q, Num(o[4])), n)) = Norm(<< <<o[2], n>> >>)
  /\ o[1] \in {"ra", "content", "close", "reopen"} => t.q = s.q
=============================================================================
