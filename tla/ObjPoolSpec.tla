----------------------------- MODULE ObjPoolSpec -----------------------------
(* Object pools (C22): pool/buffer.NewPool, pool/buffer.BufferPool and the pool of package
   buffer. held maps the callers' slots to the object in use and its content; the driver numbers
   the objects it sees. Which object a Get hands out is open, as long as nobody holds it. *)
EXTENDS Common
CONSTANTS Slots, Ids, Amounts
ASSUME Slots \subseteq STRING

SeqCfgs == {[kind |-> "T"]}
InitStates(c) == {[kind |-> c.kind, held |-> <<>>]}
Ops == {<<"get", s, z>> : s \in Slots, z \in {"0", "8"}} \cup {<<a, s>> : a \in {"put", "has"}, s \in Slots} \cup {<<"use", s, n>> : s \in Slots, n \in Amounts}
Held(s) == {s.held[i][2] : i \in 1..Len(s.held)}   \* held: sequence of <<slot, id, content>>
At(s, k) == LET i == Idx(s.held, k) IN s.held[i]
IdSet == {ToString(i) : i \in 1..Ids}
Do(s, o) ==
  CASE o[1] = "get" -> IF HasK(s.held, o[2]) THEN {Res(s, <<"taken">>)}
                       ELSE {Res([s EXCEPT !.held = Append(@, <<o[2], i, "0">>)], <<i, "0">>) : i \in IdSet \ Held(s)}
    [] o[1] = "put" -> IF HasK(s.held, o[2]) THEN {Res([s EXCEPT !.held = DelK(@, o[2])], <<"t", "nil">>)}
                       ELSE {Res(s, <<"f", "nil">>)}
    [] o[1] = "use" -> IF ~HasK(s.held, o[2]) THEN {Res(s, <<"none">>)}
                       ELSE LET i == Idx(s.held, o[2]) IN
                            LET n == ToString(Num(s.held[i][3]) + Num(o[3])) IN
                            IF Num(n) > 100000 THEN {} ELSE {Res([s EXCEPT !.held[i] = <<@[1], @[2], n>>], <<n>>)}
    [] o[1] = "has" -> IF HasK(s.held, o[2]) THEN {Res(s, <<At(s, o[2])[2], At(s, o[2])[3]>>)} ELSE {Res(s, <<"none">>)}
    [] OTHER -> {}
Inv(s) == \A i, j \in 1..Len(s.held) : i # j => s.held[i][1] # s.held[j][1] /\ s.held[i][2] # s.held[j][2]
StepOK(s, o, r, t) ==
  /\ o[1] = "get" /\ r # <<"taken">> => r[1] \notin Held(s) /\ r[2] = "0" /\ Held(t) = Held(s) \cup {r[1]}
  /\ o[1] = "put" => (r[1] = "t") = HasK(s.held, o[2]) /\ ~HasK(t.held, o[2])
  /\ o[1] \in {"use", "has"} => Held(t) = Held(s)
=============================================================================
