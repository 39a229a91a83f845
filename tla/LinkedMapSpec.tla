---------------------------- MODULE LinkedMapSpec ---------------------------
(* hashmap.LinkedHashMap (C13). State: limit, entries from the newest to the oldest put, and the
   entries (x) that a Put in progress has displaced but not yet removed for Get, which takes
   no lock. *)
EXTENDS Common
CONSTANTS Keys, Vals, Limits

SeqCfgs == {[limit |-> c] : c \in Limits}
InitStates(c) == {[lim |-> Num(c.limit), q |-> <<>>, x |-> <<>>]}
Ops == {<<"put", k, v>> : k \in Keys, v \in Vals} \cup {<<"los", k, v>> : k \in Keys, v \in Vals}
       \cup {<<"get", k>> : k \in Keys} \cup {<<"del", k>> : k \in Keys} \cup {<<"mtf", k>> : k \in Keys}
       \cup {<<"len">>, <<"front">>, <<"back">>, <<"clear">>, <<"iter", "f">>, <<"iter", "b">>,
             <<"iterdel", "f">>, <<"iterdel", "b">>}

Look(q, k) == IF HasK(q, k) THEN <<ValOf(q, k), "t">> ELSE <<"-", "f">>
ToFront(q, k, v) == <<<<k, v>>>> \o DelK(q, k)
Ent(q, i) == IF q = <<>> THEN <<"-", "-", "f">> ELSE <<q[i][1], q[i][2], "t">>
\* insert a pair; beyond the limit the oldest entry leaves the order, and Get in a second step
Insert(s, k, v, res) ==
  LET q2 == ToFront(s.q, k, v)
  IN IF Len(q2) > s.lim
     THEN LET old == q2[Len(q2)]
          IN Res([s EXCEPT !.q = Take(q2, s.lim), !.x = Append(@, old)], <<"@", "evict", old[1]>> \o res)
     ELSE Res([s EXCEPT !.q = q2], res)
Do(s, o) ==
  IF s.x # <<>> /\ o[1] \notin {"get", "evict"} THEN {}     \* the lock is held by the evicting call
  ELSE
  CASE o[1] = "put" -> {Insert(s, o[2], o[3], <<>>)}
    [] o[1] = "los" ->
         IF HasK(s.q, o[2]) THEN {Res([s EXCEPT !.q = ToFront(s.q, o[2], ValOf(s.q, o[2]))], <<ValOf(s.q, o[2]), "t">>)}
         ELSE {Insert(s, o[2], o[3], <<o[3], "f">>)}
    [] o[1] = "evict" -> {Res([s EXCEPT !.x = DelK(@, o[2])], Drop(o, 2))}
    [] o[1] = "get" -> {Res(s, IF HasK(s.q, o[2]) THEN Look(s.q, o[2]) ELSE Look(s.x, o[2]))}
    [] o[1] = "del" -> {Res([s EXCEPT !.q = DelK(s.q, o[2])], <<>>)}
    [] o[1] = "mtf" -> {Res([s EXCEPT !.q = IF HasK(@, o[2]) THEN ToFront(@, o[2], ValOf(@, o[2])) ELSE @], <<>>)}
    [] o[1] = "len" -> {Res(s, <<ToString(Len(s.q))>>)}
    [] o[1] = "front" -> {Res(s, Ent(s.q, 1))}
    [] o[1] = "back" -> {Res(s, Ent(s.q, Len(s.q)))}
    [] o[1] = "clear" -> {Res([s EXCEPT !.q = <<>>], <<>>)}
    [] o[1] = "iter" -> {Res(s, Pairs(IF o[2] = "f" THEN s.q ELSE Rev(s.q)))}
    [] o[1] = "iterdel" -> {Res([s EXCEPT !.q = <<>>], Pairs(IF o[2] = "f" THEN s.q ELSE Rev(s.q)))}
    [] OTHER -> {}

Inv(s) == Len(s.q) <= s.lim /\ Cardinality(KeysOf(s.q)) = Len(s.q)
StepOK(s, o, r, t) ==
  /\ o[1] \in {"get", "len", "front", "back", "iter"} => s = t
  /\ o[1] = "put" => t.q[1] = <<o[2], o[3]>>
  /\ o[1] = "los" => /\ t.q[1][1] = o[2] /\ t.q[1][2] = r[1]
                     /\ (r[2] = "t") = HasK(s.q, o[2])
                     /\ r[2] = "t" => r[1] = ValOf(s.q, o[2])
  /\ o[1] \in {"put", "los"} =>
       LET lost == KeysOf(s.q) \ KeysOf(t.q)
       IN lost # {} => Len(s.q) = s.lim /\ ~HasK(s.q, o[2]) /\ lost = {s.q[Len(s.q)][1]}
  /\ o[1] = "del" => KeysOf(t.q) = KeysOf(s.q) \ {o[2]}
=============================================================================
