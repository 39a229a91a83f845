---------------------------- MODULE LimitMapSpec ----------------------------
(* hashmap.LimitMap (C11). State: capacity and the entries from the most to the least recently put. *)
EXTENDS Common
CONSTANTS Keys, Vals, Caps, Multi

SeqCfgs == {[cap |-> c] : c \in Caps}
InitStates(c) == {[cap |-> Num(c.cap), q |-> <<>>]}
Ops == {<<"put", k, v>> : k \in Keys, v \in Vals} \cup {<<"get", k>> : k \in Keys}
       \cup {<<"del", k>> : k \in Keys} \cup {<<"len">>} \cup Multi

Look(q, k) == IF HasK(q, k) THEN <<ValOf(q, k), "t">> ELSE <<"-", "f">>
Do(s, o) ==
  CASE o[1] = "put" ->
         LET k == o[2] v == o[3]
             q2 == IF HasK(s.q, k) THEN DelK(s.q, k)
                   ELSE IF Len(s.q) >= s.cap THEN Take(s.q, s.cap - 1) ELSE s.q
         IN {Res([s EXCEPT !.q = <<<<k, v>>>> \o q2], Look(s.q, k))}
    [] o[1] = "get" -> {Res(s, Look(s.q, o[2]))}
    [] o[1] = "del" -> {Res([s EXCEPT !.q = DelK(s.q, o[2])], <<>>)}
    [] o[1] = "delmulti" -> {Res([s EXCEPT !.q = DelAll(s.q, Tail(o))], <<>>)}
    [] o[1] = "len" -> {Res(s, <<ToString(Len(s.q))>>)}
    [] OTHER -> {}

Inv(s) == Len(s.q) <= s.cap /\ Cardinality(KeysOf(s.q)) = Len(s.q)
StepOK(s, o, r, t) ==
  /\ o[1] \in {"get", "len"} => s = t
  /\ o[1] = "put" =>
       /\ t.q[1] = <<o[2], o[3]>>
       /\ HasK(s.q, o[2]) => r = <<ValOf(s.q, o[2]), "t">> /\ KeysOf(t.q) = KeysOf(s.q)
       /\ ~HasK(s.q, o[2]) /\ Len(s.q) < s.cap => KeysOf(t.q) = KeysOf(s.q) \cup {o[2]}
       /\ ~HasK(s.q, o[2]) /\ Len(s.q) = s.cap =>
            KeysOf(t.q) = (KeysOf(s.q) \ {s.q[Len(s.q)][1]}) \cup {o[2]}
       /\ \A k \in KeysOf(t.q) \ {o[2]} : ValOf(t.q, k) = ValOf(s.q, k)
  /\ o[1] \in {"del", "delmulti"} => KeysOf(t.q) = KeysOf(s.q) \ Range(Tail(o))
=============================================================================
