------------------------------- MODULE LruSpec ------------------------------
(* cache.LruCache (C16). State: size limit and entries from the most to the least recently used. *)
EXTENDS Common
CONSTANTS Keys, Vals, Caps, Multi

SeqCfgs == {[cap |-> c] : c \in Caps}
InitStates(c) == {[cap |-> Num(c.cap), q |-> <<>>]}
Ops == {<<"add", k, v>> : k \in Keys, v \in Vals} \cup {<<"get", k>> : k \in Keys}
       \cup {<<"del", k>> : k \in Keys} \cup Multi
Do(s, o) ==
  CASE o[1] = "add" ->
         {Res([s EXCEPT !.q = Take(<<<<o[2], o[3]>>>> \o DelK(s.q, o[2]), s.cap)], <<>>)}
    [] o[1] = "get" ->
         IF HasK(s.q, o[2])
         THEN {Res([s EXCEPT !.q = <<<<o[2], ValOf(@, o[2])>>>> \o DelK(@, o[2])], <<ValOf(s.q, o[2]), "t">>)}
         ELSE {Res(s, <<"-", "f">>)}
    [] o[1] = "del" -> {Res([s EXCEPT !.q = DelK(@, o[2])], <<>>)}
    [] o[1] = "delmulti" -> {Res([s EXCEPT !.q = DelAll(@, Tail(o))], <<>>)}
    [] OTHER -> {}
Inv(s) == Len(s.q) <= s.cap /\ Cardinality(KeysOf(s.q)) = Len(s.q)
StepOK(s, o, r, t) ==
  /\ o[1] \in {"add", "get"} /\ (o[1] = "add" \/ r[2] = "t") => t.q[1][1] = o[2]
  /\ o[1] = "get" => KeysOf(t.q) = KeysOf(s.q) /\ (r[2] = "t") = HasK(s.q, o[2])
  /\ o[1] = "add" => LET lost == KeysOf(s.q) \ KeysOf(t.q)
                     IN lost # {} => Len(s.q) = s.cap /\ ~HasK(s.q, o[2]) /\ lost = {s.q[Len(s.q)][1]}
  /\ o[1] \in {"del", "delmulti"} => KeysOf(t.q) = KeysOf(s.q) \ Range(Tail(o))
=============================================================================
