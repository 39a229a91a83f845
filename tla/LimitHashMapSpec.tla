-------------------------- MODULE LimitHashMapSpec --------------------------
(* hashmap.LimitHashMap (C12). The map is divided into segments; a key's name is its segment
   followed by a digit ("a1", "a2", "b1"), the driver finds concrete keys with that placement.
   State: per segment the entries from the latest to the earliest inserted. *)
EXTENDS Common
CONSTANTS Keys, Vals, Confs   \* Confs: sequences <<capacity, segments>> as strings

Seg(k) == CASE k \in {"a1", "a2", "a3", "a4"} -> "a" [] k \in {"b1", "b2", "b3", "b4"} -> "b" [] OTHER -> "c"
Min(a, b) == IF a < b THEN a ELSE b
SegsOf(n) == IF n = 1 THEN {"a"} ELSE IF n = 2 THEN {"a", "b"} ELSE {"a", "b", "c"}
SeqCfgs == {[cap |-> c[1], seg |-> c[2]] : c \in Confs}
\* fewer entries than segments: as many segments as entries
InitStates(c) == LET cap == Num(c.cap) n == Min(Num(c.seg), cap)
                 IN {[cap |-> cap, sc |-> cap \div n, g |-> [x \in SegsOf(n) |-> <<>>]]}
Ops == {<<"put", k, v>> : k \in Keys, v \in Vals} \cup {<<"get", k>> : k \in Keys}
       \cup {<<"has", k>> : k \in Keys} \cup {<<"del", k>> : k \in Keys} \cup {<<"len">>, <<"clear">>}

SegIn(s, k) == IF Seg(k) \in DOMAIN s.g THEN Seg(k) ELSE "none"
Look(q, k) == IF HasK(q, k) THEN <<ValOf(q, k), "t">> ELSE <<"-", "f">>
RECURSIVE Sum(_, _)
Sum(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(g[x]) + Sum(g, S \ {x})
\* Clear and Len visit the segments one after another (ascending)
Order == <<"a", "b", "c">>
NextSeg(s, x) == LET i == CHOOSE i \in 1..3 : Order[i] = x
                     c == {j \in i + 1..3 : Order[j] \in DOMAIN s.g}
                 IN IF c = {} THEN "none" ELSE Order[CHOOSE j \in c : \A k \in c : j <= k]
Do(s, o) ==
  IF o[1] \in {"put", "get", "has", "del"} /\ SegIn(s, o[2]) = "none" THEN {}
  ELSE
  CASE o[1] = "put" ->
         LET k == o[2] x == Seg(k) q == s.g[x]
             q2 == IF HasK(q, k) THEN SetV(q, k, o[3])
                   ELSE <<<<k, o[3]>>>> \o (IF Len(q) >= s.sc THEN Take(q, s.sc - 1) ELSE q)
         IN {Res([s EXCEPT !.g[x] = q2], Look(q, k))}
    [] o[1] = "get" -> {Res(s, Look(s.g[Seg(o[2])], o[2]))}
    [] o[1] = "has" -> {Res(s, <<B(HasK(s.g[Seg(o[2])], o[2]))>>)}
    [] o[1] = "del" -> {Res([s EXCEPT !.g[Seg(o[2])] = DelK(@, o[2])], <<>>)}
    [] o[1] = "clear" -> {Res(s, <<"@", "clearseg", "a">>)}
    [] o[1] = "clearseg" ->
         LET t == [s EXCEPT !.g[o[2]] = <<>>] n == NextSeg(s, o[2])
         IN {Res(t, IF n = "none" THEN <<>> ELSE <<"@", "clearseg", n>>)}
    [] o[1] = "len" -> {Res(s, <<"@", "lenseg", "a", "0">>)}
    [] o[1] = "lenseg" ->
         LET a == ToString(Num(o[3]) + Len(s.g[o[2]])) n == NextSeg(s, o[2])
         IN {Res(s, IF n = "none" THEN <<a>> ELSE <<"@", "lenseg", n, a>>)}
    [] OTHER -> {}

Total(s) == Sum(s.g, DOMAIN s.g)
Inv(s) == /\ Total(s) <= s.cap
          /\ \A x \in DOMAIN s.g : \A i \in 1..Len(s.g[x]) : Seg(s.g[x][i][1]) = x
StepOK(s, o, r, t) ==
  /\ o[1] \in {"get", "has", "len"} => s = t
  /\ o[1] = "clear" => Total(t) = 0
  /\ o[1] = "put" => /\ ValOf(t.g[Seg(o[2])], o[2]) = o[3]
                     /\ \A x \in DOMAIN s.g \ {Seg(o[2])} : s.g[x] = t.g[x]
                     /\ LET q == s.g[Seg(o[2])] p == t.g[Seg(o[2])]
                            lost == KeysOf(q) \ KeysOf(p)
                        IN lost # {} => /\ ~HasK(q, o[2]) /\ Len(q) = s.sc
                                        /\ lost = {q[Len(q)][1]}
=============================================================================
