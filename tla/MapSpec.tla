------------------------------- MODULE MapSpec ------------------------------
(* hashmap.Map and hashmap.MapL (C10). State: a total function, "-" = absent. *)
EXTENDS Common
CONSTANTS Keys, Vals, WithLen

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[m |-> [k \in Keys |-> "-"]]}
KeySeq == SortedSeq(Keys)
Present(s) == {k \in Keys : s.m[k] # "-"}
Listing(s) == LET q == SelectSeq(KeySeq, LAMBDA k : s.m[k] # "-")
              IN [i \in 1..Len(q) |-> q[i] \o "=" \o s.m[q[i]]]

Ops == {<<"put", k, v>> : k \in Keys, v \in Vals} \cup {<<"get", k>> : k \in Keys}
       \cup {<<"has", k>> : k \in Keys} \cup {<<"del", k>> : k \in Keys}
       \cup {<<"range">>} \cup {<<"rangestop", n>> : n \in {"1", "2"}}
       \cup (IF WithLen THEN {<<"len">>} ELSE {})

Old(s, k) == IF s.m[k] = "-" THEN <<"-", "f">> ELSE <<s.m[k], "t">>
Do(s, o) ==
  CASE o[1] = "put" -> {Res([s EXCEPT !.m[o[2]] = o[3]], Old(s, o[2]))}
    [] o[1] = "get" -> {Res(s, Old(s, o[2]))}
    [] o[1] = "peek" -> {Res(s, <<s.m[o[2]]>>)}
    [] o[1] = "has" -> {Res(s, <<B(s.m[o[2]] # "-")>>)}
    [] o[1] = "del" -> {Res([s EXCEPT !.m[o[2]] = "-"], <<B(s.m[o[2]] # "-")>>)}
    [] o[1] = "range" -> {Res(s, Listing(s))}
    [] o[1] = "rangestop" -> LET n == Num(o[2]) c == Cardinality(Present(s))
                             IN {Res(s, <<ToString(IF c < n THEN c ELSE n)>>)}
    [] o[1] = "len" -> {Res(s, <<ToString(Cardinality(Present(s)))>>)}
    [] OTHER -> {}

Inv(s) == \A k \in Keys : s.m[k] \in Vals \cup {"-"}
StepOK(s, o, r, t) ==
  /\ o[1] \in {"get", "has", "range", "rangestop", "len"} => s = t
  /\ o[1] = "put" => t.m[o[2]] = o[3] /\ (r[2] = "t" <=> o[2] \in Present(s)) /\ (r[2] = "t" => r[1] = s.m[o[2]])
  /\ o[1] = "del" => t.m[o[2]] = "-" /\ (r[1] = "t" <=> o[2] \in Present(s))
  /\ Len(o) > 1 /\ o[1] \in {"put", "del"} => \A k \in Keys \ {o[2]} : s.m[k] = t.m[k]
=============================================================================
