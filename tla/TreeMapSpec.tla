----------------------------- MODULE TreeMapSpec ----------------------------
(* hashmap.TreeMap (C14). Keys are decimal strings; the driver maps them monotonically. *)
EXTENDS Common
CONSTANTS Keys, Vals

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[m |-> [k \in Keys |-> "-"]]}
KeySeq == SortedSeq(Keys)
Asc(s) == LET q == SelectSeq(KeySeq, LAMBDA k : s.m[k] # "-") IN [i \in 1..Len(q) |-> q[i] \o "=" \o s.m[q[i]]]
Old(s, k) == IF s.m[k] = "-" THEN <<"-", "f">> ELSE <<s.m[k], "t">>
Ops == {<<"put", k, v>> : k \in Keys, v \in Vals} \cup {<<"get", k>> : k \in Keys} \cup {<<"del", k>> : k \in Keys}
       \cup {<<d, n>> : d \in {"asc", "desc"}, n \in {"1", "2", "99"}}
Do(s, o) ==
  CASE o[1] = "put" -> {Res([s EXCEPT !.m[o[2]] = o[3]], Old(s, o[2]))}
    [] o[1] = "get" -> {Res(s, Old(s, o[2]))}
    [] o[1] = "del" -> {Res([s EXCEPT !.m[o[2]] = "-"], <<>>)}
    [] o[1] = "asc" -> {Res(s, Take(Asc(s), Num(o[2])))}
    [] o[1] = "desc" -> {Res(s, Take(Rev(Asc(s)), Num(o[2])))}
    [] OTHER -> {}
Inv(s) == \A k \in Keys : s.m[k] \in Vals \cup {"-"}
StepOK(s, o, r, t) ==
  /\ o[1] \in {"get", "asc", "desc"} => s = t
  /\ o[1] \in {"asc", "desc"} /\ o[2] = "99" => Len(r) = Cardinality({k \in Keys : s.m[k] # "-"})
  /\ o[1] \in {"put", "del"} => \A k \in Keys \ {o[2]} : s.m[k] = t.m[k]
=============================================================================
