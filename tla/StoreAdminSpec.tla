--------------------------- MODULE StoreAdminSpec ---------------------------
(* keystore.StoreAdmin (C24). State: the four tables, association lists from names to values;
   a user's value is "password digest/type". What is in memory and what is stored are the same
   at all times; a crash during a change leaves the tables before or after it. *)
EXTENDS Common
CONSTANTS Names, Vals, Points

Users == {"admin", "client", "mq"}
SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[admin |-> <<>>, client |-> <<>>, mq |-> <<>>, other |-> <<>>, up |-> TRUE]}
Tables == Users \cup {"other"}
Ops == {<<"put", t, n, v>> : t \in Tables, n \in Names, v \in Vals} \cup {<<a, t, n>> : a \in {"get", "del"}, t \in Tables, n \in Names}
       \cup {<<"list", t>> : t \in Users} \cup {<<"load">>, <<"restart">>, <<"fresh">>, <<"stored">>}
       \cup {<<"cput", t, n, v, k, "0">> : t \in Tables, n \in Names, v \in Vals, k \in Points} \cup {<<"cdel", t, n, k, "0">> : t \in Tables, n \in Names, k \in Points}
RECURSIVE Sorted(_)
Sorted(X) == IF X = {} THEN <<>> ELSE LET k == CHOOSE k \in X : \A j \in X : Num(k) <= Num(j) IN <<k>> \o Sorted(X \ {k})
PutK(q, k, v) == IF HasK(q, k) THEN SetV(q, k, v) ELSE Append(q, <<k, v>>)
Canon(q) == LET ks == Sorted(KeysOf(q)) IN [i \in 1..Len(ks) |-> <<ks[i], ValOf(q, ks[i])>>]
Dump(s) == Pairs(s.admin) \o <<"|">> \o Pairs(s.client) \o <<"|">> \o Pairs(s.mq) \o <<"|">> \o Pairs(s.other)
Changed(s, o) == IF o[1] \in {"put", "cput"} THEN [s EXCEPT ![o[2]] = Canon(PutK(@, o[3], o[4]))] ELSE [s EXCEPT ![o[2]] = DelK(@, o[3])]
Do(s, o) ==
  CASE o[1] = "restart" -> {Res([s EXCEPT !.up = TRUE], <<"ok">>)}
    [] ~s.up -> {Res(s, <<"down">>)}
    [] o[1] \in {"put", "del"} -> {Res(Changed(s, o), <<"ok">>)}
    [] o[1] \in {"cput", "cdel"} -> {Res(Changed(s, o), <<"ok">>), Res([Changed(s, o) EXCEPT !.up = FALSE], <<"crashed">>), Res([s EXCEPT !.up = FALSE], <<"crashed">>)}
    [] o[1] = "get" -> {Res(s, IF HasK(s[o[2]], o[3]) THEN <<ValOf(s[o[2]], o[3])>> ELSE <<"none">>)}
    [] o[1] = "list" -> {Res(s, Sorted(KeysOf(s[o[2]])))}
    [] o[1] = "load" -> {Res(s, <<"ok">>)}
       \* the tables as another StoreAdmin loads them
    [] o[1] = "fresh" -> {Res(s, Dump(s))}
       \* no password is in the file
    [] o[1] = "stored" -> {Res(s, <<"clean">>)}
    [] OTHER -> {}
Inv(s) == \A t \in Tables : \A i, j \in 1..Len(s[t]) : i # j => s[t][i][1] # s[t][j][1]
StepOK(s, o, r, t) ==
  /\ o[1] \notin {"put", "del", "cput", "cdel"} => \A x \in Tables : t[x] = s[x]
  /\ o[1] \in {"put", "del", "cput", "cdel"} /\ s.up =>
       /\ \A x \in Tables : \A n \in Names : (x # o[2] \/ n # o[3]) => HasK(t[x], n) = HasK(s[x], n) /\ (HasK(s[x], n) => ValOf(t[x], n) = ValOf(s[x], n))
       /\ r = <<"ok">> /\ o[1] \in {"put", "cput"} => HasK(t[o[2]], o[3]) /\ ValOf(t[o[2]], o[3]) = o[4]
       /\ r = <<"ok">> /\ o[1] \in {"del", "cdel"} => ~HasK(t[o[2]], o[3])
=============================================================================
