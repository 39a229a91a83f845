---------------------------- MODULE HashRingSpec ----------------------------
(* hashmap.Consistenthash (C15). The ring gives every key a fixed preference order of all possible
   nodes (the order in which their first virtual node follows the key). Everything the ring
   promises follows: the owner is the first present node of that order, adding or deleting a
   node moves only that node's keys, the next nodes are the following present ones, and
   nothing depends on history. The driver looks up keys and nodes with these preferences. *)
EXTENDS Common
CONSTANTS Nodes, Probes, Prefs   \* Prefs: set of <<probe, order...>>

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[n |-> {}]}
Pref(p) == Tail(CHOOSE q \in Prefs : q[1] = p)
Live(s, p) == SelectSeq(Pref(p), LAMBDA x : x \in s.n)
Sorted(S) == SortedSeq(S)
Ops == {<<"add", a>> : a \in Nodes} \cup {<<"add", a, b>> : a \in Nodes, b \in Nodes} \cup {<<"del", a>> : a \in Nodes}
       \cup {<<g, p>> : g \in {"get", "getstr"}, p \in Probes}
       \cup {<<"next", p, n>> : p \in Probes, n \in {"1", "2", "3"}} \cup {<<"nodes">>}
Do(s, o) ==
  CASE o[1] = "add" -> {Res([s EXCEPT !.n = @ \cup Range(Tail(o))], <<>>)}
    [] o[1] = "del" -> {Res([s EXCEPT !.n = @ \ {o[2]}], <<>>)}
    [] o[1] \in {"get", "getstr"} -> {Res(s, IF s.n = {} THEN <<"-", "f">> ELSE <<Live(s, o[2])[1], "t">>)}
    [] o[1] = "next" -> {Res(s, IF s.n = {} THEN <<"f">> ELSE <<"t">> \o Take(Tail(Live(s, o[2])), Num(o[3])))}
    [] o[1] = "nodes" -> {Res(s, Sorted(s.n))}
    [] OTHER -> {}
Inv(s) == s.n \subseteq Nodes
Owner(s, p) == Live(s, p)[1]
StepOK(s, o, r, t) ==
  /\ o[1] \notin {"add", "del"} => s = t
  /\ o[1] = "add" => \A p \in Probes : s.n # {} => Owner(t, p) = Owner(s, p) \/ Owner(t, p) \in Range(Tail(o)) \ s.n
  /\ o[1] = "del" => \A p \in Probes : t.n # {} => Owner(t, p) = Owner(s, p) \/ Owner(s, p) = o[2]
=============================================================================
