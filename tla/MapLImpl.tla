------------------------------ MODULE MapLImpl ------------------------------
(* How MapL keeps its length (C10): an atomic map and an atomic counter beside it, moved after the map.
   Progs: process -> sequence of [op |-> "put" | "del", k]. One = FALSE: look first, then change (as two steps). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Progs, One
P == DOMAIN Progs
VARIABLES pc, idx, m, len, was
vars == <<pc, idx, m, len, was>>
Init == pc = [p \in P |-> "next"] /\ idx = [p \in P |-> 1] /\ m = {} /\ len = 0 /\ was = [p \in P |-> FALSE]
Op(p) == Progs[p][idx[p]]
To(p, l) == pc' = [pc EXCEPT ![p] = l]
Begin(p) == pc[p] = "next" /\ idx[p] <= Len(Progs[p]) /\ To(p, IF One THEN "swap" ELSE "look") /\ UNCHANGED <<idx, m, len, was>>
Look(p) == pc[p] = "look" /\ was' = [was EXCEPT ![p] = Op(p).k \in m] /\ To(p, "set") /\ UNCHANGED <<idx, m, len>>
Change(p) == m' = IF Op(p).op = "put" THEN m \cup {Op(p).k} ELSE m \ {Op(p).k}
Set(p) == pc[p] = "set" /\ Change(p) /\ To(p, "count") /\ UNCHANGED <<idx, len, was>>
Swap(p) == pc[p] = "swap" /\ was' = [was EXCEPT ![p] = Op(p).k \in m] /\ Change(p) /\ To(p, "count") /\ UNCHANGED <<idx, len>>
Count(p) == /\ pc[p] = "count"
            /\ len' = CASE Op(p).op = "put" /\ ~was[p] -> len + 1
                        [] Op(p).op = "del" /\ was[p] -> len - 1
                        [] OTHER -> len
            /\ idx' = [idx EXCEPT ![p] = @ + 1] /\ To(p, "next") /\ UNCHANGED <<m, was>>
Next == \E p \in P : Begin(p) \/ Look(p) \/ Set(p) \/ Swap(p) \/ Count(p)
Spec == Init /\ [][Next]_vars
Busy == {p \in P : pc[p] = "count"}
Exact == (\A p \in P : pc[p] = "next") => len = Cardinality(m)
\* while calls run it is off by at most one for each
Near == len - Cardinality(m) \in -Cardinality(Busy)..Cardinality(Busy)
=============================================================================
