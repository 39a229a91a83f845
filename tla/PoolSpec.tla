------------------------------ MODULE PoolSpec ------------------------------
(* gopool.GoPool as its users see it (C01-C03): functions are submitted, start, end. *)
EXTENDS Naturals, FiniteSets
VARIABLES limit,    \* max(minlimit, maxlimit)
          st,       \* function -> "new", "sub"mitted, "run"ning or "done"
          open      \* neither Close nor TurnOff has been called yet
pvars == <<limit, st, open>>
Fn == DOMAIN st

PInit(fns, lim) == st = [i \in fns |-> "new"] /\ open = TRUE /\ limit = lim
Running == {i \in Fn : st[i] = "run"}
Submit(i) == st[i] = "new" /\ st' = [st EXCEPT ![i] = "sub"] /\ UNCHANGED <<limit, open>>
Start(i) == /\ st[i] = "sub"                         \* once, and only after it was submitted
            /\ open => Cardinality(Running) < limit  \* C02
            /\ st' = [st EXCEPT ![i] = "run"] /\ UNCHANGED <<limit, open>>
End(i) == st[i] = "run" /\ st' = [st EXCEPT ![i] = "done"] /\ UNCHANGED <<limit, open>>
Shut == open' = FALSE /\ UNCHANGED <<limit, st>>

PNext == Shut \/ \E i \in Fn : Submit(i) \/ Start(i) \/ End(i)
PSpec(fns, lim) == PInit(fns, lim) /\ [][PNext]_pvars
\* nothing is pending once the pool has come to rest
Settled == \A i \in Fn : st[i] \in {"new", "done"}
AllRun(fns) == \A i \in fns : st[i] = "sub" ~> st[i] = "done"
=============================================================================
