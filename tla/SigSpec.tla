------------------------------ MODULE SigSpec -------------------------------
(* What a user of gosignal.ListenSignalEvent sees (C29). A listener is new, being registered or
   registered; cand: the signals whose delivery may call it, that is those of its list raised
   since its registration began and not after one that has to call it (owed); fired: the signal
   it was called with. air: the raises under way (those before them that were complete when they
   began need not be remembered: owed does that).                                            *)
EXTENDS Naturals, FiniteSets
VARIABLES list, st, cand, owed, fired, air
svars == <<list, st, cand, owed, fired, air>>
None == "none"

SInit(Ids) == list = [i \in Ids |-> {}] /\ st = [i \in Ids |-> "new"] /\ cand = [i \in Ids |-> {}] /\ owed = [i \in Ids |-> FALSE] /\ fired = [i \in Ids |-> None] /\ air = {}
ListenBegins(i, ss) == /\ st[i] = "new"
                       /\ st' = [st EXCEPT ![i] = "begun"] /\ list' = [list EXCEPT ![i] = ss]
                       /\ cand' = [cand EXCEPT ![i] = {a.s : a \in air} \cap ss]
                       /\ UNCHANGED <<owed, fired, air>>
ListenReturns(i) == st[i] = "begun" /\ st' = [st EXCEPT ![i] = "on"] /\ UNCHANGED <<list, cand, owed, fired, air>>
\* must: the listeners registered now, which a complete delivery calls
RaiseBegins(t, s) == /\ air' = air \cup {[t |-> t, s |-> s, must |-> {i \in DOMAIN st : st[i] = "on" /\ s \in list[i]}]}
                     /\ cand' = [i \in DOMAIN st |-> IF st[i] # "new" /\ s \in list[i] /\ ~owed[i] THEN cand[i] \cup {s} ELSE cand[i]]
                     /\ UNCHANGED <<list, st, owed, fired>>
RaiseReturns(t, s) == \E a \in air : /\ a.t = t /\ a.s = s
                                     /\ air' = air \ {a}
                                     /\ owed' = [i \in DOMAIN st |-> owed[i] \/ i \in a.must]
                                     /\ UNCHANGED <<list, st, cand, fired>>
Fires(i, s) == st[i] # "new" /\ fired[i] = None /\ s \in cand[i] /\ fired' = [fired EXCEPT ![i] = s] /\ UNCHANGED <<list, st, cand, owed, air>>
\* nothing can happen any more
Settled == \A i \in DOMAIN st : st[i] # "begun" /\ (owed[i] => fired[i] # None)
=============================================================================
