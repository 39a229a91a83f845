------------------------------ MODULE SigImpl ------------------------------
(* The algorithm of ListenSignalEvent (C29): the runtime hands a signal to the channel of every
   registered listener without waiting; a goroutine takes the first from the channel and calls
   the function. The variables of SigSpec go along: every visible step is one of its actions,
   otherwise bad. Cap: capacity of the channel; Late: the goroutine registers, not the caller;
   Loop: the goroutine goes on receiving.                                                    *)
EXTENDS SigSpec, Sequences
CONSTANTS Lists, Progs, Cap, Late, Loop
\* Lists: listener -> signals; Progs: raiser -> sequence of signals
L == DOMAIN Lists
T == DOMAIN Progs
VARIABLES pc, reg, buf, idx, todo, bad
ivars == <<pc, reg, buf, idx, todo, bad>>
Init == /\ SInit(L) /\ bad = FALSE
        /\ pc = [i \in L |-> "call"] /\ reg = {} /\ buf = [i \in L |-> <<>>]
        /\ idx = [t \in T |-> 0] /\ todo = [t \in T |-> {}]
Visible(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED svars
Hidden == UNCHANGED svars /\ UNCHANGED bad
\* the caller: pc = call -> (notify) -> ret; the goroutine: (notify) -> wait -> fire -> done
Call(i) == pc[i] = "call" /\ pc' = [pc EXCEPT ![i] = IF Late THEN "ret" ELSE "notify"] /\ Visible(ListenBegins(i, Lists[i])) /\ UNCHANGED <<reg, buf, idx, todo>>
Notify(i) == pc[i] = "notify" /\ reg' = reg \cup {i} /\ pc' = [pc EXCEPT ![i] = IF Late THEN "wait" ELSE "ret"] /\ Hidden /\ UNCHANGED <<buf, idx, todo>>
Ret(i) == pc[i] = "ret" /\ pc' = [pc EXCEPT ![i] = IF Late THEN "notify" ELSE "start"] /\ Visible(ListenReturns(i)) /\ UNCHANGED <<reg, buf, idx, todo>>
Start(i) == pc[i] = "start" /\ pc' = [pc EXCEPT ![i] = "wait"] /\ Hidden /\ UNCHANGED <<reg, buf, idx, todo>>
Take(i) == /\ pc[i] = "wait" /\ buf[i] # <<>>
           /\ buf' = [buf EXCEPT ![i] = Tail(@)]
           /\ pc' = [pc EXCEPT ![i] = IF Loop THEN "wait" ELSE "done"]
           /\ Visible(Fires(i, Head(buf[i]))) /\ UNCHANGED <<reg, idx, todo>>
\* a raise: the listeners registered at its moment get it one by one
Raise(t) == /\ todo[t] = {} /\ idx[t] < Len(Progs[t]) /\ \A a \in air : a.t # t
            /\ idx' = [idx EXCEPT ![t] = @ + 1]
            /\ Visible(RaiseBegins(t, Progs[t][idx[t] + 1])) /\ UNCHANGED <<pc, reg, buf, todo>>
S(t) == Progs[t][idx[t]]
\* the runtime handles one signal at a time
Deliver(t) == /\ \E a \in air : a.t = t
              /\ \A u \in T : todo[u] = {}
              /\ LET w == {i \in reg : S(t) \in Lists[i]} IN
                 IF w = {} THEN Visible(RaiseReturns(t, S(t))) /\ UNCHANGED todo ELSE todo' = [todo EXCEPT ![t] = w] /\ Hidden
              /\ UNCHANGED <<pc, reg, buf, idx>>
Hand(t, i) == /\ i \in todo[t]
              /\ todo' = [todo EXCEPT ![t] = @ \ {i}]
              /\ buf' = IF Len(buf[i]) < Cap \/ (Cap = 0 /\ pc[i] = "wait" /\ buf[i] = <<>>) THEN [buf EXCEPT ![i] = Append(@, S(t))] ELSE buf
              /\ IF todo[t] = {i} THEN Visible(RaiseReturns(t, S(t))) ELSE Hidden
              /\ UNCHANGED <<pc, reg, idx>>
Next == (\E i \in L : Call(i) \/ Notify(i) \/ Ret(i) \/ Start(i) \/ Take(i)) \/ \E t \in T : Raise(t) \/ Deliver(t) \/ \E i \in L : Hand(t, i)
Spec == Init /\ [][Next]_<<svars, ivars>> /\ WF_<<svars, ivars>>(Next)
AsSpecified == ~bad
AtRest == (~ENABLED Next) => Settled
Once == [][\A i \in L : fired[i] # None => fired'[i] = fired[i]]_svars
Served == \A i \in L : owed[i] ~> fired[i] # None
=============================================================================
