----------------------------- MODULE AwaitImpl -----------------------------
(* The algorithms of lock.Await and lock.FastAwait (C04-C06), step by step: the map from ids to
   channels, the stripe mutex, the buffered channel, its closing by a timeout, and the panics
   that closing and sending race into (they end a call with an error). Time is abstract: a
   timed wait may end at any moment, a signal looks Retry times for its waiter.
   Threads: thread -> sequence of [op |-> "wait" | "put" | "close", id, v, timed].
   Variants, each of which must break an invariant:
     Locked = FALSE   signals do not take the stripe mutex
     Cleans = FALSE   a wait that timed out leaves its registration
     Marks = FALSE    FastAwait does not remember completed ids: a signal to one looks again and
                      again for a waiter (Prompt)                                                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Fast, Stripes, Retry, Locked, Cleans, Marks
T == DOMAIN Threads
Ids == UNION {{Threads[t][i].id : i \in 1..Len(Threads[t])} : t \in T}
VARIABLES pc, idx, m, ch, mu, held, loops, marked, res, late
vars == <<pc, idx, m, ch, mu, held, loops, marked, res, late>>

Op(t) == Threads[t][idx[t]]
Id(t) == Op(t).id
Stripe(i) == i % Stripes
Waiting(t) == idx[t] > 0 /\ pc[t] # "next" /\ Op(t).op = "wait"
Signalling(t) == idx[t] > 0 /\ pc[t] # "next" /\ Op(t).op # "wait"

Init == /\ pc = [t \in T |-> "next"] /\ idx = [t \in T |-> 0]
        /\ m = [i \in Ids |-> 0]                     \* 0: not registered
        /\ ch = <<>>                                 \* channels, in the order of their making
        /\ mu = [s \in {Stripe(i) : i \in Ids} |-> "free"]
        /\ held = [t \in T |-> 0] /\ loops = [t \in T |-> 0]
        /\ marked = {} /\ res = [t \in T |-> <<>>]
        /\ late = [t \in T |-> FALSE]                \* the signal began after the id's wait had ended (ids of FastAwait are waited on once)
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Ret(t, r) == /\ pc' = [pc EXCEPT ![t] = "next"] /\ res' = [res EXCEPT ![t] = Append(@, r)] /\ held' = [held EXCEPT ![t] = 0]
Release(t) == mu' = IF mu[Stripe(Id(t))] = t THEN [mu EXCEPT ![Stripe(Id(t))] = "free"] ELSE mu

WaitedOn(i) == \E u \in T : \E k \in 1..Len(res[u]) : Threads[u][k].op = "wait" /\ Threads[u][k].id = i /\ (k < idx[u] \/ pc[u] = "next")
Begin(t) == /\ pc[t] = "next" /\ idx[t] < Len(Threads[t])
            /\ LET o == Threads[t][idx[t] + 1] IN
               \* one waiter at a time
               /\ o.op = "wait" => ~\E u \in T : Waiting(u) /\ Id(u) = o.id
               /\ Go(t, IF o.op = "wait" THEN (IF Fast THEN "register" ELSE "wlock") ELSE "look")
               /\ late' = [late EXCEPT ![t] = o.op # "wait" /\ WaitedOn(o.id)]
            /\ idx' = [idx EXCEPT ![t] = @ + 1]
            /\ loops' = [loops EXCEPT ![t] = 0]
            /\ UNCHANGED <<m, ch, mu, held, marked, res>>
Lock(t) == /\ pc[t] \in {"wlock", "slock"}
           /\ IF pc[t] = "wlock" \/ Locked THEN mu[Stripe(Id(t))] = "free" /\ mu' = [mu EXCEPT ![Stripe(Id(t))] = t]
                                           ELSE UNCHANGED mu
           /\ Go(t, IF pc[t] = "wlock" THEN "register" ELSE "get")
           /\ UNCHANGED <<idx, m, ch, held, loops, marked, res, late>>

\* ---- waits
New == [buf |-> <<>>, closed |-> FALSE]
Register(t) == /\ pc[t] = "register"
               /\ IF ~Fast /\ m[Id(t)] # 0
                  THEN held' = [held EXCEPT ![t] = m[Id(t)]] /\ UNCHANGED <<m, ch>>
                  ELSE /\ ch' = Append(ch, New) /\ m' = [m EXCEPT ![Id(t)] = Len(ch) + 1] /\ held' = [held EXCEPT ![t] = Len(ch) + 1]
               /\ Release(t) /\ Go(t, "select")
               /\ UNCHANGED <<idx, loops, marked, res, late>>
C(t) == ch[held[t]]
Ready(t) == C(t).buf # <<>> \/ C(t).closed
Ended(t, r) == /\ res' = [res EXCEPT ![t] = Append(@, r)] /\ UNCHANGED held
Receive(t) == /\ pc[t] = "select" /\ Ready(t)
              /\ Ended(t, IF C(t).buf # <<>> THEN Head(C(t).buf) ELSE "zero")
              /\ ch' = IF C(t).buf # <<>> THEN [ch EXCEPT ![held[t]].buf = Tail(@)] ELSE ch
              /\ Go(t, "clean") /\ UNCHANGED <<idx, m, mu, loops, marked, late>>
TimeOut(t) == /\ pc[t] = "select" /\ Op(t).timed
              /\ Ended(t, "timeout")
              /\ Go(t, "shut") /\ UNCHANGED <<idx, m, ch, mu, loops, marked, late>>
Shut(t) == /\ pc[t] = "shut"                            \* a second close panics and is recovered from
           /\ ch' = [ch EXCEPT ![held[t]].closed = TRUE]
           /\ Go(t, IF Cleans THEN "clean" ELSE "gone") /\ UNCHANGED <<idx, m, mu, held, loops, marked, res, late>>
Clean(t) == /\ pc[t] = "clean"
            /\ IF Fast /\ Marks THEN marked' = marked \cup {Id(t)} ELSE UNCHANGED marked
            /\ Go(t, "del") /\ UNCHANGED <<idx, m, ch, mu, held, loops, res, late>>
Gone(t) == /\ \/ pc[t] = "del" /\ m' = [m EXCEPT ![Id(t)] = 0]
              \/ pc[t] = "gone" /\ UNCHANGED m
           /\ Go(t, "next") /\ held' = [held EXCEPT ![t] = 0] /\ UNCHANGED <<idx, ch, mu, loops, marked, res, late>>

\* ---- signals
Look(t) == /\ pc[t] = "look"
           /\ \/ /\ m[Id(t)] # 0
                 /\ IF Fast THEN held' = [held EXCEPT ![t] = m[Id(t)]] /\ Go(t, "take") ELSE Go(t, "slock") /\ UNCHANGED held
                 /\ UNCHANGED <<loops, res>>
              \/ /\ m[Id(t)] = 0 /\ loops[t] < Retry /\ Id(t) \notin marked
                 /\ loops' = [loops EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, held, res>>
              \/ /\ m[Id(t)] = 0 /\ (loops[t] = Retry \/ Id(t) \in marked)
                 /\ Ret(t, "gave up") /\ UNCHANGED loops
           /\ UNCHANGED <<idx, m, ch, mu, marked, late>>
Get(t) == /\ pc[t] = "get"
          /\ IF m[Id(t)] # 0 THEN held' = [held EXCEPT ![t] = m[Id(t)]] /\ Go(t, "take") /\ UNCHANGED <<res, mu>>
                             ELSE Ret(t, "too late") /\ Release(t)
          /\ UNCHANGED <<idx, m, ch, loops, marked, late>>
Take(t) == /\ pc[t] = "take"
           /\ m' = [m EXCEPT ![Id(t)] = 0]
           /\ Go(t, IF Op(t).op = "put" THEN "send" ELSE "finish") /\ UNCHANGED <<idx, ch, mu, held, loops, marked, res, late>>
Send(t) == /\ pc[t] = "send"
           /\ \/ C(t).closed /\ UNCHANGED ch /\ Ret(t, "err") /\ Release(t)
              \/ /\ ~C(t).closed /\ C(t).buf = <<>>
                 /\ ch' = [ch EXCEPT ![held[t]].buf = <<Op(t).v>>] /\ Go(t, "finish") /\ UNCHANGED <<mu, held, res>>
           /\ UNCHANGED <<idx, m, loops, marked, late>>
Finish(t) == /\ pc[t] = "finish"
             /\ ch' = [ch EXCEPT ![held[t]].closed = TRUE]
             /\ Ret(t, IF C(t).closed THEN "err" ELSE "ok") /\ Release(t)
             /\ UNCHANGED <<idx, m, loops, marked, late>>

Step(t) == Begin(t) \/ Lock(t) \/ Register(t) \/ Receive(t) \/ TimeOut(t) \/ Shut(t) \/ Clean(t) \/ Gone(t)
           \/ Look(t) \/ Get(t) \/ Take(t) \/ Send(t) \/ Finish(t)
\* at the end every thread is through, or in a wait that nobody signals
Through(t) == pc[t] = "next" /\ idx[t] = Len(Threads[t])
Asleep(t) == pc[t] = "select" /\ ~Op(t).timed /\ ~Ready(t)
Behind(t) == LET k == idx[t] + 1 IN
             /\ pc[t] = "next" /\ k <= Len(Threads[t])
             /\ Threads[t][k].op = "wait" /\ (\E u \in T : Waiting(u) /\ Id(u) = Threads[t][k].id)
Over == \A t \in T : Through(t) \/ Asleep(t) \/ Behind(t)
Next == (\E t \in T : Step(t)) \/ (Over /\ UNCHANGED vars)     \* otherwise a deadlock: a call that never returns
Spec == Init /\ [][Next]_vars

\* ---- what C04-C06 ask
Results(t) == {<<Threads[t][k], res[t][k]>> : k \in 1..Len(res[t])}
All == UNION {Results(t) : t \in T}
Returned(v) == {<<t, k>> \in T \X (1..4) : k <= Len(res[t]) /\ Threads[t][k].op = "wait" /\ res[t][k] = v}
Puts == UNION {{Threads[t][k] : k \in {j \in 1..Len(Threads[t]) : Threads[t][j].op = "put"}} : t \in T}
\* a wait returns what was put for its id (or the zero value after a close), each value once
OwnValue == \A x \in All : x[1].op = "wait" =>
              \/ x[2] = "timeout" /\ x[1].timed
              \/ x[2] = "zero"
              \/ \E p \in Puts : p.v = x[2] /\ p.id = x[1].id
Once == \A p \in Puts : Cardinality(Returned(p.v)) <= 1
Closes(i) == \E t \in T : \E k \in 1..Len(Threads[t]) : Threads[t][k].op = "close" /\ Threads[t][k].id = i
NoZero == \A x \in All : x[1].op = "wait" /\ x[2] = "zero" => Closes(x[1].id)
\* a wait that sleeps can be reached: it is registered, or a signal is on its way to it
Reachable == \A t \in T : pc[t] = "select" /\ ~Ready(t) =>
               m[Id(t)] = held[t] \/ \E u \in T : Signalling(u) /\ held[u] = held[t] /\ pc[u] \in {"take", "send", "finish"}
\* nothing is registered for an id nobody waits on
NothingLeft == \A i \in Ids : m[i] # 0 => \E t \in T : Waiting(t) /\ Id(t) = i
\* a signal that says "ok" was received, unless its wait timed out or (FastAwait) another one was
Rivals(i) == Cardinality({<<t, k>> \in T \X (1..4) : k <= Len(Threads[t]) /\ Threads[t][k].op # "wait" /\ Threads[t][k].id = i}) > 1
Kept == Over => \A x \in All : x[1].op = "put" /\ x[2] = "ok" =>
          \/ Returned(x[1].v) # {}
          \/ \E y \in All : y[1].op = "wait" /\ y[1].id = x[1].id /\ y[2] = "timeout"
          \/ Fast /\ Rivals(x[1].id)
\* a value that was received was not reported as an error (rivals of FastAwait excepted)
Honest == \A x \in All : x[1].op = "put" /\ x[2] \in {"err", "gave up", "too late"} => Returned(x[1].v) = {} \/ (Fast /\ Rivals(x[1].id))
\* FastAwait: a signal for an id whose wait is over looks once
Prompt == Fast => \A t \in T : late[t] /\ Signalling(t) => loops[t] = 0
============================================================================
