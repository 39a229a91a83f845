---------------------------- MODULE LimitLockTrace --------------------------
(* Are recorded executions of lock.LimitLock behaviours of a semaphore with timeout (C09)?
   Timed: every event carries the clock in microseconds. Events: inv/ret of
   lock -> ok | err, unlock, cc -> n, count -> n, sleep ms.
   A slot is taken somewhere between a lock call and its return, and freed somewhere within
   the unlock call, whichever is tighter for the observed results: slots are counted from the
   return of lock to the call of unlock (a lower bound of what is held).                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, held, lk, other, freed
vars == <<tid, l, held, lk, other, freed>>
Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
E == Ev[l]
Limit == atoi(Cfg.limit)
Timeout == atoi(Cfg.timeout)
Punctual == Cfg.punctual = "1"
\* lk: pending lock calls [t, c0, got]; other: pending other calls; ok: successful locks
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ held = 0 /\ lk = {} /\ other = {}
        /\ freed = [n |-> 0, ok |-> 0, since |-> 0]
Got == Cardinality({p \in lk : p.got})
Busy == held + Got + Cardinality({p \in other : p.o = "unlock"})     \* upper bound of the slots in use
\* freed.since: when Busy last changed from "full"
Late(now) == \E p \in lk : ~p.got /\ (now > p.c0 + Timeout \/ (Busy < Limit /\ now > (IF p.c0 > freed.since THEN p.c0 ELSE freed.since)))
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
OnTime == Punctual => /\ ~Late(E.c) /\ \A p \in lk : p.got => E.c = p.gc
                                   /\ \A x \in other : x.o # "sleep" => E.c = x.c0

CallLock == /\ Is("inv") /\ OnTime /\ E.o[1] = "lock"
            /\ lk' = lk \cup {[t |-> E.t, c0 |-> E.c, got |-> FALSE, gc |-> 0]} /\ UNCHANGED <<held, other, freed>>
\* silent: the slot is taken (as late as possible: only when a call returns or at quiescence)
Take == /\ l <= Len(Ev) /\ E.e \in {"ret", "quiet"}
        /\ held + Got < Limit
        /\ \E p \in lk : ~p.got /\ lk' = (lk \ {p}) \cup {[p EXCEPT !.got = TRUE, !.gc = E.c]}
        /\ UNCHANGED <<tid, l, held, other, freed>>
Locked == /\ Is("ret") /\ OnTime /\ E.r = <<"ok">>
          /\ \E p \in lk : p.t = E.t /\ p.got /\ lk' = lk \ {p}
          /\ held' = held + 1 /\ freed' = [freed EXCEPT !.ok = @ + 1] /\ UNCHANGED other
Failed == /\ Is("ret") /\ OnTime /\ E.r = <<"err">>
          /\ \E p \in lk : p.t = E.t /\ ~p.got /\ E.c >= p.c0 + Timeout /\ lk' = lk \ {p}
          /\ UNCHANGED <<held, other, freed>>
CallOther == /\ Is("inv") /\ OnTime /\ E.o[1] # "lock"
             /\ other' = other \cup {[t |-> E.t, o |-> E.o[1], lo |-> freed.ok, c0 |-> E.c]}
             /\ held' = IF E.o[1] = "unlock" THEN held - 1 ELSE held
             /\ UNCHANGED <<lk, freed>>
Unlocked == /\ Is("ret") /\ OnTime /\ E.r = <<>>
            /\ \E p \in other : /\ p.t = E.t /\ p.o \in {"unlock", "sleep"} /\ other' = other \ {p}
                                /\ freed' = IF p.o = "unlock" THEN [freed EXCEPT !.since = E.c] ELSE freed
            /\ UNCHANGED <<held, lk>>
NotAsked == /\ Is("ret") /\ OnTime /\ E.r = <<"not asked">>
            /\ \E p \in other : p.t = E.t /\ p.o = "unlock" /\ other' = other \ {p}
            /\ held' = held + 1 /\ UNCHANGED <<lk, freed>>
Idle == lk = {} /\ \A p \in other : p.o # "unlock"
Asked == /\ Is("ret") /\ OnTime
         /\ \E p \in other : /\ p.t = E.t /\ p.o \in {"cc", "count"} /\ other' = other \ {p}
                             /\ Len(E.r) = 1
                             /\ p.o = "count" => atoi(E.r[1]) \in p.lo..(freed.ok + Cardinality(lk))
                             \* a slot that is held is not a pending call's
                             /\ p.o = "count" /\ Traces[tid].ev[l - 1].e = "inv" /\ Traces[tid].ev[l - 1].t = E.t /\ held >= 0 /\ held <= Limit
                                => atoi(E.r[1]) <= freed.ok + (IF Limit - held < Cardinality(lk) THEN Limit - held ELSE Cardinality(lk))
                             \* Cc is exact when no call is in progress
                             /\ p.o = "cc" /\ Idle /\ p.lo = freed.ok /\ Traces[tid].ev[l - 1].e = "inv" => atoi(E.r[1]) = held
         /\ UNCHANGED <<held, lk, freed>>
Quiet == /\ Is("quiet") /\ lk = {} /\ other = {} /\ UNCHANGED <<held, lk, other, freed>>

Next == CallLock \/ Take \/ Locked \/ Failed \/ CallOther \/ Unlocked \/ NotAsked \/ Asked \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, held, lk, other, freed>>)
=============================================================================
