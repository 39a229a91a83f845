------------------------------ MODULE SigTrace ------------------------------
(* Are recorded executions of gosignal behaviours of SigSpec? Events: inv/ret t
   <<"listen", id, sig...>>, <<"raise", sig>> (result "default": nothing was registered for it, so that it has its
   default effect on the process); cb 0 <<id, sig>>; quiet.       *)
EXTENDS SigSpec, Sequences, TLC, Json, IOUtils
VARIABLES tid, l, calls
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
Ids(ev) == {ev[k].o[2] : k \in {n \in 1..Len(ev) : ev[n].e = "inv" /\ ev[n].o[1] = "listen"}}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ calls = {} /\ SInit(Ids(Traces[tid].ev))
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Sigs(o) == {o[k] : k \in 3..Len(o)}
Call == Is("inv") /\ calls' = calls \cup {E.t} /\ (IF E.o[1] = "listen" THEN ListenBegins(E.o[2], Sigs(E.o)) ELSE RaiseBegins(E.t, E.o[2]))
Return == Is("ret") /\ calls' = calls \ {E.t} /\ E.r[1] \in {"ok", "default"}
          /\ (E.r[1] = "default" => E.o[1] = "raise" /\ \A a \in air : a.t = E.t => a.must = {})
          /\ (IF E.o[1] = "listen" THEN ListenReturns(E.o[2]) ELSE RaiseReturns(E.t, E.o[2]))
Fired == Is("cb") /\ E.o[1] \in DOMAIN st /\ Fires(E.o[1], E.o[2]) /\ UNCHANGED calls
Quiet == Is("quiet") /\ calls = {} /\ Settled /\ UNCHANGED <<svars, calls>>
Next == Call \/ Return \/ Fired \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, svars, calls>>)
=============================================================================
