------------------------------ MODULE PoolTrace -----------------------------
(* Are recorded executions of GoPool behaviours of PoolSpec? Events:
     inv/ret t <<"go", i, kind>>, <<"close">>, <<"off", "t" | "f">>, <<"num">>
     start/end 0 <<i>>        function i starts, ends (also by panicking)
     quiet                    nothing can run any more                                     *)
EXTENDS PoolSpec, Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, calls

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
Lim(t) == LET a == atoi(Traces[t].cfg.min) b == atoi(Traces[t].cfg.max) IN IF a > b THEN a ELSE b
Fns(t) == {e.o[2] : e \in {Traces[t].ev[i] : i \in {j \in 1..Len(Traces[t].ev) : Traces[t].ev[j].e = "inv" /\ Traces[t].ev[j].o[1] = "go"}}}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ PInit(Fns(tid), Lim(tid)) /\ calls = {}
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Call == /\ Is("inv")
        /\ CASE E.o[1] = "go" -> Submit(E.o[2])
             [] E.o[1] \in {"close", "off"} -> Shut
             [] OTHER -> UNCHANGED pvars
        /\ calls' = calls \cup {E.t}
Return == /\ Is("ret")
          /\ E.r = IF E.o[1] = "num" THEN <<"0">> ELSE <<>>
          /\ E.o[1] = "num" => Settled           \* asked only when the pool is at rest
          /\ calls' = calls \ {E.t} /\ UNCHANGED pvars
Begin == Is("start") /\ Start(E.o[1]) /\ UNCHANGED calls
Finish == Is("end") /\ End(E.o[1]) /\ UNCHANGED calls
Quiet == Is("quiet") /\ Settled /\ calls = {} /\ UNCHANGED <<pvars, calls>>

Next == Call \/ Return \/ Begin \/ Finish \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, st, open, calls>>)
=============================================================================
