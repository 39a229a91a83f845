----------------------------- MODULE HttpTrace ------------------------------
(* Are recorded exchanges behaviours of HttpSpec? Events:
     inv t <<"post", tag, body, close, hdr, cookie, way>>   ret t ... r = <<"ok", body>>, <<"err">>
     srv 0 <<"req", tag, method, body, close, hdr, cookie>>
     srv 0 <<"reply", tag, "whole" | "broken", body>>    just before its last part is sent
     quiet                                                                                     *)
EXTENDS HttpSpec, TLC, Json, IOUtils
VARIABLES tid, l, open
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
Tags(ev) == {ev[k].o[2] : k \in {n \in 1..Len(ev) : ev[n].e = "inv"}}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ open = {} /\ HInit(Tags(Traces[tid].ev))
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Call == Is("inv") /\ open' = open \cup {E.t} /\ Begin(E.o[2], [body |-> E.o[3], close |-> E.o[4] = "t", hdr |-> E.o[5], cookie |-> E.o[6], way |-> E.o[7]])
Return == /\ Is("ret") /\ open' = open \ {E.t} /\ E.r[1] \in {"ok", "err"}
          /\ Returns(E.o[2], E.r[1] = "ok", IF Len(E.r) > 1 THEN E.r[2] ELSE "")
Server == /\ Is("srv") /\ UNCHANGED open /\ E.o[2] \in DOMAIN call
          /\ IF E.o[1] = "req" THEN Arrives(E.o[2], E.o[3], E.o[4], E.o[5] = "t", E.o[6], E.o[7]) ELSE Answers(E.o[2], E.o[3] = "whole", E.o[4])
Quiet == Is("quiet") /\ open = {} /\ UNCHANGED <<hvars, open>>
Next == Call \/ Return \/ Server \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, hvars, open>>)
=============================================================================
