------------------------------ MODULE WsTrace -------------------------------
(* Are recorded executions of websocket.Handler behaviours of WsSpec? Events:
     inv/ret t <<"new">>, <<"send", i>>, <<"close">>, <<"error">>   calls of the user
     cb 0 <<"open">>, <<"msg", i>>, <<"error", "t" | "f">>, <<"close">>   callbacks begin
     peer 0 <<"send", i>>, <<"end">>, <<"cut">>     the peer is about to do this
     peer 0 <<"got", i>>                             the peer received a message
     peer 0 <<"freed">>                              the peer sees that the handler closed the connection
     quiet                                           nothing can happen any more         *)
EXTENDS WsSpec, Sequences, TLC, Json, IOUtils
VARIABLES tid, l, late, calls

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
Cfg == Traces[tid].cfg
Init == tid \in 1..Len(Traces) /\ l = 1 /\ WInit /\ late = {} /\ calls = {}
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Call == /\ Is("inv")
        /\ CASE E.o[1] = "send" -> SendCalled(E.o[2])
             [] E.o[1] = "close" -> CloseCalled
             [] OTHER -> UNCHANGED wvars
        /\ calls' = calls \cup {E.t}
        /\ late' = IF ended THEN late \cup {E.t} ELSE late
Return == /\ Is("ret")
          /\ CASE E.o[1] = "send" -> SendReturns(E.o[2], E.r = <<"ok">>, E.t \in late) /\ E.r \in {<<"ok">>, <<"err">>}
               [] E.o[1] = "close" -> CloseReturns /\ E.r \in {<<"ok">>, <<"err">>}
               [] E.o[1] = "error" -> ErrorReturns(E.r = <<"set">>, E.t \in late) /\ E.r \in {<<"set">>, <<"nil">>}
               [] E.o[1] = "new" -> IF E.r = <<"ok">> THEN (IF Cfg.open = "t" THEN phase = "opened" /\ UNCHANGED wvars
                                                            ELSE IF phase = "opened" THEN UNCHANGED wvars ELSE Open)
                                    ELSE E.r = <<"err">> /\ Cfg.dial # "ok" /\ DialFails
               [] OTHER -> FALSE
          /\ calls' = calls \ {E.t} /\ late' = late \ {E.t}
Callback == /\ Is("cb")
            /\ CASE E.o[1] = "open" -> Cfg.dial = "ok" /\ Open
                 [] E.o[1] = "msg" -> Delivered(E.o[2])
                 [] E.o[1] = "error" -> OnError(E.o[2] = "t")
                 [] E.o[1] = "close" -> OnClose
                 [] OTHER -> FALSE
            /\ UNCHANGED <<late, calls>>
\* without OnOpen other callbacks may come before NewHandler returns
Silent == l <= Len(Ev) /\ Cfg.open = "f" /\ phase = "new" /\ (E.e = "cb" \/ (E.e = "peer" /\ E.o = <<"freed">>)) /\ Open /\ UNCHANGED <<tid, l, late, calls>>
Peer == /\ Is("peer")
        /\ CASE E.o[1] = "send" -> PeerSends(E.o[2])
             [] E.o[1] \in {"end", "cut"} -> PeerEnds(E.o[1])
             [] E.o[1] = "got" -> Arrives(E.o[2])
             [] E.o[1] = "freed" -> Freed
             [] OTHER -> FALSE
        /\ UNCHANGED <<late, calls>>
Quiet == Is("quiet") /\ calls = {} /\ Settled(Cfg.error = "t", Cfg.close = "t", Cfg.msg = "t") /\ UNCHANGED <<wvars, late, calls>>
Next == Call \/ Return \/ Callback \/ Silent \/ Peer \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, wvars, late, calls>>)
=============================================================================
