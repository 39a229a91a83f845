------------------------------- MODULE WsSpec -------------------------------
(* What a user of websocket.Handler sees (C28). State: whether the handler is open, the messages
   the peer sent and those OnMessage got, the Sends under way, successful and arrived at the
   peer, whether a local Close was called, whether the peer ended the connection (and how),
   whether the end was seen (a Close returned, OnError or OnClose ran), the calls of OnError
   and OnClose, and whether the connection was closed.                                                                            *)
EXTENDS Naturals, FiniteSets
VARIABLES phase, sent, got, sending, sentok, arrived, closing, gone, ended, onerr, onclose, freed
wvars == <<phase, sent, got, sending, sentok, arrived, closing, gone, ended, onerr, onclose, freed>>

WInit == phase = "new" /\ sent = {} /\ got = {} /\ sending = {} /\ sentok = {} /\ arrived = {} /\ closing = FALSE /\ gone = "no" /\ ended = FALSE /\ onerr = 0 /\ onclose = 0 /\ freed = FALSE
\* NewHandler: the connection is made, OnOpen runs, NewHandler returns; or it fails
DialFails == phase = "new" /\ phase' = "failed" /\ UNCHANGED <<sent, got, sending, sentok, arrived, closing, gone, ended, onerr, onclose, freed>>
Open == phase = "new" /\ phase' = "opened" /\ UNCHANGED <<sent, got, sending, sentok, arrived, closing, gone, ended, onerr, onclose, freed>>
\* the peer
PeerSends(i) == gone = "no" /\ i \notin sent /\ sent' = sent \cup {i} /\ UNCHANGED <<phase, got, sending, sentok, arrived, closing, gone, ended, onerr, onclose, freed>>
\* an orderly end ("end") comes after what was sent before it, an abort ("cut") may overtake it
PeerEnds(how) == gone' = (IF gone = "no" THEN how ELSE gone) /\ UNCHANGED <<phase, sent, got, sending, sentok, arrived, closing, ended, onerr, onclose, freed>>
Arrives(i) == i \in sending \cup sentok /\ i \notin arrived /\ arrived' = arrived \cup {i} /\ UNCHANGED <<phase, sent, got, sending, sentok, closing, gone, ended, onerr, onclose, freed>>
\* OnMessage gets each message at most once
Delivered(i) == phase = "opened" /\ i \in sent /\ i \notin got /\ got' = got \cup {i} /\ UNCHANGED <<phase, sent, sending, sentok, arrived, closing, gone, ended, onerr, onclose, freed>>
Over == closing \/ gone # "no"
SendCalled(i) == i \notin sending \cup sentok /\ sending' = sending \cup {i} /\ UNCHANGED <<phase, sent, got, sentok, arrived, closing, gone, ended, onerr, onclose, freed>>
\* late: the end had been seen before the call
SendReturns(i, ok, late) == /\ i \in sending /\ sending' = sending \ {i}
                            /\ ok => ~late
                            /\ ~ok => Over
                            /\ sentok' = IF ok THEN sentok \cup {i} ELSE sentok
                            /\ UNCHANGED <<phase, sent, got, arrived, closing, gone, ended, onerr, onclose, freed>>
CloseCalled == closing' = TRUE /\ UNCHANGED <<phase, sent, got, sending, sentok, arrived, gone, ended, onerr, onclose, freed>>
CloseReturns == ended' = TRUE /\ UNCHANGED <<phase, sent, got, sending, sentok, arrived, closing, gone, onerr, onclose, freed>>
ErrorReturns(set, late) == (late => set) /\ (set => Over) /\ UNCHANGED wvars
OnError(set) == phase = "opened" /\ Over /\ set /\ onerr = 0 /\ onerr' = 1 /\ ended' = TRUE /\ UNCHANGED <<phase, sent, got, sending, sentok, arrived, closing, gone, onclose, freed>>
OnClose == phase = "opened" /\ Over /\ onclose = 0 /\ onclose' = 1 /\ ended' = TRUE /\ UNCHANGED <<phase, sent, got, sending, sentok, arrived, closing, gone, onerr, freed>>
\* the connection is given back to the system (the peer can tell), not before its end
Freed == phase = "opened" /\ Over /\ freed' = TRUE /\ UNCHANGED <<phase, sent, got, sending, sentok, arrived, closing, gone, ended, onerr, onclose>>
\* when nothing can happen any more; cbs: the callbacks the user gave
Settled(hasErr, hasClose, hasMsg) ==
  /\ sending = {}
  /\ phase = "failed" => got = {} /\ onerr = 0 /\ onclose = 0
  /\ phase = "opened" =>
       /\ Over => (hasErr => onerr = 1) /\ (hasClose => onclose = 1)
       /\ Over /\ gone # "cut" => freed
       /\ ~closing /\ gone # "cut" /\ hasMsg => got = sent
       /\ gone = "no" /\ (~closing \/ got = sent) => sentok \subseteq arrived
=============================================================================
