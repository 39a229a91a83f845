------------------------------- MODULE WsImpl -------------------------------
(* The algorithm of websocket.Handler (C28): the read loop, one goroutine per message, Send under
   its mutex, Close, and a connection whose frames arrive in order unless it is aborted. The
   variables of WsSpec go along: every visible step is one of its actions, otherwise bad.
   Keeps: OnError is given the recorded reason of the end (with FALSE, as before the repair, the
   last error of the loop, which has none when it ended because of a local Close); Locked:
   Send writes its frame under the mutex.                                                      *)
EXTENDS WsSpec, Sequences
CONSTANTS PeerMsgs, PeerEnd, Senders, Closers, Keeps, Locked
\* PeerMsgs: sequence of what the peer sends; PeerEnd: "end", "cut", "no"; Senders: task -> message
VARIABLES pp, wire, pc, rd, cur, msgs, err, dead, lock, out, cbs, bad
ivars == <<pp, wire, pc, rd, cur, msgs, err, dead, lock, out, cbs, bad>>
SN == DOMAIN Senders
Tasks == SN \cup Closers
Init == /\ WInit /\ bad = FALSE
        /\ pp = 0                         \* what the peer did
        /\ wire = <<>>                    \* frames on the way to the handler
        /\ pc = [t \in Tasks |-> "idle"]
        /\ rd = "wait" /\ cur = "none"    \* the read loop
        /\ msgs = {}                      \* goroutines about to call OnMessage
        /\ err = FALSE                    \* Error is set
        /\ dead = FALSE                   \* closed by us
        /\ lock = "free" /\ out = <<>>    \* frames on the way to the peer: halves of messages
        /\ cbs = {}                       \* OnError goroutine
Visible(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED wvars
Hidden == UNCHANGED wvars /\ UNCHANGED bad
New == phase = "new" /\ Visible(Open) /\ rd' = "test" /\ UNCHANGED <<pp, wire, pc, cur, msgs, err, dead, lock, out, cbs>>
\* peer
PeerSend == /\ phase = "opened" /\ pp < Len(PeerMsgs) /\ gone = "no"
            /\ pp' = pp + 1 /\ wire' = Append(wire, PeerMsgs[pp + 1])
            /\ Visible(PeerSends(PeerMsgs[pp + 1])) /\ UNCHANGED <<pc, rd, cur, msgs, err, dead, lock, out, cbs>>
PeerStop == /\ phase = "opened" /\ PeerEnd # "no" /\ gone = "no"
            /\ wire' = (IF PeerEnd = "cut" THEN <<>> ELSE wire)
            /\ Visible(PeerEnds(PeerEnd)) /\ UNCHANGED <<pp, pc, rd, cur, msgs, err, dead, lock, out, cbs>>
\* the peer gets a message when both halves of it come one after the other
PeerGets == /\ Len(out) >= 2 /\ gone # "cut"
            /\ out' = Tail(Tail(out))
            /\ IF out[1] = out[2] THEN Visible(Arrives(out[1])) ELSE bad' = TRUE /\ UNCHANGED wvars
            /\ UNCHANGED <<pp, wire, pc, rd, cur, msgs, err, dead, lock, cbs>>
\* the read loop
Test == rd = "test" /\ rd' = (IF err THEN "over" ELSE "receive") /\ Hidden /\ UNCHANGED <<pp, wire, pc, cur, msgs, err, dead, lock, out, cbs>>
Receive == /\ rd = "receive"
           /\ \/ /\ ~dead /\ wire # <<>>
                 /\ wire' = Tail(wire) /\ msgs' = msgs \cup {Head(wire)} /\ rd' = "test" /\ UNCHANGED <<err, cur>>
              \/ /\ dead \/ (wire = <<>> /\ gone # "no")
                 /\ rd' = "over" /\ err' = TRUE /\ cur' = "failed" /\ UNCHANGED <<wire, msgs>>
           /\ Hidden /\ UNCHANGED <<pp, pc, dead, lock, out, cbs>>
Over1 == rd = "over" /\ rd' = "close" /\ cbs' = cbs \cup {"error"} /\ Hidden /\ UNCHANGED <<pp, wire, pc, cur, msgs, err, dead, lock, out>>
Over2 == rd = "close" /\ rd' = "call" /\ dead' = TRUE /\ err' = TRUE /\ Visible(Freed) /\ UNCHANGED <<pp, wire, pc, cur, msgs, lock, out, cbs>>
Over3 == rd = "call" /\ rd' = "end" /\ Visible(OnClose) /\ UNCHANGED <<pp, wire, pc, cur, msgs, err, dead, lock, out, cbs>>
OnErr == /\ "error" \in cbs /\ cbs' = cbs \ {"error"}
         /\ Visible(OnError(Keeps \/ cur = "failed")) /\ UNCHANGED <<pp, wire, pc, rd, cur, msgs, err, dead, lock, out>>
OnMsg(i) == i \in msgs /\ msgs' = msgs \ {i} /\ Visible(Delivered(i)) /\ UNCHANGED <<pp, wire, pc, rd, cur, err, dead, lock, out, cbs>>
\* Send
Send(t) == pc[t] = "idle" /\ t \in SN /\ phase = "opened" /\ pc' = [pc EXCEPT ![t] = IF ended THEN "late" ELSE "check"] /\ Visible(SendCalled(Senders[t])) /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, lock, out, cbs>>
Check(t) == /\ t \in SN /\ pc[t] \in {"check", "late"}
            /\ IF err THEN pc' = [pc EXCEPT ![t] = "done"] /\ Visible(SendReturns(Senders[t], FALSE, pc[t] = "late"))
               ELSE pc' = [pc EXCEPT ![t] = IF pc[t] = "late" THEN "lock+" ELSE "lock"] /\ Hidden
            /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, lock, out, cbs>>
Lock(t) == t \in SN /\ pc[t] \in {"lock", "lock+"} /\ (Locked => lock = "free") /\ lock' = t
           /\ pc' = [pc EXCEPT ![t] = IF @ = "lock" THEN "write" ELSE "write+"] /\ Hidden /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, out, cbs>>
Half(t) == /\ t \in SN /\ pc[t] \in {"write", "write+"}
           /\ IF dead \/ gone = "cut" THEN pc' = [pc EXCEPT ![t] = IF @ = "write" THEN "fail" ELSE "fail+"] /\ UNCHANGED out
              ELSE out' = Append(out, Senders[t]) /\ pc' = [pc EXCEPT ![t] = IF @ = "write" THEN "more" ELSE "more+"]
           /\ Hidden /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, lock, cbs>>
More(t) == /\ t \in SN /\ pc[t] \in {"more", "more+"}
           /\ IF dead \/ gone = "cut" THEN pc' = [pc EXCEPT ![t] = IF @ = "more" THEN "fail" ELSE "fail+"] /\ UNCHANGED out
              ELSE out' = Append(out, Senders[t]) /\ pc' = [pc EXCEPT ![t] = IF @ = "more" THEN "ok" ELSE "ok+"]
           /\ Hidden /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, lock, cbs>>
Return(t) == /\ t \in SN /\ pc[t] \in {"ok", "ok+", "fail", "fail+"}
             /\ lock' = "free" /\ pc' = [pc EXCEPT ![t] = "done"]
             /\ Visible(SendReturns(Senders[t], pc[t] \in {"ok", "ok+"}, pc[t] \in {"ok+", "fail+"}))
             /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, out, cbs>>
\* Close
Close(t) == t \in Closers /\ pc[t] = "idle" /\ phase = "opened" /\ pc' = [pc EXCEPT ![t] = "set"] /\ Visible(CloseCalled) /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, lock, out, cbs>>
Set(t) == t \in Closers /\ pc[t] = "set" /\ pc' = [pc EXCEPT ![t] = "shut"] /\ err' = TRUE /\ Hidden /\ UNCHANGED <<pp, wire, rd, cur, msgs, dead, lock, out, cbs>>
Shut(t) == t \in Closers /\ pc[t] = "shut" /\ pc' = [pc EXCEPT ![t] = "back"] /\ dead' = TRUE /\ Visible(Freed) /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, lock, out, cbs>>
Back(t) == t \in Closers /\ pc[t] = "back" /\ pc' = [pc EXCEPT ![t] = "done"] /\ Visible(CloseReturns) /\ UNCHANGED <<pp, wire, rd, cur, msgs, err, dead, lock, out, cbs>>
Next == New \/ PeerSend \/ PeerStop \/ PeerGets \/ Test \/ Receive \/ Over1 \/ Over2 \/ Over3 \/ OnErr \/ (\E i \in msgs : OnMsg(i))
        \/ \E t \in Tasks : Send(t) \/ Check(t) \/ Lock(t) \/ Half(t) \/ More(t) \/ Return(t) \/ Close(t) \/ Set(t) \/ Shut(t) \/ Back(t)
Spec == Init /\ [][Next]_<<wvars, ivars>> /\ WF_<<wvars, ivars>>(Next)
AsSpecified == ~bad
AtRest == (~ENABLED Next) => Settled(TRUE, TRUE, TRUE)
Ends == (closing \/ gone # "no") ~> (phase = "opened" => onclose = 1 /\ onerr = 1)
=============================================================================
