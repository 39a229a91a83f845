------------------------------ MODULE HttpImpl ------------------------------
(* The algorithm of Post3 (C30): a fresh connection per call, one request, the reply read to its
   end. The server of a call reads the request and sends some of the parts of its reply. The
   variables of HttpSpec go along: every visible step is one of its actions, otherwise bad.
   Retry: a failed exchange is tried again; Trusts: what was read before a failure is returned
   as the reply.                                                                             *)
EXTENDS HttpSpec
CONSTANTS Calls, Parts, Retry, Trusts
\* Calls: tag -> [unread |-> BOOLEAN, sends |-> number of parts sent]
Tg == DOMAIN Calls
VARIABLES pc, tries, wire, srv, got, bad
ivars == <<pc, tries, wire, srv, got, bad>>
Init == HInit(Tg) /\ bad = FALSE /\ pc = [t \in Tg |-> "idle"] /\ tries = [t \in Tg |-> 0] /\ wire = [t \in Tg |-> <<>>] /\ srv = [t \in Tg |-> "off"] /\ got = [t \in Tg |-> 0]
Visible(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED hvars
Hidden == UNCHANGED hvars /\ UNCHANGED bad
WholeReply(t) == ~Calls[t].unread /\ Calls[t].sends = Parts
Start(t) == pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "dial"] /\ Visible(Begin(t, [body |-> "b", close |-> FALSE, hdr |-> "", cookie |-> "", way |-> "ok"])) /\ UNCHANGED <<tries, wire, srv, got>>
Dial(t) == /\ pc[t] = "dial" /\ pc' = [pc EXCEPT ![t] = "send"] /\ tries' = [tries EXCEPT ![t] = @ + 1] /\ srv' = [srv EXCEPT ![t] = "accepted"]
           /\ wire' = [wire EXCEPT ![t] = <<>>] /\ got' = [got EXCEPT ![t] = 0] /\ Hidden
Send(t) == pc[t] = "send" /\ pc' = [pc EXCEPT ![t] = "read"] /\ Hidden /\ UNCHANGED <<tries, wire, srv, got>>
Drop(t) == srv[t] = "accepted" /\ Calls[t].unread /\ srv' = [srv EXCEPT ![t] = "gone"] /\ (IF reply[t] = <<>> THEN Visible(Answers(t, FALSE, "")) ELSE Hidden) /\ UNCHANGED <<pc, tries, wire, got>>
Serve(t) == srv[t] = "accepted" /\ ~Calls[t].unread /\ pc[t] = "read" /\ srv' = [srv EXCEPT ![t] = "answer"] /\ Visible(Arrives(t, "POST", "b", TRUE, "", "")) /\ UNCHANGED <<pc, tries, wire, got>>
Answer(t) == srv[t] = "answer" /\ srv' = [srv EXCEPT ![t] = "sending"] /\ (IF reply[t] = <<>> THEN Visible(Answers(t, WholeReply(t), IF WholeReply(t) THEN "r" ELSE "")) ELSE Hidden) /\ UNCHANGED <<pc, tries, wire, got>>
Part(t) == /\ srv[t] = "sending"
           /\ IF Len(wire[t]) + got[t] < Calls[t].sends THEN wire' = [wire EXCEPT ![t] = Append(@, "part")] /\ UNCHANGED srv
              ELSE srv' = [srv EXCEPT ![t] = "gone"] /\ UNCHANGED wire
           /\ Hidden /\ UNCHANGED <<pc, tries, got>>
Read(t) == pc[t] = "read" /\ wire[t] # <<>> /\ wire' = [wire EXCEPT ![t] = Tail(@)] /\ got' = [got EXCEPT ![t] = @ + 1] /\ Hidden /\ UNCHANGED <<pc, tries, srv>>
Good(t) == pc[t] = "read" /\ got[t] = Parts /\ pc' = [pc EXCEPT ![t] = "done"] /\ Visible(Returns(t, TRUE, "r")) /\ UNCHANGED <<tries, wire, srv, got>>
Broken(t) == /\ pc[t] = "read" /\ got[t] < Parts /\ wire[t] = <<>> /\ srv[t] = "gone"
             /\ IF Retry /\ tries[t] < 2 THEN pc' = [pc EXCEPT ![t] = "dial"] /\ Hidden
                ELSE pc' = [pc EXCEPT ![t] = "done"] /\ Visible(IF Trusts /\ got[t] > 0 THEN Returns(t, TRUE, "part") ELSE Returns(t, FALSE, ""))
             /\ UNCHANGED <<tries, wire, srv, got>>
Next == \E t \in Tg : Start(t) \/ Dial(t) \/ Send(t) \/ Drop(t) \/ Serve(t) \/ Answer(t) \/ Part(t) \/ Read(t) \/ Good(t) \/ Broken(t)
Spec == Init /\ [][Next]_<<hvars, ivars>> /\ WF_<<hvars, ivars>>(Next)
AsSpecified == ~bad
AllReturn == \A t \in Tg : <>(t \in done \/ bad)
=============================================================================
