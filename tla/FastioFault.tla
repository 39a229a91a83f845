----------------------------- MODULE FastioFault ----------------------------
(* Are recorded executions of a fastio.File whose writes fail, or that is closed meanwhile,
   allowed (C18, C19)? Events: inv/ret of  w tok n got  and  ws tok n got , of  close  and
   content ; fault (a write to the file was made to fail); quiet. Every call writes the data of
   its own token tok; got is how much of it is in the content that the last event reports,
   which begins with the file's original content (cfg.orig runs).
   - The content is the data of calls, in an order in which a call that returned before
     another started comes first (Lin: as late as possible, a call takes its place in the
     file). Only the data of a call that was in progress at a fault may be incomplete.
   - WriteSync succeeds only when all of its data is there, at the offset it returns.
   - A Write that succeeds although its data is incomplete is lost, which a later error of
     another call has to report.
   - A call fails only after a fault that hit it, to report lost Writes, or because of Close.
   - No call is left blocked.                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, n, pend, closing, lost
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
Cont == Ev[Len(Ev)].r
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
IsW(o) == o[1] \in {"w", "ws"}
Got(o) == atoi(o[4])
Damaged(o) == Got(o) < atoi(o[3])
Run(o) == o[2] \o ":" \o o[4]
\* pend: calls [t, o, in, f]: whether the call has its place in the file; whether a fault (or a Close) happened since it began
\* lost: tokens of damaged Writes that succeeded, not reported so far. n: how much of Cont is explained.
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ n = atoi(Traces[tid].cfg.origruns) /\ pend = {} /\ lost = {} /\ closing = FALSE
CallW == /\ Is("inv") /\ IsW(E.o)
         /\ pend' = pend \cup {[t |-> E.t, o |-> E.o, in |-> FALSE, f |-> closing, rep |-> FALSE]}
         /\ UNCHANGED <<n, lost, closing>>
CallClose == /\ Is("inv") /\ E.o[1] = "close" /\ closing' = TRUE
             /\ pend' = {[p EXCEPT !.f = TRUE] : p \in pend} \cup {[t |-> E.t, o |-> E.o, in |-> FALSE, f |-> closing, rep |-> FALSE]}
             /\ lost' = {[x EXCEPT !.f = TRUE] : x \in lost} /\ UNCHANGED n
Fault == /\ Is("fault") /\ pend' = {[p EXCEPT !.f = TRUE] : p \in pend}
         /\ lost' = {[x EXCEPT !.f = TRUE] : x \in lost} /\ UNCHANGED <<n, closing>>
Lin == /\ l <= Len(Ev) /\ E.e \in {"ret", "quiet"} /\ n < Len(Cont)
       /\ \E p \in pend : /\ ~p.in /\ IsW(p.o) /\ Run(p.o) = Cont[n + 1]
                          /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.in = TRUE]}
       /\ n' = n + 1 /\ UNCHANGED <<tid, l, lost, closing>>
Placed(p) == IF IsW(p.o) THEN p.in \/ Got(p.o) = 0 ELSE TRUE
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + atoi(Traces[tid].cfg.lens[k])
Place(o) == CHOOSE i \in 1..Len(Cont) : Cont[i] = Run(o)
RetOK == /\ Is("ret") /\ IsW(E.o) /\ E.r[1] = "ok"
         /\ \E p \in pend :
              /\ p.t = E.t /\ Placed(p) /\ pend' = pend \ {p}
              /\ IF E.o[1] = "ws" THEN /\ ~Damaged(p.o) /\ E.r[3] = "t"
                                       /\ (Got(p.o) > 0 => atoi(E.r[2]) = Sum(Place(p.o) - 1))
                                       /\ UNCHANGED lost
                 ELSE /\ E.r[2] = E.o[3]
                      /\ lost' = IF Damaged(p.o) /\ ~p.rep THEN lost \cup {[tok |-> E.o[2], f |-> p.f]} ELSE lost
         /\ UNCHANGED <<n, closing>>
\* an error reports what is lost, also of Writes that are about to return
Known == {x \in lost : x.f}
Falling(p) == {q \in pend : q.t # p.t /\ q.o[1] = "w" /\ q.f /\ Damaged(q.o) /\ ~q.rep}
RetErr == /\ Is("ret") /\ E.r[1] = "err" /\ (IsW(E.o) \/ E.o[1] = "close")
          /\ \E p \in pend :
               /\ p.t = E.t /\ Placed(p)
               /\ \/ /\ (p.f \/ Known # {} \/ Falling(p) # {}) = TRUE
                     /\ \E X \in SUBSET Known : lost' = lost \ X
                     /\ \E R \in SUBSET Falling(p) : pend' = (pend \ ({p} \cup R)) \cup {[q EXCEPT !.rep = TRUE] : q \in R}
                  \/ p.f /\ lost' = lost /\ pend' = pend \ {p}
          /\ UNCHANGED <<n, closing>>
RetClose == /\ Is("ret") /\ E.o[1] = "close" /\ E.r[1] = "ok"
            /\ \E p \in pend : p.t = E.t /\ pend' = pend \ {p}
            /\ UNCHANGED <<n, closing, lost>>
Quiet == /\ Is("quiet") /\ pend = {} /\ UNCHANGED <<n, pend, lost, closing>>
Final == /\ Is("inv") /\ E.o[1] = "content" /\ UNCHANGED <<n, pend, lost, closing>>
FinalRet == /\ Is("ret") /\ E.o[1] = "content" /\ n = Len(Cont) /\ lost = {} /\ UNCHANGED <<n, pend, lost, closing>>
Next == CallW \/ CallClose \/ Fault \/ Lin \/ RetOK \/ RetErr \/ RetClose \/ Quiet \/ Final \/ FinalRet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, n, pend, lost, closing>>)
=============================================================================
