------------------------------ MODULE LinTrace ------------------------------
(* Trace specification: is each recorded concurrent history a linearization of the component's
   specification? Events (records e, t, o, r, c):
     inv t o      thread t calls operation o
     ret t o r    the call returned r
     quiet r      nothing can run any more; r names the threads that are still blocked
     crash, livelock   never explained by the specification
   Between an inv and its ret the operation takes effect in one silent step Lin (or several,
   when the specification says so), taken as late as possible, that is only when some call
   returns or at quiescence. A call that is still pending at quiescence must be one that the
   specification lets wait. Many histories are checked in one run: tid picks one. *)
EXTENDS Component, Json, IOUtils
VARIABLES tid, l, s, pend

Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
More == l <= Len(Ev)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ s \in InitStates(Traces[tid].cfg)
        /\ pend = {}

Inv1 == /\ More /\ E.e = "inv"
        /\ pend' = pend \cup {[t |-> E.t, o |-> E.o, st |-> "inv", r |-> <<>>]}
        /\ l' = l + 1 /\ UNCHANGED <<tid, s>>

Lin == /\ More /\ E.e \in {"ret", "quiet"}
       /\ \E p \in pend :
            /\ p.st = "inv"
            /\ \E x \in Do(s, p.o) :
                 /\ s' = x.s
                 /\ pend' = (pend \ {p}) \cup
                      {IF IsCont(x.r) THEN [p EXCEPT !.o = Tail(x.r)]
                                      ELSE [p EXCEPT !.st = "lin", !.r = x.r]}
       /\ UNCHANGED <<tid, l>>

Ret == /\ More /\ E.e = "ret"
       /\ \E p \in pend : p.t = E.t /\ p.st = "lin" /\ p.r = E.r /\ pend' = pend \ {p}
       /\ l' = l + 1 /\ UNCHANGED <<tid, s>>

Quiet == /\ More /\ E.e = "quiet"
         /\ \A p \in pend : p.st = "inv" /\ Do(s, p.o) = {}
         /\ l' = l + 1 /\ UNCHANGED <<tid, s, pend>>

Next == Inv1 \/ Lin \/ Ret \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, s, pend>>)
SpecInv == Inv(s)
=============================================================================
