----------------------------- MODULE AwaitTrace -----------------------------
(* Are recorded executions of lock.Await / lock.FastAwait behaviours of the rendezvous that
   C04-C06 describe? A timed specification: every event carries the (virtual) clock in
   microseconds. Events (one call at a time per thread t):
     wait id T | waitc id T ctx | swait id T    ->  ok v | timeout | cancel    (T in us, <= 0: none)
     put id v  | close id                       ->  ok | err
     has id -> t | f        cancel ctx        deadline ctx T        sleep ms        wgwait
   A signal (put, close) is delivered to at most one wait, one of the same id that it overlaps.
   When the trace is punctual (the clock only advances when nothing can run) the deadlines of
   Late hold at every event: what has to happen has happened before the clock passes them.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, ws, sg, cx, done, hs, oth
vars == <<tid, l, ws, sg, cx, done, hs, oth>>

Traces == JsonDeserialize(IOEnv.TRACES)
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
E == Ev[l]
N(x) == atoi(x)
Retry == N(Cfg.retry) * 1000      \* how long a signal waits for its waiter
Margin == N(Cfg.margin) * 1000    \* "well within"
Punctual == Cfg.punctual = "1"
Once == Cfg.kind = "fast"         \* FastAwait: a signal for a completed id gives up
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ ws = {} /\ sg = {} /\ cx = {} /\ done = {} /\ hs = {} /\ oth = {}

\* ---- deadlines
\* the signal can only be meant for this wait, and was called in time
Meant(s, w) == /\ s.id = w.id /\ s.ov = {w.n} /\ ~s.used /\ s.st # "err"
               /\ s.c0 >= w.c0 - (Retry - Margin)
Late(now) ==
  \/ \E w \in ws :
       \/ w.T > 0 /\ now > w.c0 + w.T
       \/ \E c \in cx : c[1] = w.ctx /\ now > Max(c[2], w.c0)
       \/ \E s \in sg : Meant(s, w) /\ now > Max(s.c0, w.c0) + Margin
  \/ \E s \in sg : s.st = "run" /\ now > s.c0 + (IF Once /\ s.gone THEN Retry - Margin ELSE Retry + Margin)
  \/ \E h \in hs : now > h.c0
\* of several signals to one wait of a FastAwait, the delivered one may report an error as well
Rival(s) == Once /\ \E x \in sg : x.n # s.n /\ x.id = s.id /\ x.ov \cap s.ov # {}
Deliverable(s, w) == s.id = w.id /\ w.n \in s.ov /\ ~s.used /\ (s.st # "err" \/ Rival(s))
OnTime == Punctual => ~Late(E.c)

Is(e) == l <= Len(Ev) /\ E.e = e /\ OnTime /\ l' = l + 1 /\ UNCHANGED tid

\* ---- waits
WaitOp == {"wait", "waitc", "swait"}
CallWait ==
  /\ Is("inv") /\ E.o[1] \in WaitOp
  /\ LET id == E.o[2] IN
     /\ ws' = ws \cup {[n |-> l, t |-> E.t, id |-> id, c0 |-> E.c, T |-> N(E.o[3]), ctx |-> IF E.o[1] = "waitc" THEN E.o[4] ELSE ""]}
     /\ sg' = {IF s.id = id /\ s.st = "run" THEN [s EXCEPT !.ov = @ \cup {l}] ELSE s : s \in sg}
     /\ hs' = {IF h.id = id THEN [h EXCEPT !.may = TRUE] ELSE h : h \in hs}
  /\ UNCHANGED <<cx, done, oth>>
EndWait(w) == ws' = ws \ {w} /\ done' = done \cup {w.id} /\ UNCHANGED <<cx, hs, oth>>
Delivered ==        \* by a signal of the same id that nobody else got
  /\ Is("ret") /\ Len(E.r) = 2 /\ E.r[1] = "ok"
  /\ \E w \in ws : /\ w.t = E.t
                   /\ \E s \in sg : /\ Deliverable(s, w) /\ s.v = E.r[2]
                                    /\ sg' = (sg \ {s}) \cup {[s EXCEPT !.used = TRUE]}
                   /\ EndWait(w)
TimedOut ==         \* never early
  /\ Is("ret") /\ E.r = <<"timeout">>
  /\ \E w \in ws : w.t = E.t /\ w.T > 0 /\ E.c >= w.c0 + w.T /\ EndWait(w)
  /\ UNCHANGED sg
Cancelled ==
  /\ Is("ret") /\ E.r = <<"cancel">>
  /\ \E w \in ws : w.t = E.t /\ (\E c \in cx : c[1] = w.ctx /\ E.c >= c[2]) /\ EndWait(w)
  /\ UNCHANGED sg

\* ---- signals
\* an Await whose registration an earlier signal took is out of reach of later ones: they wait for the next wait of the id
Taken(w) == ~Once /\ \E s \in sg : s.took /\ s.ov = {w.n}
CallSignal ==
  /\ Is("inv") /\ E.o[1] \in {"put", "close"}
  /\ LET id == E.o[2] IN
     sg' = sg \cup {[n |-> l, t |-> E.t, id |-> id, v |-> IF E.o[1] = "put" THEN E.o[3] ELSE "-", c0 |-> E.c, st |-> "run",
                     used |-> FALSE, took |-> FALSE, ov |-> {w.n : w \in {x \in ws : x.id = id /\ ~Taken(x)}}, gone |-> id \in done]}
  /\ UNCHANGED <<ws, cx, done, hs, oth>>
SignalReturns ==
  /\ Is("ret") /\ E.r \in {<<"ok">>, <<"err">>}
  /\ \E s \in sg : /\ s.t = E.t /\ s.st = "run"
                   /\ E.r[1] = "err" => (~s.used \/ Rival(s)) /\ s.ov # {}
                   \* it gives up only after its retry period
                   /\ s.ov = {} => (E.c >= s.c0 + Retry - Margin \/ (Once /\ s.id \in done))
                   /\ sg' = (sg \ {s}) \cup {[s EXCEPT !.st = E.r[1], !.took = (E.r[1] = "ok" /\ E.c < s.c0 + Retry - Margin)]}
  /\ UNCHANGED <<ws, cx, done, hs, oth>>

\* ---- the rest
CallHas == /\ Is("inv") /\ E.o[1] = "has"
           /\ hs' = hs \cup {[t |-> E.t, n |-> l, id |-> E.o[2], may |-> \E w \in ws : w.id = E.o[2], c0 |-> E.c]}
           /\ UNCHANGED <<ws, sg, cx, done, oth>>
\* a SyncWait has registered when its WaitGroup is done; it is registered until something ends it
Counted(j) == Ev[j].e = "inv" /\ Ev[j].o[1] = "swait" /\ Len(Ev[j].o) = 3
Known(h) == /\ \E j \in 1..(h.n - 1) : Ev[j].e = "ret" /\ Ev[j].o[1] = "wgwait"
            /\ \E w \in ws : /\ w.id = h.id /\ Counted(w.n) /\ w.n < h.n
                             /\ w.T <= 0 \/ E.c < w.c0 + w.T
                             /\ ~\E s \in sg : s.id = h.id /\ w.n \in s.ov
\* it is done when the last of them has begun, not when it ends
GroupDone == LET b == {Ev[j].c : j \in {i \in 1..(l - 1) : Counted(i) \/ (Ev[i].e = "inv" /\ Ev[i].t = E.t)}}
             IN /\ ~\E j \in l..Len(Ev) : Counted(j)
                /\ Punctual => \E c \in b : c = E.c
HasReturns == /\ Is("ret") /\ E.r \in {<<"t">>, <<"f">>}
              /\ \E h \in hs : /\ h.t = E.t /\ (E.r[1] = "t" => h.may) /\ (E.r[1] = "f" => ~Known(h)) /\ hs' = hs \ {h}
              /\ UNCHANGED <<ws, sg, cx, done, oth>>
CallOther == /\ Is("inv") /\ E.o[1] \in {"cancel", "deadline", "sleep", "wgwait"}
             /\ cx' = CASE E.o[1] = "cancel" -> cx \cup {<<E.o[2], E.c>>}
                        [] E.o[1] = "deadline" -> cx \cup {<<E.o[2], E.c + N(E.o[3])>>}
                        [] OTHER -> cx
             /\ oth' = oth \cup {E.t}
             /\ UNCHANGED <<ws, sg, done, hs>>
OtherReturns == /\ Is("ret") /\ E.r = <<>> /\ oth' = oth \ {E.t} /\ E.t \in oth
                /\ E.o[1] = "wgwait" => GroupDone
                /\ UNCHANGED <<ws, sg, cx, done, hs>>
Quiet == /\ Is("quiet")
         /\ hs = {} /\ oth = {}
         /\ \A s \in sg : s.st # "run"
         /\ \A w \in ws : /\ w.T <= 0 /\ ~\E c \in cx : c[1] = w.ctx
                          /\ Punctual => ~\E s \in sg : Meant(s, w)
         /\ UNCHANGED <<ws, sg, cx, done, hs, oth>>

Next == CallWait \/ Delivered \/ TimedOut \/ Cancelled \/ CallSignal \/ SignalReturns \/ CallHas \/ HasReturns \/ CallOther \/ OtherReturns \/ Quiet
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, ws, sg, cx, hs>>)
=============================================================================
