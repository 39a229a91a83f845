----------------------------- MODULE GoPoolImpl -----------------------------
(* The algorithm of pool/gopool/gopool.go, one label per shared access, checked against PoolSpec:
   every behaviour of the algorithm is a behaviour of PoolSpec (C02, exactly-once), and under fairness
   every submitted function is run (C01, C03). The constants Wake, IdleFirst and OwnExit select the
   code as it is (TRUE) or as it was before the three repairs of gopool (FALSE); with any of them FALSE
   TLC finds the defect that was repaired. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Progs,        \* client -> sequence of function ids, or "close"
          Min, Max, QL, Wake, IdleFirst, OwnExit

Clients == DOMAIN Progs
RangeOf(q) == {q[i] : i \in DOMAIN q}
Fns == UNION {RangeOf(Progs[c]) : c \in Clients} \ {"close"}
Lim == IF Max > Min THEN Max ELSE Min
W == 1..Cardinality(Fns)
None == "none"

(* --fair algorithm GoPool {
  variables queue = <<>>; tnum = 0; mux = FALSE;
            idle = <<>>;                       \* g.pool: idle core workers
            slots = 0;                         \* g.slots (before the repair: g.count)
            close = FALSE; closeflag = FALSE; cancelled = FALSE;
            wid = 0;
            task = [w \in W |-> None]; ended = [w \in W |-> FALSE];
            start = {};                        \* Go calls that won the TryLock: they start a dispatcher
            direct = {};                       \* functions started as plain goroutines
            st = [i \in Fns |-> "new"]; open = TRUE; limit = Lim;


  fair process (client \in {<<"c", c>> : c \in Clients}) variables k = 1; f = None; {
    c0: while (k <= Len(Progs[self[2]])) {
          f := Progs[self[2]][k]; k := k + 1;
          if (f = "close") {
            open := FALSE;
      c1:   if (~closeflag) {
              closeflag := TRUE;
      c2:     close := TRUE;
      c3:     cancelled := TRUE;
      c4:     while (OwnExit /\ idle # <<>>) { ended[Head(idle)] := TRUE; idle := Tail(idle); };
            };
          } else {
            st[f] := "sub";
      g1:   if (close) { direct := direct \cup {f}; }
            else {
      g2:     await Len(queue) < QL; queue := Append(queue, f);
      g3:     tnum := tnum + 1;
      g4:     if (~mux) { mux := TRUE; start := start \cup {f}; };
            };
          };
        };
  }

  fair process (disp \in {<<"d", i>> : i \in Fns}) variables df = None; more = FALSE; cnt = 0; {
    d0: await self[2] \in start;
    d1: while (TRUE) {
          if (queue = <<>>) { goto u1; }
          else { df := Head(queue); queue := Tail(queue); };
    d2:   if (close) { direct := direct \cup {df}; goto d5; };
    d3:   if (IdleFirst) {
            either { await slots < Lim; slots := slots + 1; }
            or { await cancelled; direct := direct \cup {df}; goto d5; };
    d4:     if (idle # <<>>) { task[Head(idle)] := df; idle := Tail(idle); }
            else { wid := wid + 1; task[wid] := df; };
            goto d5;
          } else {                             \* the original choice of a worker
            slots := slots + 1; cnt := slots;
    e1:     if (cnt > Min /\ cnt <= Lim) { wid := wid + 1; task[wid] := df; goto d5; }
            else if (wid < Min) { wid := wid + 1; task[wid] := df; goto d5; };
    e2:     await idle # <<>>; task[Head(idle)] := df; idle := Tail(idle);
          };
    d5:   tnum := tnum - 1;
    };
    u1: mux := FALSE;
    u2: if (Wake /\ tnum > 0) {
    u3:   if (~mux) { mux := TRUE; goto d1; };
        };
  }

  fair process (worker \in {<<"w", w>> : w \in W}) variables wf = None; {
    w1: await task[self[2]] # None \/ ended[self[2]] \/ (~OwnExit /\ cancelled /\ task[self[2]] # None);
        if (~OwnExit /\ cancelled) {           \* the original select may prefer ctx.Done
          either { await task[self[2]] # None; wf := task[self[2]]; task[self[2]] := None; }
          or { goto w9; };
        } else if (task[self[2]] # None) { wf := task[self[2]]; task[self[2]] := None; }
        else { goto w9; };
    w2: st[wf] := "run";
    w3: st[wf] := "done";
    p1: if (self[2] <= Min) { idle := Append(idle, self[2]); };
    p2: slots := slots - 1;
    p3: if (closeflag) {
    p4:   while (OwnExit /\ idle # <<>>) { ended[Head(idle)] := TRUE; idle := Tail(idle); };
        };
    p5: if (self[2] <= Min) { goto w1; };
    w9: skip;
  }

  fair process (plain \in {<<"p", i>> : i \in Fns}) {
    r0: await self[2] \in direct;
        st[self[2]] := "run";
    r1: st[self[2]] := "done";
  }
} *)
\* BEGIN TRANSLATION
VARIABLES pc, queue, tnum, mux, idle, slots, close, closeflag, cancelled, wid, 
          task, ended, start, direct, st, open, limit, k, f, df, more, cnt, 
          wf

vars == << pc, queue, tnum, mux, idle, slots, close, closeflag, cancelled, 
           wid, task, ended, start, direct, st, open, limit, k, f, df, more, 
           cnt, wf >>

ProcSet == ({<<"c", c>> : c \in Clients}) \cup ({<<"d", i>> : i \in Fns}) \cup ({<<"w", w>> : w \in W}) \cup ({<<"p", i>> : i \in Fns})

Init == (* Global variables *)
        /\ queue = <<>>
        /\ tnum = 0
        /\ mux = FALSE
        /\ idle = <<>>
        /\ slots = 0
        /\ close = FALSE
        /\ closeflag = FALSE
        /\ cancelled = FALSE
        /\ wid = 0
        /\ task = [w \in W |-> None]
        /\ ended = [w \in W |-> FALSE]
        /\ start = {}
        /\ direct = {}
        /\ st = [i \in Fns |-> "new"]
        /\ open = TRUE
        /\ limit = Lim
        (* Process client *)
        /\ k = [self \in {<<"c", c>> : c \in Clients} |-> 1]
        /\ f = [self \in {<<"c", c>> : c \in Clients} |-> None]
        (* Process disp *)
        /\ df = [self \in {<<"d", i>> : i \in Fns} |-> None]
        /\ more = [self \in {<<"d", i>> : i \in Fns} |-> FALSE]
        /\ cnt = [self \in {<<"d", i>> : i \in Fns} |-> 0]
        (* Process worker *)
        /\ wf = [self \in {<<"w", w>> : w \in W} |-> None]
        /\ pc = [self \in ProcSet |-> CASE self \in {<<"c", c>> : c \in Clients} -> "c0"
                                        [] self \in {<<"d", i>> : i \in Fns} -> "d0"
                                        [] self \in {<<"w", w>> : w \in W} -> "w1"
                                        [] self \in {<<"p", i>> : i \in Fns} -> "r0"]

c0(self) == /\ pc[self] = "c0"
            /\ IF k[self] <= Len(Progs[self[2]])
                  THEN /\ f' = [f EXCEPT ![self] = Progs[self[2]][k[self]]]
                       /\ k' = [k EXCEPT ![self] = k[self] + 1]
                       /\ IF f'[self] = "close"
                             THEN /\ open' = FALSE
                                  /\ pc' = [pc EXCEPT ![self] = "c1"]
                                  /\ st' = st
                             ELSE /\ st' = [st EXCEPT ![f'[self]] = "sub"]
                                  /\ pc' = [pc EXCEPT ![self] = "g1"]
                                  /\ open' = open
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << st, open, k, f >>
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, limit, 
                            df, more, cnt, wf >>

c1(self) == /\ pc[self] = "c1"
            /\ IF ~closeflag
                  THEN /\ closeflag' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = "c2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c0"]
                       /\ UNCHANGED closeflag
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, cancelled, 
                            wid, task, ended, start, direct, st, open, limit, 
                            k, f, df, more, cnt, wf >>

c2(self) == /\ pc[self] = "c2"
            /\ close' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "c3"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

c3(self) == /\ pc[self] = "c3"
            /\ cancelled' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "c4"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            wid, task, ended, start, direct, st, open, limit, 
                            k, f, df, more, cnt, wf >>

c4(self) == /\ pc[self] = "c4"
            /\ IF OwnExit /\ idle # <<>>
                  THEN /\ ended' = [ended EXCEPT ![Head(idle)] = TRUE]
                       /\ idle' = Tail(idle)
                       /\ pc' = [pc EXCEPT ![self] = "c4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c0"]
                       /\ UNCHANGED << idle, ended >>
            /\ UNCHANGED << queue, tnum, mux, slots, close, closeflag, 
                            cancelled, wid, task, start, direct, st, open, 
                            limit, k, f, df, more, cnt, wf >>

g1(self) == /\ pc[self] = "g1"
            /\ IF close
                  THEN /\ direct' = (direct \cup {f[self]})
                       /\ pc' = [pc EXCEPT ![self] = "c0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "g2"]
                       /\ UNCHANGED direct
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, st, open, 
                            limit, k, f, df, more, cnt, wf >>

g2(self) == /\ pc[self] = "g2"
            /\ Len(queue) < QL
            /\ queue' = Append(queue, f[self])
            /\ pc' = [pc EXCEPT ![self] = "g3"]
            /\ UNCHANGED << tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

g3(self) == /\ pc[self] = "g3"
            /\ tnum' = tnum + 1
            /\ pc' = [pc EXCEPT ![self] = "g4"]
            /\ UNCHANGED << queue, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

g4(self) == /\ pc[self] = "g4"
            /\ IF ~mux
                  THEN /\ mux' = TRUE
                       /\ start' = (start \cup {f[self]})
                  ELSE /\ TRUE
                       /\ UNCHANGED << mux, start >>
            /\ pc' = [pc EXCEPT ![self] = "c0"]
            /\ UNCHANGED << queue, tnum, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, direct, st, open, 
                            limit, k, f, df, more, cnt, wf >>

client(self) == c0(self) \/ c1(self) \/ c2(self) \/ c3(self) \/ c4(self)
                   \/ g1(self) \/ g2(self) \/ g3(self) \/ g4(self)

d0(self) == /\ pc[self] = "d0"
            /\ self[2] \in start
            /\ pc' = [pc EXCEPT ![self] = "d1"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

d1(self) == /\ pc[self] = "d1"
            /\ IF queue = <<>>
                  THEN /\ pc' = [pc EXCEPT ![self] = "u1"]
                       /\ UNCHANGED << queue, df >>
                  ELSE /\ df' = [df EXCEPT ![self] = Head(queue)]
                       /\ queue' = Tail(queue)
                       /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, more, cnt, wf >>

d2(self) == /\ pc[self] = "d2"
            /\ IF close
                  THEN /\ direct' = (direct \cup {df[self]})
                       /\ pc' = [pc EXCEPT ![self] = "d5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d3"]
                       /\ UNCHANGED direct
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, st, open, 
                            limit, k, f, df, more, cnt, wf >>

d3(self) == /\ pc[self] = "d3"
            /\ IF IdleFirst
                  THEN /\ \/ /\ slots < Lim
                             /\ slots' = slots + 1
                             /\ pc' = [pc EXCEPT ![self] = "d4"]
                             /\ UNCHANGED direct
                          \/ /\ cancelled
                             /\ direct' = (direct \cup {df[self]})
                             /\ pc' = [pc EXCEPT ![self] = "d5"]
                             /\ slots' = slots
                       /\ cnt' = cnt
                  ELSE /\ slots' = slots + 1
                       /\ cnt' = [cnt EXCEPT ![self] = slots']
                       /\ pc' = [pc EXCEPT ![self] = "e1"]
                       /\ UNCHANGED direct
            /\ UNCHANGED << queue, tnum, mux, idle, close, closeflag, 
                            cancelled, wid, task, ended, start, st, open, 
                            limit, k, f, df, more, wf >>

d4(self) == /\ pc[self] = "d4"
            /\ IF idle # <<>>
                  THEN /\ task' = [task EXCEPT ![Head(idle)] = df[self]]
                       /\ idle' = Tail(idle)
                       /\ wid' = wid
                  ELSE /\ wid' = wid + 1
                       /\ task' = [task EXCEPT ![wid'] = df[self]]
                       /\ idle' = idle
            /\ pc' = [pc EXCEPT ![self] = "d5"]
            /\ UNCHANGED << queue, tnum, mux, slots, close, closeflag, 
                            cancelled, ended, start, direct, st, open, limit, 
                            k, f, df, more, cnt, wf >>

e1(self) == /\ pc[self] = "e1"
            /\ IF cnt[self] > Min /\ cnt[self] <= Lim
                  THEN /\ wid' = wid + 1
                       /\ task' = [task EXCEPT ![wid'] = df[self]]
                       /\ pc' = [pc EXCEPT ![self] = "d5"]
                  ELSE /\ IF wid < Min
                             THEN /\ wid' = wid + 1
                                  /\ task' = [task EXCEPT ![wid'] = df[self]]
                                  /\ pc' = [pc EXCEPT ![self] = "d5"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "e2"]
                                  /\ UNCHANGED << wid, task >>
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, ended, start, direct, st, open, limit, 
                            k, f, df, more, cnt, wf >>

e2(self) == /\ pc[self] = "e2"
            /\ idle # <<>>
            /\ task' = [task EXCEPT ![Head(idle)] = df[self]]
            /\ idle' = Tail(idle)
            /\ pc' = [pc EXCEPT ![self] = "d5"]
            /\ UNCHANGED << queue, tnum, mux, slots, close, closeflag, 
                            cancelled, wid, ended, start, direct, st, open, 
                            limit, k, f, df, more, cnt, wf >>

d5(self) == /\ pc[self] = "d5"
            /\ tnum' = tnum - 1
            /\ pc' = [pc EXCEPT ![self] = "d1"]
            /\ UNCHANGED << queue, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

u1(self) == /\ pc[self] = "u1"
            /\ mux' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "u2"]
            /\ UNCHANGED << queue, tnum, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

u2(self) == /\ pc[self] = "u2"
            /\ IF Wake /\ tnum > 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "u3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

u3(self) == /\ pc[self] = "u3"
            /\ IF ~mux
                  THEN /\ mux' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = "d1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ mux' = mux
            /\ UNCHANGED << queue, tnum, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

disp(self) == d0(self) \/ d1(self) \/ d2(self) \/ d3(self) \/ d4(self)
                 \/ e1(self) \/ e2(self) \/ d5(self) \/ u1(self)
                 \/ u2(self) \/ u3(self)

w1(self) == /\ pc[self] = "w1"
            /\ task[self[2]] # None \/ ended[self[2]] \/ (~OwnExit /\ cancelled /\ task[self[2]] # None)
            /\ IF ~OwnExit /\ cancelled
                  THEN /\ \/ /\ task[self[2]] # None
                             /\ wf' = [wf EXCEPT ![self] = task[self[2]]]
                             /\ task' = [task EXCEPT ![self[2]] = None]
                             /\ pc' = [pc EXCEPT ![self] = "w2"]
                          \/ /\ pc' = [pc EXCEPT ![self] = "w9"]
                             /\ UNCHANGED <<task, wf>>
                  ELSE /\ IF task[self[2]] # None
                             THEN /\ wf' = [wf EXCEPT ![self] = task[self[2]]]
                                  /\ task' = [task EXCEPT ![self[2]] = None]
                                  /\ pc' = [pc EXCEPT ![self] = "w2"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "w9"]
                                  /\ UNCHANGED << task, wf >>
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, ended, start, direct, st, open, 
                            limit, k, f, df, more, cnt >>

w2(self) == /\ pc[self] = "w2"
            /\ st' = [st EXCEPT ![wf[self]] = "run"]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, open, 
                            limit, k, f, df, more, cnt, wf >>

w3(self) == /\ pc[self] = "w3"
            /\ st' = [st EXCEPT ![wf[self]] = "done"]
            /\ pc' = [pc EXCEPT ![self] = "p1"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, open, 
                            limit, k, f, df, more, cnt, wf >>

p1(self) == /\ pc[self] = "p1"
            /\ IF self[2] <= Min
                  THEN /\ idle' = Append(idle, self[2])
                  ELSE /\ TRUE
                       /\ idle' = idle
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << queue, tnum, mux, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

p2(self) == /\ pc[self] = "p2"
            /\ slots' = slots - 1
            /\ pc' = [pc EXCEPT ![self] = "p3"]
            /\ UNCHANGED << queue, tnum, mux, idle, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

p3(self) == /\ pc[self] = "p3"
            /\ IF closeflag
                  THEN /\ pc' = [pc EXCEPT ![self] = "p4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "p5"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

p4(self) == /\ pc[self] = "p4"
            /\ IF OwnExit /\ idle # <<>>
                  THEN /\ ended' = [ended EXCEPT ![Head(idle)] = TRUE]
                       /\ idle' = Tail(idle)
                       /\ pc' = [pc EXCEPT ![self] = "p4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "p5"]
                       /\ UNCHANGED << idle, ended >>
            /\ UNCHANGED << queue, tnum, mux, slots, close, closeflag, 
                            cancelled, wid, task, start, direct, st, open, 
                            limit, k, f, df, more, cnt, wf >>

p5(self) == /\ pc[self] = "p5"
            /\ IF self[2] <= Min
                  THEN /\ pc' = [pc EXCEPT ![self] = "w1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w9"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

w9(self) == /\ pc[self] = "w9"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, st, 
                            open, limit, k, f, df, more, cnt, wf >>

worker(self) == w1(self) \/ w2(self) \/ w3(self) \/ p1(self) \/ p2(self)
                   \/ p3(self) \/ p4(self) \/ p5(self) \/ w9(self)

r0(self) == /\ pc[self] = "r0"
            /\ self[2] \in direct
            /\ st' = [st EXCEPT ![self[2]] = "run"]
            /\ pc' = [pc EXCEPT ![self] = "r1"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, open, 
                            limit, k, f, df, more, cnt, wf >>

r1(self) == /\ pc[self] = "r1"
            /\ st' = [st EXCEPT ![self[2]] = "done"]
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << queue, tnum, mux, idle, slots, close, closeflag, 
                            cancelled, wid, task, ended, start, direct, open, 
                            limit, k, f, df, more, cnt, wf >>

plain(self) == r0(self) \/ r1(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in {<<"c", c>> : c \in Clients}: client(self))
           \/ (\E self \in {<<"d", i>> : i \in Fns}: disp(self))
           \/ (\E self \in {<<"w", w>> : w \in W}: worker(self))
           \/ (\E self \in {<<"p", i>> : i \in Fns}: plain(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)
        /\ \A self \in {<<"c", c>> : c \in Clients} : WF_vars(client(self))
        /\ \A self \in {<<"d", i>> : i \in Fns} : WF_vars(disp(self))
        /\ \A self \in {<<"w", w>> : w \in W} : WF_vars(worker(self))
        /\ \A self \in {<<"p", i>> : i \in Fns} : WF_vars(plain(self))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

PS == INSTANCE PoolSpec
Refines == PS!PSpec(Fns, Lim)
AllRun == PS!AllRun(Fns)
OneDispatcher == Cardinality({i \in Fns : pc[<<"d", i>>] \in {"d1", "d2", "d3", "d4", "e1", "e2", "d5", "u1"}}) <= 1
SlotsOK == IdleFirst => slots <= Lim
Quiesced == (\A c \in Clients : pc[<<"c", c>>] = "Done") /\ (\A i \in Fns : st[i] = "done")
AtRest == (~ENABLED Next) => PS!Settled
Counted == Quiesced /\ (\A i \in Fns : pc[<<"d", i>>] \in {"d0", "Done"}) => tnum = 0
=============================================================================
