----------------------------- MODULE FastioImpl -----------------------------
(* Algorithm specification of fastio's writer (C18, C19), as repaired: the first caller writes
   to the file itself, later ones queue their data, and whoever writes to the file looks at the
   queue again after giving up the right to write. Recheck = FALSE is the algorithm with a
   single look, which leaves the last data in the queue.
   Each process runs its program, a sequence of "w" (Write) and "s" (WriteSync).           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Progs, QL, Recheck
Procs == DOMAIN Progs
Calls == UNION {{<<p, i>> : i \in 1..Len(Progs[p])} : p \in Procs}
(* --algorithm fastio
variables ch = <<>>, mu = "free", cc = 0, file = <<>>, written = {}, returned = {}, before = [c \in Calls |-> {}];
macro Enter() begin before[<<self, i>>] := returned; end macro;
process p \in Procs
variables i = 1, batch = <<>>, ok = FALSE;
begin
Loop:
  while i <= Len(Progs[self]) do
    Enter();
 Cc: cc := cc + 1;
    if cc <= 1 then
 Lock: await mu = "free"; mu := self;
 Take: while ch # <<>> do
        batch := ch; ch := <<>>;
 Put:   file := file \o batch; written := written \cup {batch[k] : k \in 1..Len(batch)};
       end while;
 Own:  file := Append(file, <<self, i>>); written := written \cup {<<self, i>>};
 Unlock: mu := "free";
 Again: if Recheck then goto Look; else goto Out; end if;
    else
 Enq:  await Len(ch) < QL; ch := Append(ch, <<self, i>>);
       if Progs[self][i] = "s" then
 SLock:  await mu = "free"; mu := self;
 STake:  while ch # <<>> do
          batch := ch; ch := <<>>;
 SPut:    file := file \o batch; written := written \cup {batch[k] : k \in 1..Len(batch)};
         end while;
 SUnl:   mu := "free";
       end if;
    end if;
 Look: if ch # <<>> then
 Try:   if mu = "free" then mu := self; else goto Wait; end if;
 Take2: while ch # <<>> do
         batch := ch; ch := <<>>;
 Put2:   file := file \o batch; written := written \cup {batch[k] : k \in 1..Len(batch)};
        end while;
 Unl2:  mu := "free";
        if Recheck then goto Look; end if;
       end if;
 Wait: await Progs[self][i] = "w" \/ <<self, i>> \in written;
 Out: cc := cc - 1; returned := returned \cup {<<self, i>>};
 Nxt: i := i + 1;
  end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "58a5c1c9" /\ chksum(tla) = "c77e8f4f")
VARIABLES pc, ch, mu, cc, file, written, returned, before, i, batch, ok

vars == << pc, ch, mu, cc, file, written, returned, before, i, batch, ok >>

ProcSet == (Procs)

Init == (* Global variables *)
        /\ ch = <<>>
        /\ mu = "free"
        /\ cc = 0
        /\ file = <<>>
        /\ written = {}
        /\ returned = {}
        /\ before = [c \in Calls |-> {}]
        (* Process p *)
        /\ i = [self \in Procs |-> 1]
        /\ batch = [self \in Procs |-> <<>>]
        /\ ok = [self \in Procs |-> FALSE]
        /\ pc = [self \in ProcSet |-> "Loop"]

Loop(self) == /\ pc[self] = "Loop"
              /\ IF i[self] <= Len(Progs[self])
                    THEN /\ before' = [before EXCEPT ![<<self, i[self]>>] = returned]
                         /\ pc' = [pc EXCEPT ![self] = "Cc"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                         /\ UNCHANGED before
              /\ UNCHANGED << ch, mu, cc, file, written, returned, i, batch, 
                              ok >>

Cc(self) == /\ pc[self] = "Cc"
            /\ cc' = cc + 1
            /\ IF cc' <= 1
                  THEN /\ pc' = [pc EXCEPT ![self] = "Lock"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Enq"]
            /\ UNCHANGED << ch, mu, file, written, returned, before, i, batch, 
                            ok >>

Lock(self) == /\ pc[self] = "Lock"
              /\ mu = "free"
              /\ mu' = self
              /\ pc' = [pc EXCEPT ![self] = "Take"]
              /\ UNCHANGED << ch, cc, file, written, returned, before, i, 
                              batch, ok >>

Take(self) == /\ pc[self] = "Take"
              /\ IF ch # <<>>
                    THEN /\ batch' = [batch EXCEPT ![self] = ch]
                         /\ ch' = <<>>
                         /\ pc' = [pc EXCEPT ![self] = "Put"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Own"]
                         /\ UNCHANGED << ch, batch >>
              /\ UNCHANGED << mu, cc, file, written, returned, before, i, ok >>

Put(self) == /\ pc[self] = "Put"
             /\ file' = file \o batch[self]
             /\ written' = (written \cup {batch[self][k] : k \in 1..Len(batch[self])})
             /\ pc' = [pc EXCEPT ![self] = "Take"]
             /\ UNCHANGED << ch, mu, cc, returned, before, i, batch, ok >>

Own(self) == /\ pc[self] = "Own"
             /\ file' = Append(file, <<self, i[self]>>)
             /\ written' = (written \cup {<<self, i[self]>>})
             /\ pc' = [pc EXCEPT ![self] = "Unlock"]
             /\ UNCHANGED << ch, mu, cc, returned, before, i, batch, ok >>

Unlock(self) == /\ pc[self] = "Unlock"
                /\ mu' = "free"
                /\ pc' = [pc EXCEPT ![self] = "Again"]
                /\ UNCHANGED << ch, cc, file, written, returned, before, i, 
                                batch, ok >>

Again(self) == /\ pc[self] = "Again"
               /\ IF Recheck
                     THEN /\ pc' = [pc EXCEPT ![self] = "Look"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Out"]
               /\ UNCHANGED << ch, mu, cc, file, written, returned, before, i, 
                               batch, ok >>

Enq(self) == /\ pc[self] = "Enq"
             /\ Len(ch) < QL
             /\ ch' = Append(ch, <<self, i[self]>>)
             /\ IF Progs[self][i[self]] = "s"
                   THEN /\ pc' = [pc EXCEPT ![self] = "SLock"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "Look"]
             /\ UNCHANGED << mu, cc, file, written, returned, before, i, batch, 
                             ok >>

SLock(self) == /\ pc[self] = "SLock"
               /\ mu = "free"
               /\ mu' = self
               /\ pc' = [pc EXCEPT ![self] = "STake"]
               /\ UNCHANGED << ch, cc, file, written, returned, before, i, 
                               batch, ok >>

STake(self) == /\ pc[self] = "STake"
               /\ IF ch # <<>>
                     THEN /\ batch' = [batch EXCEPT ![self] = ch]
                          /\ ch' = <<>>
                          /\ pc' = [pc EXCEPT ![self] = "SPut"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "SUnl"]
                          /\ UNCHANGED << ch, batch >>
               /\ UNCHANGED << mu, cc, file, written, returned, before, i, ok >>

SPut(self) == /\ pc[self] = "SPut"
              /\ file' = file \o batch[self]
              /\ written' = (written \cup {batch[self][k] : k \in 1..Len(batch[self])})
              /\ pc' = [pc EXCEPT ![self] = "STake"]
              /\ UNCHANGED << ch, mu, cc, returned, before, i, batch, ok >>

SUnl(self) == /\ pc[self] = "SUnl"
              /\ mu' = "free"
              /\ pc' = [pc EXCEPT ![self] = "Look"]
              /\ UNCHANGED << ch, cc, file, written, returned, before, i, 
                              batch, ok >>

Look(self) == /\ pc[self] = "Look"
              /\ IF ch # <<>>
                    THEN /\ pc' = [pc EXCEPT ![self] = "Try"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Wait"]
              /\ UNCHANGED << ch, mu, cc, file, written, returned, before, i, 
                              batch, ok >>

Try(self) == /\ pc[self] = "Try"
             /\ IF mu = "free"
                   THEN /\ mu' = self
                        /\ pc' = [pc EXCEPT ![self] = "Take2"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "Wait"]
                        /\ mu' = mu
             /\ UNCHANGED << ch, cc, file, written, returned, before, i, batch, 
                             ok >>

Take2(self) == /\ pc[self] = "Take2"
               /\ IF ch # <<>>
                     THEN /\ batch' = [batch EXCEPT ![self] = ch]
                          /\ ch' = <<>>
                          /\ pc' = [pc EXCEPT ![self] = "Put2"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Unl2"]
                          /\ UNCHANGED << ch, batch >>
               /\ UNCHANGED << mu, cc, file, written, returned, before, i, ok >>

Put2(self) == /\ pc[self] = "Put2"
              /\ file' = file \o batch[self]
              /\ written' = (written \cup {batch[self][k] : k \in 1..Len(batch[self])})
              /\ pc' = [pc EXCEPT ![self] = "Take2"]
              /\ UNCHANGED << ch, mu, cc, returned, before, i, batch, ok >>

Unl2(self) == /\ pc[self] = "Unl2"
              /\ mu' = "free"
              /\ IF Recheck
                    THEN /\ pc' = [pc EXCEPT ![self] = "Look"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Wait"]
              /\ UNCHANGED << ch, cc, file, written, returned, before, i, 
                              batch, ok >>

Wait(self) == /\ pc[self] = "Wait"
              /\ Progs[self][i[self]] = "w" \/ <<self, i[self]>> \in written
              /\ pc' = [pc EXCEPT ![self] = "Out"]
              /\ UNCHANGED << ch, mu, cc, file, written, returned, before, i, 
                              batch, ok >>

Out(self) == /\ pc[self] = "Out"
             /\ cc' = cc - 1
             /\ returned' = (returned \cup {<<self, i[self]>>})
             /\ pc' = [pc EXCEPT ![self] = "Nxt"]
             /\ UNCHANGED << ch, mu, file, written, before, i, batch, ok >>

Nxt(self) == /\ pc[self] = "Nxt"
             /\ i' = [i EXCEPT ![self] = i[self] + 1]
             /\ pc' = [pc EXCEPT ![self] = "Loop"]
             /\ UNCHANGED << ch, mu, cc, file, written, returned, before, 
                             batch, ok >>

p(self) == Loop(self) \/ Cc(self) \/ Lock(self) \/ Take(self) \/ Put(self)
              \/ Own(self) \/ Unlock(self) \/ Again(self) \/ Enq(self)
              \/ SLock(self) \/ STake(self) \/ SPut(self) \/ SUnl(self)
              \/ Look(self) \/ Try(self) \/ Take2(self) \/ Put2(self)
              \/ Unl2(self) \/ Wait(self) \/ Out(self) \/ Nxt(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Procs: p(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 

Pos(c) == CHOOSE k \in 1..Len(file) : file[k] = c
OnceEach == Len(file) = Cardinality({file[k] : k \in 1..Len(file)})
InOrder == \A c, d \in written : d \in before[c] => Pos(d) < Pos(c)
SyncThere == \A c \in returned : Progs[c[1]][c[2]] = "s" => c \in written
OneWriter == Cardinality({q \in Procs : pc[q] \in {"Take", "Put", "Own", "Unlock", "STake", "SPut", "SUnl", "Take2", "Put2", "Unl2"}}) <= 1
AtRest == (\A q \in Procs : pc[q] = "Done") => written = Calls
=============================================================================
