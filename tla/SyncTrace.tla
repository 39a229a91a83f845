----------------------------- MODULE SyncTrace ------------------------------
(* Does every Sync call of an Mmap have its bytes written to the disk (C20)? The traces are the
   system calls of the code: events inv o (o = <<name>>), ret o r (r = <<off, len, ok>>) and
   sync (r = <<lo, hi>>: this part of the mapping was written back synchronously). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, done, dirty
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
N(i) == atoi(E.r[i])
\* done: what was written back since the call of a thread began; dirty: written ranges that need not be on disk
Init == tid \in 1..Len(Traces) /\ l = 1 /\ done = [t \in 0..9 |-> {}] /\ dirty = {}
T == E.t
RECURSIVE Covered(_, _)
Covered(lo, hi) == IF lo >= hi THEN TRUE
                   ELSE LET c == {x[2] : x \in {y \in done[T] : y[1] <= lo /\ y[2] > lo}} IN
                        IF c = {} THEN FALSE ELSE Covered(CHOOSE m \in c : \A k \in c : k <= m, hi)
Inv1 == Is("inv") /\ done' = [done EXCEPT ![T] = {}] /\ UNCHANGED dirty
Sync == Is("sync") /\ done' = [t \in DOMAIN done |-> done[t] \cup {<<N(1), N(2)>>}] /\ UNCHANGED dirty
Map == Is("map") /\ dirty' = {} /\ UNCHANGED done
Wrote == /\ Is("ret") /\ E.o[1] \in {"ap", "wa"} /\ UNCHANGED done
         /\ dirty' = IF E.r[3] = "true" THEN dirty \cup {<<N(1), N(1) + N(2)>>} ELSE dirty
WroteSync == /\ Is("ret") /\ E.o[1] \in {"aps", "was"} /\ UNCHANGED <<done, dirty>>
             /\ E.r[3] = "true" => Covered(N(1), N(1) + N(2))
             /\ Len(E.r) > 3 => E.r[4] = "t"   \* what was written back were the bytes of the call
Flushed == /\ Is("ret") /\ E.o[1] \in {"flush", "close"} /\ UNCHANGED done
           /\ E.r[3] = "true" => \A d \in dirty : Covered(d[1], d[2])
           /\ dirty' = {}
Unseen == Is("ret") /\ E.o[1] = "unseen" /\ UNCHANGED <<done, dirty>>
Next == Unseen \/ Inv1 \/ Sync \/ Map \/ Wrote \/ WroteSync \/ Flushed
Accept == (l > Len(Ev)) => PrintT(<<"ACC", tid>>)
Deepest == PrintT(<<"AT", tid, l, done, dirty>>)
=============================================================================
