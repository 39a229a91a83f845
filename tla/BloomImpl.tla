------------------------------ MODULE BloomImpl -----------------------------
(* The algorithm of cache.BloomFilter (C17): a counter, three segments used in turn, a segment
   cleared two phases later. With Locked, Add runs under a write lock and Contains under a read
   lock (the code as repaired); without, as the code was: the counter is incremented, then for
   each bit the segment is looked up again (creating it, and clearing the one two phases back,
   when it is missing) and the word is read and written in two steps.
   Every item has two bits, all in one word. Each process adds its items in turn. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Adders, N, Locked    \* Adders: process -> sequence of items; N = expectedItems

Procs == DOMAIN Adders
None == {<<"none", 0>>}
VARIABLES cnt, seg, lock, pc, at, bit, phase, tmp, started, order, back
vars == <<cnt, seg, lock, pc, at, bit, phase, tmp, started, order, back>>
\* order[i]: the number of additions that had returned when that of item i began; back: the
\* items whose addition has returned
Items == UNION {{Adders[p][i] : i \in 1..Len(Adders[p])} : p \in Procs}
Bits(i) == {<<i, 1>>, <<i, 2>>}
F(c) == c % (3 * N + 1)
Ph(c) == IF F(c) < N THEN 0 ELSE IF F(c) < 2 * N THEN 1 ELSE 2
Prev(x) == (x + 2) % 3
Rm(x) == (x + 1) % 3
Init == /\ cnt = 0 /\ seg = [x \in 0..2 |-> IF x = 0 THEN {} ELSE None] /\ lock = "free"
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 1] /\ bit = [p \in Procs |-> 1]
        /\ phase = [p \in Procs |-> 0] /\ tmp = [p \in Procs |-> {}] /\ started = 0
        /\ order = [i \in Items |-> 1000] /\ back = {}
Item(p) == Adders[p][at[p]]
Begin(p) == /\ pc[p] = "idle" /\ at[p] <= Len(Adders[p])
            /\ pc' = [pc EXCEPT ![p] = IF Locked THEN "acq" ELSE "count"] /\ started' = started + 1
            /\ order' = [order EXCEPT ![Item(p)] = Cardinality(back)]
            /\ UNCHANGED <<cnt, seg, lock, at, bit, phase, tmp, back>>
Acq(p) == /\ pc[p] = "acq" /\ lock = "free" /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "count"]
          /\ UNCHANGED <<cnt, seg, at, bit, phase, tmp, started, order, back>>
Count(p) == /\ pc[p] = "count" /\ cnt' = cnt + 1 /\ pc' = [pc EXCEPT ![p] = "load"]
            /\ UNCHANGED <<seg, lock, at, bit, phase, tmp, started, order, back>>
Load(p) == /\ pc[p] = "load" /\ phase' = [phase EXCEPT ![p] = Ph(cnt)] /\ pc' = [pc EXCEPT ![p] = "rot"]
           /\ UNCHANGED <<cnt, seg, lock, at, bit, tmp, started, order, back>>
Rot(p) == /\ pc[p] = "rot"
          /\ seg' = IF seg[phase[p]] = None THEN [seg EXCEPT ![phase[p]] = {}, ![Rm(phase[p])] = None] ELSE seg
          /\ pc' = [pc EXCEPT ![p] = "read"]
          /\ UNCHANGED <<cnt, lock, at, bit, phase, tmp, started, order, back>>
Read(p) == /\ pc[p] = "read" /\ tmp' = [tmp EXCEPT ![p] = seg[phase[p]]] /\ pc' = [pc EXCEPT ![p] = "write"]
           /\ UNCHANGED <<cnt, seg, lock, at, bit, phase, started, order, back>>
Write(p) == /\ pc[p] = "write"
            /\ seg' = IF seg[phase[p]] = None THEN seg     \* the panic is swallowed
                      ELSE [seg EXCEPT ![phase[p]] = (IF tmp[p] = None THEN {} ELSE tmp[p]) \cup {<<Item(p), bit[p]>>}]
            /\ IF bit[p] = 1
               THEN bit' = [bit EXCEPT ![p] = 2] /\ pc' = [pc EXCEPT ![p] = IF Locked THEN "read" ELSE "load"]
               ELSE bit' = [bit EXCEPT ![p] = 1] /\ pc' = [pc EXCEPT ![p] = "done"]
            /\ UNCHANGED <<cnt, lock, at, phase, tmp, started, order, back>>
Done(p) == /\ pc[p] = "done" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ back' = back \cup {Item(p)}
           /\ lock' = IF Locked THEN "free" ELSE lock
           /\ UNCHANGED <<cnt, seg, bit, phase, tmp, started, order>>
Next == \E p \in Procs : Begin(p) \/ Acq(p) \/ Count(p) \/ Load(p) \/ Rot(p) \/ Read(p) \/ Write(p) \/ Done(p)
Spec == Init /\ [][Next]_vars
\* what Contains(i) would answer, whenever it may look
Reports(i) == LET x == Ph(cnt) IN \A b \in Bits(i) : b \in seg[x] \cup seg[Prev(x)]
CanLook == ~Locked \/ lock = "free"
NoFalseNegative == CanLook => \A i \in back : started - order[i] - 1 < N => Reports(i)
\* at most two segments, of at most 2 * N + 1 items: the filter does not saturate
Bounded == CanLook => Cardinality({x \in 0..2 : seg[x] # None}) <= 2
=============================================================================
