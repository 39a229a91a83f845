------------------------------ MODULE UuidImpl ------------------------------
(* Where a UUID's uniqueness comes from (C27): a counter, of which the format overwrites the upper Lost of Bits bits.
   N processes draw Draws ids each. Whole = FALSE: the counter is read and written in two steps. Lost too large: ids repeat. *)
EXTENDS Naturals, FiniteSets
CONSTANTS N, Draws, Bits, Lost, Whole
VARIABLES seq, pc, tmp, left, ids, twice
vars == <<seq, pc, tmp, left, ids, twice>>
P == 1..N
Init == seq \in 0..(2^Bits - 1) /\ pc = [p \in P |-> "next"] /\ tmp = [p \in P |-> 0] /\ left = [p \in P |-> Draws] /\ ids = {} /\ twice = FALSE
Inc(x) == (x + 1) % 2^Bits
Kept(x) == x % 2^(Bits - Lost)
Emit(p, x) == ids' = ids \cup {Kept(x)} /\ twice' = (twice \/ Kept(x) \in ids) /\ left' = [left EXCEPT ![p] = @ - 1]
Draw(p) == Whole /\ left[p] > 0 /\ seq' = Inc(seq) /\ Emit(p, Inc(seq)) /\ UNCHANGED <<pc, tmp>>
Load(p) == ~Whole /\ left[p] > 0 /\ pc[p] = "next" /\ tmp' = [tmp EXCEPT ![p] = seq] /\ pc' = [pc EXCEPT ![p] = "store"] /\ UNCHANGED <<seq, left, ids, twice>>
Store(p) == pc[p] = "store" /\ seq' = Inc(tmp[p]) /\ Emit(p, Inc(tmp[p])) /\ pc' = [pc EXCEPT ![p] = "next"] /\ UNCHANGED tmp
Next == \E p \in P : Draw(p) \/ Load(p) \/ Store(p)
Spec == Init /\ [][Next]_vars
Unique == ~twice
=============================================================================
