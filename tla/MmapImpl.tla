------------------------------ MODULE MmapImpl ------------------------------
(* How Mmap shares its file (C20): Append reserves a range under the mutex and copies into it afterwards,
   byte by byte; WriteAt moves the append position behind it. Progs: process -> sequence of [op |-> "append" | "writeat", n, off].
   Whole = FALSE: the position is read and moved in two steps without the mutex. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Progs, Size, Whole
P == DOMAIN Progs
VARIABLES pc, idx, pos, mem, at, i, done
vars == <<pc, idx, pos, mem, at, i, done>>
Init == /\ pc = [p \in P |-> "next"] /\ idx = [p \in P |-> 1] /\ pos = 0 /\ mem = [x \in 0..(Size - 1) |-> <<>>]
        /\ at = [p \in P |-> 0] /\ i = [p \in P |-> 0] /\ done = {}
Op(p) == Progs[p][idx[p]]
Tag(p) == <<p, idx[p]>>
To(p, l) == pc' = [pc EXCEPT ![p] = l]
End(p) == idx' = [idx EXCEPT ![p] = @ + 1] /\ To(p, "next")
More(p) == pc[p] = "next" /\ idx[p] <= Len(Progs[p])
Fits(p) == IF Op(p).op = "append" THEN pos + Op(p).n <= Size ELSE Op(p).off + Op(p).n <= Size
Refuse(p) == More(p) /\ ~Fits(p) /\ End(p) /\ done' = done \cup {[t |-> Tag(p), ok |-> FALSE, a |-> 0, n |-> 0]} /\ UNCHANGED <<pos, mem, at, i>>
Reserve(p) == /\ More(p) /\ Fits(p) /\ (Whole \/ Op(p).op = "writeat")
              /\ IF Op(p).op = "append" THEN at' = [at EXCEPT ![p] = pos] /\ pos' = pos + Op(p).n
                 ELSE at' = [at EXCEPT ![p] = Op(p).off] /\ pos' = IF Op(p).off + Op(p).n > pos THEN Op(p).off + Op(p).n ELSE pos
              /\ i' = [i EXCEPT ![p] = 0] /\ To(p, "copy") /\ UNCHANGED <<idx, mem, done>>
Read(p) == More(p) /\ Fits(p) /\ ~Whole /\ Op(p).op = "append" /\ at' = [at EXCEPT ![p] = pos] /\ To(p, "move") /\ UNCHANGED <<idx, pos, mem, i, done>>
Move(p) == pc[p] = "move" /\ pos' = at[p] + Op(p).n /\ i' = [i EXCEPT ![p] = 0] /\ To(p, "copy") /\ UNCHANGED <<idx, mem, at, done>>
Copy(p) == /\ pc[p] = "copy"
           /\ IF i[p] < Op(p).n
              THEN mem' = [mem EXCEPT ![at[p] + i[p]] = Tag(p)] /\ i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, idx, done>>
              ELSE End(p) /\ done' = done \cup {[t |-> Tag(p), ok |-> TRUE, a |-> at[p], n |-> Op(p).n]} /\ UNCHANGED <<mem, i>>
           /\ UNCHANGED <<pos, at>>
Next == \E p \in P : Refuse(p) \/ Reserve(p) \/ Read(p) \/ Move(p) \/ Copy(p)
Spec == Init /\ [][Next]_vars
IsAppend(d) == Progs[d.t[1]][d.t[2]].op = "append"
Range(d) == {x \in 0..(Size - 1) : d.a <= x /\ x < d.a + d.n}
Disjoint == \A d, e \in done : d # e /\ d.ok /\ e.ok /\ IsAppend(d) /\ IsAppend(e) => Range(d) \cap Range(e) = {}
\* what a call wrote stays, until a WriteAt asks for its place
Asked(x) == \E p \in P : \E k \in 1..Len(Progs[p]) :
               (Progs[p][k].op = "writeat" /\ Progs[p][k].off <= x /\ x < Progs[p][k].off + Progs[p][k].n)
Stays == \A d \in done : (d.ok /\ IsAppend(d)) => (\A x \in Range(d) : (mem[x] = d.t \/ Asked(x)))
Behind == \A d \in done : d.ok => pos >= d.a + d.n
Inside == pos <= Size
\* no holes when only appends ran
Contiguous == (\A p \in P : pc[p] = "next" /\ \A k \in 1..Len(Progs[p]) : Progs[p][k].op = "append") =>
                 \A x \in 0..(Size - 1) : (x < pos) = (mem[x] # <<>>)
=============================================================================
