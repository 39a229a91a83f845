---------------------------- MODULE KeystoreImpl ----------------------------
(* The algorithm of KeyStore.Write and Read (C23): two handles, each with its mutex, on one
   file; a Write goes through the file operations one by one, and the process may die between
   any two of them. Atomic: the content is written to a new file which then takes the name of
   the old one. Otherwise (as before its repair): truncate and write in place. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Atomic
\* Procs: process -> [h |-> handle, ops |-> sequence of "r" and values to write]
ASSUME Atomic \in BOOLEAN
P == DOMAIN Procs
Empty == [v |-> "none", full |-> TRUE]

VARIABLES pc, idx, lock, file, tmp, begun, last, dead, read, legal
vars == <<pc, idx, lock, file, tmp, begun, last, dead, read, legal>>
Handles == {Procs[p].h : p \in P}
Init == /\ pc = [p \in P |-> "next"] /\ idx = [p \in P |-> 0]
        /\ lock = [h \in Handles |-> "free"]
        /\ file = Empty
        /\ tmp = [p \in P |-> Empty]
        /\ begun = {}                      \* values of Writes begun and not returned
        /\ last = {"none"}                 \* what a Read that begins now may see
        /\ dead = FALSE
        /\ read = [p \in P |-> "nothing"]
        /\ legal = [p \in P |-> {}]        \* what the running Read may return
Op(p) == Procs[p].ops[idx[p]]
H(p) == Procs[p].h

Begin(p) == /\ pc[p] = "next" /\ idx[p] < Len(Procs[p].ops)
            /\ idx' = [idx EXCEPT ![p] = @ + 1]
            /\ pc' = [pc EXCEPT ![p] = "lock"]
            /\ LET o == Procs[p].ops[idx[p] + 1] IN
               IF o = "r" THEN /\ legal' = [legal EXCEPT ![p] = last \cup begun] /\ read' = [read EXCEPT ![p] = "nothing"] /\ UNCHANGED begun
                          ELSE /\ begun' = begun \cup {o} /\ legal' = [q \in P |-> legal[q] \cup {o}] /\ UNCHANGED read
            /\ UNCHANGED <<lock, file, tmp, last, dead>>
Lock(p) == /\ pc[p] = "lock" /\ lock[H(p)] = "free"
           /\ lock' = [lock EXCEPT ![H(p)] = p]
           /\ pc' = [pc EXCEPT ![p] = IF Op(p) = "r" THEN "stat" ELSE IF Atomic THEN "create" ELSE "truncate"]
           /\ UNCHANGED <<idx, file, tmp, begun, last, dead, read, legal>>
\* in place
Truncate(p) == pc[p] = "truncate" /\ file' = Empty /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<idx, lock, tmp, begun, last, dead, read, legal>>
Write(p) == pc[p] = "write" /\ file' = [v |-> Op(p), full |-> TRUE] /\ pc' = [pc EXCEPT ![p] = "ret"] /\ UNCHANGED <<idx, lock, tmp, begun, last, dead, read, legal>>
WriteSome(p) == pc[p] = "write" /\ file' = [v |-> Op(p), full |-> FALSE] /\ UNCHANGED <<pc, idx, lock, tmp, begun, last, dead, read, legal>>
\* through a new file
Create(p) == pc[p] = "create" /\ tmp' = [tmp EXCEPT ![p] = Empty] /\ pc' = [pc EXCEPT ![p] = "fill"] /\ UNCHANGED <<idx, lock, file, begun, last, dead, read, legal>>
Fill(p) == pc[p] = "fill" /\ \E f \in BOOLEAN : tmp' = [tmp EXCEPT ![p] = [v |-> Op(p), full |-> f]] /\ pc' = [pc EXCEPT ![p] = IF f THEN "rename" ELSE "fill"]
           /\ UNCHANGED <<idx, lock, file, begun, last, dead, read, legal>>
Rename(p) == pc[p] = "rename" /\ file' = tmp[p] /\ pc' = [pc EXCEPT ![p] = "ret"] /\ UNCHANGED <<idx, lock, tmp, begun, last, dead, read, legal>>
\* Read: an empty file is an error
Stat(p) == pc[p] = "stat" /\ (IF file = Empty THEN read' = [read EXCEPT ![p] = "none"] /\ pc' = [pc EXCEPT ![p] = "ret"]
                              ELSE UNCHANGED read /\ pc' = [pc EXCEPT ![p] = "get"])
           /\ UNCHANGED <<idx, lock, file, tmp, begun, last, dead, legal>>
Get(p) == pc[p] = "get" /\ read' = [read EXCEPT ![p] = IF file.full THEN file.v ELSE "part"] /\ pc' = [pc EXCEPT ![p] = "ret"]
          /\ UNCHANGED <<idx, lock, file, tmp, begun, last, dead, legal>>
Ret(p) == /\ pc[p] = "ret"
          /\ lock' = [lock EXCEPT ![H(p)] = "free"]
          /\ pc' = [pc EXCEPT ![p] = "next"]
          /\ IF Op(p) = "r" THEN UNCHANGED <<begun, last>>
             \* a later Read sees this Write or one that overlapped it
             ELSE begun' = begun \ {Op(p)} /\ last' = {Op(p)} \cup {x \in begun : x # Op(p)} \cup {file.v}
          /\ UNCHANGED <<idx, file, tmp, dead, read, legal>>
Die == ~dead /\ dead' = TRUE /\ UNCHANGED <<pc, idx, lock, file, tmp, begun, last, read, legal>>
Next == ~dead /\ (Die \/ \E p \in P : Begin(p) \/ Lock(p) \/ Truncate(p) \/ Write(p) \/ WriteSome(p) \/ Create(p) \/ Fill(p) \/ Rename(p) \/ Stat(p) \/ Get(p) \/ Ret(p))
Spec == Init /\ [][Next]_vars

\* a Read returns the content of a Write that is the last one or runs at the same time
ReadsWhole == \A p \in P : pc[p] = "ret" /\ Op(p) = "r" => read[p] \in legal[p]
\* after the process died the file has the last content or the one that was being written
Survives == dead => file.full /\ (file.v \in last \cup begun)
=============================================================================
