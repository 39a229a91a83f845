------------------------------- MODULE Common -------------------------------
(* Helpers shared by the component specifications. Operations and results are sequences of
   strings: <<"put", "k1", "v1">> and <<"v0", "t">>. A component specification defines
     InitStates(c)   the initial states for a configuration c (a record of strings)
     Do(s, o)        the set of [s |-> next state, r |-> result] that operation o may have in
                     state s; empty when o has to wait (a blocking operation). A result that
                     starts with "@" means that the call goes on with another atomic step,
                     the operation that follows "@".
     Ops, SeqCfgs    the operations and configurations of the exhaustive model
     Inv(s)          state invariant
     StepOK(s,o,r,t) the property, stated over single steps independently of Do.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils

Num(x) == atoi(x)
RECURSIVE SortedSeq(_)
SortedSeq(X) == IF X = {} THEN <<>> ELSE LET k == CHOOSE k \in X : \A j \in X : Num(k) <= Num(j) IN <<k>> \o SortedSeq(X \ {k})
B(x) == IF x THEN "t" ELSE "f"
Range(q) == {q[i] : i \in 1..Len(q)}
Res(st, res) == [s |-> st, r |-> res]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* association lists: sequences of <<key, value>>
Idx(q, k) == IF \E i \in 1..Len(q) : q[i][1] = k THEN CHOOSE i \in 1..Len(q) : q[i][1] = k ELSE 0
HasK(q, k) == Idx(q, k) # 0
ValOf(q, k) == q[Idx(q, k)][2]
DelK(q, k) == IF HasK(q, k) THEN Without(q, Idx(q, k)) ELSE q
SetV(q, k, v) == [i \in 1..Len(q) |-> IF q[i][1] = k THEN <<k, v>> ELSE q[i]]
Pairs(q) == [i \in 1..Len(q) |-> q[i][1] \o "=" \o q[i][2]]
KeysOf(q) == {q[i][1] : i \in 1..Len(q)}
RECURSIVE DelAll(_, _)
DelAll(q, ks) == IF ks = <<>> THEN q ELSE DelAll(DelK(q, Head(ks)), Tail(ks))
IsCont(r) == Len(r) > 0 /\ r[1] = "@"
=============================================================================
