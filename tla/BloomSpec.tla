------------------------------ MODULE BloomSpec -----------------------------
(* cache.BloomFilter (C17): what it must report. State: the items of the last n additions (the
   most recent last) and, for the saturation question, how many additions there were and the
   number of the last addition of each block added with addmany. Anything may be reported that
   was not added recently, as long as something was added at all. *)
EXTENDS Common
CONSTANTS Items, Sizes, Blocks

SeqCfgs == {[n |-> c] : c \in Sizes}
InitStates(c) == {[n |-> Num(c.n), q |-> <<>>, any |-> FALSE, tot |-> 0, blk |-> {}]}
Ops == {<<"add", k>> : k \in Items} \cup {<<"has", k>> : k \in Items}
Keep(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
Recent(s, k) == \E i \in 1..Len(s.q) : s.q[i] = k
Do(s, o) ==
  CASE o[1] = "add" -> {Res([s EXCEPT !.q = Keep(Append(@, o[2]), s.n), !.any = TRUE, !.tot = IF Blocks THEN @ + 1 ELSE 0], <<>>)}
    [] o[1] = "has" -> (IF s.any THEN {Res(s, <<"t">>)} ELSE {}) \cup (IF Recent(s, o[2]) THEN {} ELSE {Res(s, <<"f">>)})
    \* blocks of distinct items
    [] o[1] = "addmany" -> LET c == Num(o[3]) - Num(o[2]) + 1
                           IN {Res([s EXCEPT !.q = <<>>, !.any = TRUE, !.tot = @ + c, !.blk = @ \cup {<<o[2], o[3], s.tot + c>>}], <<>>)}
    [] o[1] = "most" -> LET b == CHOOSE b \in s.blk : b[1] = o[2] /\ b[2] = o[3]
                            later == s.tot - b[3]
                            c == Num(o[3]) - Num(o[2]) + 1
                        IN {y \in {Res(s, <<"t">>), Res(s, <<"f">>)} :
                              /\ c <= s.n /\ later + c <= s.n => y.r = <<"t">>
                              /\ later > 3 * s.n => y.r = <<"f">>}
    [] OTHER -> {}
Inv(s) == Len(s.q) <= s.n
StepOK(s, o, r, t) ==
  /\ o[1] = "add" => Recent(t, o[2]) /\ \A k \in Items : Recent(t, k) => k = o[2] \/ Recent(s, k)
  /\ o[1] = "has" => s = t /\ (Recent(s, o[2]) => r = <<"t">>) /\ (~s.any => r = <<"f">>)
=============================================================================
