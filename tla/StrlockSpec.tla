----------------------------- MODULE StrlockSpec ----------------------------
(* lock.Strlock (C08): a reader-writer lock per key. State: per key, whether a writer holds it
   and how many readers do. A try may fail when some key is held (keys share locks). With Now,
   only calls that return at once. *)
EXTENDS Common
CONSTANTS Keys, Readers, Now

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[w |-> [k \in Keys |-> FALSE], r |-> [k \in Keys |-> 0]]}
Free(s, k) == ~s.w[k] /\ s.r[k] = 0
Some(s) == \E k \in Keys : ~Free(s, k)
AnyW(s) == \E k \in Keys : s.w[k]
Ops == {<<f, k>> : f \in {"lock", "unlock", "munlock", "trylock", "rlock", "runlock", "mrunlock", "tryrlock"}, k \in Keys}
W(s, k) == [s EXCEPT !.w[k] = TRUE]
R(s, k) == [s EXCEPT !.r[k] = @ + 1]
Do(s, o) ==
  LET k == o[2] IN
  CASE o[1] = "lock" -> IF ~Free(s, k) \/ (Now /\ Some(s)) THEN {} ELSE {Res(W(s, k), <<>>)}
    [] o[1] = "trylock" -> (IF Free(s, k) THEN {Res(W(s, k), <<"t">>)} ELSE {})
                           \cup (IF Some(s) THEN {Res(s, <<"f">>)} ELSE {})
    [] o[1] = "rlock" -> IF s.w[k] \/ s.r[k] >= Readers \/ (Now /\ AnyW(s)) THEN {} ELSE {Res(R(s, k), <<>>)}
    [] o[1] = "tryrlock" -> IF s.r[k] >= Readers THEN {}     \* the bound of the model: not asked
                            ELSE (IF s.w[k] THEN {} ELSE {Res(R(s, k), <<"t">>)})
                                 \cup (IF AnyW(s) \/ (~Now /\ Some(s)) THEN {Res(s, <<"f">>)} ELSE {})
    [] o[1] \in {"unlock", "munlock"} -> IF s.w[k] THEN {Res([s EXCEPT !.w[k] = FALSE], <<>>)} ELSE {}
    [] o[1] \in {"runlock", "mrunlock"} -> IF s.r[k] > 0 THEN {Res([s EXCEPT !.r[k] = @ - 1], <<>>)} ELSE {}
    [] OTHER -> {}
Inv(s) == \A k \in Keys : s.w[k] => s.r[k] = 0
StepOK(s, o, r, t) ==
  /\ r = <<"f">> => s = t /\ Some(s)
  /\ o[1] \in {"lock", "trylock"} /\ r # <<"f">> => Free(s, o[2]) /\ t.w[o[2]]
  /\ o[1] \in {"rlock", "tryrlock"} /\ r # <<"f">> => ~s.w[o[2]] /\ t.r[o[2]] = s.r[o[2]] + 1
  /\ \A k \in Keys \ {o[2]} : s.w[k] = t.w[k] /\ s.r[k] = t.r[k]
=============================================================================
