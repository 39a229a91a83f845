----------------------------- MODULE NumlockSpec ----------------------------
(* lock.Numlock (C07): a mutex per key. A try may fail when some key is held (keys share
   mutexes). State: which keys are held. With Now, only calls that return at once: locking a
   key while none is held. *)
EXTENDS Common
CONSTANTS Keys, Now

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[h |-> [k \in Keys |-> FALSE]]}
Some(s) == \E k \in Keys : s.h[k]
Ops == {<<f, k>> : f \in {"lock", "unlock", "munlock", "trylock"}, k \in Keys}
Take1(s, k) == [s EXCEPT !.h[k] = TRUE]
Do(s, o) ==
  CASE o[1] = "lock" -> IF s.h[o[2]] \/ (Now /\ Some(s)) THEN {} ELSE {Res(Take1(s, o[2]), <<>>)}
    [] o[1] = "trylock" -> (IF s.h[o[2]] THEN {} ELSE {Res(Take1(s, o[2]), <<"t">>)})
                           \cup (IF Some(s) THEN {Res(s, <<"f">>)} ELSE {})
    [] o[1] \in {"unlock", "munlock"} -> IF s.h[o[2]] THEN {Res([s EXCEPT !.h[o[2]] = FALSE], <<>>)} ELSE {}
    [] OTHER -> {}
Inv(s) == TRUE
StepOK(s, o, r, t) ==
  /\ o[1] = "lock" \/ r = <<"t">> => ~s.h[o[2]] /\ t.h[o[2]]
  /\ r = <<"f">> => s = t /\ Some(s)
  /\ \A k \in Keys \ {o[2]} : s.h[k] = t.h[k]
=============================================================================
