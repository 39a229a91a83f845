---------------------------- MODULE KeystoreSpec ----------------------------
(* keystore.KeyStore (C23). State: of every store the content last written ("none" when there
   is none), and whether the handles are open: a crash during a Write ends the process that
   has them. Handles 1 and 2 are of one store, 3 of a store in the same directory and 4 of one
   with the same name in another. *)
EXTENDS Common
CONSTANTS Contents, Handles, Points

SeqCfgs == {[x |-> "0"]}
Stores == {"a", "b", "c"}
Of(h) == CASE h \in {"1", "2"} -> "a" [] h = "3" -> "b" [] OTHER -> "c"
InitStates(c) == {[v |-> [x \in Stores |-> "none"], up |-> TRUE]}
Ops == {<<"write", h, c>> : h \in Handles, c \in Contents} \cup {<<"read", h>> : h \in Handles} \cup {<<"reopen">>}
       \cup {<<"cwrite", h, c, k, p>> : h \in Handles, c \in Contents, k \in Points, p \in {"0"}}
Do(s, o) ==
  CASE o[1] = "reopen" -> {Res([s EXCEPT !.up = TRUE], <<"ok">>)}
    [] ~s.up -> {Res(s, <<"down">>)}
    [] o[1] = "write" -> {Res([s EXCEPT !.v[Of(o[2])] = o[3]], <<"ok">>)}
    [] o[1] = "read" -> {Res(s, IF s.v[Of(o[2])] = "none" THEN <<"err">> ELSE <<s.v[Of(o[2])]>>)}
       \* the process dies at the k-th file operation of the Write, if there are that many
    [] o[1] = "cwrite" -> {Res([s EXCEPT !.v[Of(o[2])] = o[3]], <<"ok">>)}
                          \cup {Res([v |-> [s.v EXCEPT ![Of(o[2])] = w], up |-> FALSE], <<"crashed">>) : w \in {s.v[Of(o[2])], o[3]}}
    [] OTHER -> {}
Inv(s) == \A x \in Stores : s.v[x] \in STRING
StepOK(s, o, r, t) ==
  /\ \A x \in Stores : t.v[x] # s.v[x] => o[1] \in {"write", "cwrite"} /\ x = Of(o[2]) /\ t.v[x] = o[3]
  /\ o[1] \in {"write", "cwrite"} /\ r = <<"ok">> => t.v[Of(o[2])] = o[3]
  /\ o[1] = "read" /\ s.up => r = (IF s.v[Of(o[2])] = "none" THEN <<"err">> ELSE <<s.v[Of(o[2])]>>)
=============================================================================
