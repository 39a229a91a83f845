------------------------------ MODULE SeqModel ------------------------------
(* The exhaustive model of a component: every operation in every reachable state. TLC checks
   Inv in every state and StepOK on every transition, and prints every transition, which the
   driver then replays on the real code. *)
EXTENDS Component, Json
VARIABLES s, o, r

RECURSIVE DoFull(_, _)
DoFull(x, op) == UNION {IF IsCont(y.r) THEN DoFull(y.s, Tail(y.r)) ELSE {y} : y \in Do(x, op)}

Init == /\ \E c \in SeqCfgs : s \in InitStates(c)
        /\ o = <<>> /\ r = <<>>
Next == \E op \in Ops : \E x \in DoFull(s, op) : s' = x.s /\ o' = op /\ r' = x.r
View == s
Invariant == Inv(s)
Start == o = <<>> => PrintT(ToJson([i |-> s]))
Emit == /\ PrintT(ToJson([f |-> s, o |-> o', r |-> r', t |-> s']))
        /\ Assert(StepOK(s, o', r', s'), <<"StepOK fails", s, o', r', s'>>)
Check == Assert(StepOK(s, o', r', s'), <<"StepOK fails", s, o', r', s'>>)
=============================================================================
