----------------------------- MODULE HttpCases ------------------------------
(* Writes the requests and reply plans of HttpSpec for the driver. *)
EXTENDS HttpSpec, TLC, Json, IOUtils, SequencesExt
VARIABLE x
ASSUME JsonSerialize(IOEnv.CASES, [plans |-> SetToSeq({[plan |-> p, whole |-> Whole(p)] : p \in Plans}), requests |-> SetToSeq(Requests)])
Init == x = 0 /\ HInit({})
Next == FALSE /\ UNCHANGED <<x, hvars>>
=============================================================================
