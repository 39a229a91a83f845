------------------------------ MODULE ByteRuns ------------------------------
(* File contents as sequences of runs <<token, length>>: length bytes that carry the token. *)
EXTENDS Naturals, Sequences, TLC
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Total(Tail(q))
\* adjacent runs of one token joined, empty ones left out
RECURSIVE Norm(_)
Norm(q) == IF q = <<>> THEN <<>>
           ELSE IF q[1][2] = 0 THEN Norm(Tail(q))
           ELSE IF Len(q) > 1 /\ q[2][2] = 0 THEN Norm(<<q[1]>> \o Tail(Tail(q)))
           ELSE IF Len(q) > 1 /\ q[1][1] = q[2][1] THEN Norm(<< <<q[1][1], q[1][2] + q[2][2]>> >> \o Tail(Tail(q)))
           ELSE <<q[1]>> \o Norm(Tail(q))
\* the first n bytes, and what follows them
RECURSIVE First(_, _)
First(q, n) == IF q = <<>> \/ n = 0 THEN <<>> ELSE IF q[1][2] >= n THEN << <<q[1][1], n>> >> ELSE <<q[1]>> \o First(Tail(q), n - q[1][2])
RECURSIVE Rest(_, _)
Rest(q, n) == IF q = <<>> \/ n = 0 THEN q ELSE IF q[1][2] > n THEN << <<q[1][1], q[1][2] - n>> >> \o Tail(q) ELSE Rest(Tail(q), n - q[1][2])
Append1(q, t, n) == Norm(Append(q, <<t, n>>))
Over(q, t, n, off) == IF n = 0 THEN q
                      ELSE LET z == IF off > Total(q) THEN Append(q, <<"0", off - Total(q)>>) ELSE q
                           IN Norm(First(z, off) \o << <<t, n>> >> \o Rest(z, off + n))
Runs(q) == [i \in 1..Len(q) |-> q[i][1] \o ":" \o ToString(q[i][2])]
=============================================================================
