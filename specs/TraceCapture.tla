----------------------------- MODULE TraceCapture -----------------------------
(* Recorded captures: the positions returned are the window of the real stack 1..n (positions from 0). *)
EXTENDS Capture, Json, TLC
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad
Init == k \in 1..Len(R) /\ j = 1 /\ bad = ""
Q == R[k].ops[j]
Real(n) == [i \in 1..n |-> i - 1]
Next == /\ j <= Len(R[k].ops) /\ bad = ""
        /\ j' = j + 1 /\ k' = k
        /\ LET x == Captured(Real(Q.n), Q.entry, Q.skip, Q.depth, Q.buf, R[k].hard, Q.safe)
           IN bad' = IF Q.err # "" THEN Q.err
                     ELSE IF Q.logged # 0 THEN "an internal error was logged"
                     ELSE IF Q.pos = x THEN "" ELSE "expected positions " \o ToString(x) \o " got " \o ToString(Q.pos)
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
=============================================================================
