----------------------------- MODULE TraceSnippet -----------------------------
(* Recorded histories of snippet requests: every answer is that of the specification, whatever was asked before. *)
EXTENDS Snippet, Json
R == ndJsonDeserialize("traces.ndjson")
F == ndJsonDeserialize("files.ndjson")
VARIABLES k, j, bad
Init == k \in 1..Len(R) /\ j = 1 /\ bad = ""
Q == R[k].ops[j]
Esc(on) == IF on THEN R[k].yellow ELSE ""
Rst(on) == IF on THEN R[k].reset ELSE ""
Next == /\ j <= Len(R[k].ops) /\ bad = ""
        /\ j' = j + 1 /\ k' = k
        /\ LET f == F[Q.f]
               x == SnippetText(f.ok, f.raw, Q.t, Q.k, Q.c, Esc(Q.color), Rst(Q.color))
           IN bad' = IF x = Q.out THEN "" ELSE "expected: " \o x
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
=============================================================================
