----------------------------- MODULE TraceTerminate -----------------------------
(* Recorded deaths: what was on stderr and stdout and how the process ended, against the report the specification wants.  *)
EXTENDS Terminate, StrOps, Json
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad

First(s, p) == LET P == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
               IN IF P = {} THEN 0 ELSE CHOOSE m \in P : \A i \in P : m <= i
Count(s, p) == Cardinality({i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p})

\* "#n 0x... in NAME at FILE:LINE" ("" if it names none)
NameIn(l) == LET a == First(l, " in ") b == First(l, " at ")
             IN IF a = 0 THEN "" ELSE IF b > a THEN SubSeq(l, a + 4, b - 1) ELSE Drop(l, a + 3)
IsFrame(l) == StartsWith(l, "#")
RECURSIVE Known(_)
Known(ls) == IF ls = <<>> THEN <<>> ELSE (IF NameIn(ls[1]) \in AllFunctions THEN <<NameIn(ls[1])>> ELSE <<>>) \o Known(Tail(ls))
Without(s, X) == SelectSeq(s, LAMBDA f : f \notin X)
Numbered(ls) == \A i \in DOMAIN ls : StartsWith(ls[i], "#" \o Dec(i - 1) \o " ")

Why ==
  LET r == R[k]
      want == Report(r.type, r.cause)
  IN IF ~r.aborted THEN "the process did not end by abort"
     ELSE IF r.out # "said before\n" THEN "something else was written to stdout"
     ELSE IF r.headers # 1 THEN "not exactly one trace"
     ELSE IF r.color # r.tty THEN "colors"
     ELSE IF want.kind = "none" /\ First(r.head, "without an active exception") = 0 THEN "no word about the cause"
     ELSE IF want.kind # "none" /\ (First(r.head, " " \o r.dem \o ":") = 0 /\ First(r.head, " " \o r.dem \o "\n") = 0) THEN "type"
     ELSE IF want.kind \in {"traced", "std"} /\ r.msg # "" /\ First(r.head, ": " \o r.msg) <= First(r.head, " " \o r.dem) THEN "message"
     ELSE IF want.kind \in {"traced", "std"} /\ First(r.msg, "Xq7") # 0 /\ r.marks # 1 THEN "message not once"
     ELSE IF r.frames = <<>> THEN "no frames"
     ELSE IF ~(\A i \in DOMAIN r.frames : IsFrame(r.frames[i])) \/ ~Numbered(r.frames) THEN "something after the trace"
     ELSE IF r.named /\ Without(Known(r.frames), want.extra) # Without(want.chain, want.extra) THEN "trace of somewhere else: " \o ToString(Known(r.frames))
     ELSE ""
Init == k \in DOMAIN R /\ j = 1 /\ bad = ""
Next == j = 1 /\ j' = 2 /\ bad' = Why /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
================================================================================
