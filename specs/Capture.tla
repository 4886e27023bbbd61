------------------------------- MODULE Capture -------------------------------
(* A stack is a sequence of frames, innermost first. A capture is a window of it. *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
\* `hard` is the documented limit of back ends with a fixed buffer
Window(stack, skip, depth, hard) ==
  SubSeq(stack, skip + 1, Min(Len(stack), skip + Min(depth, hard)))

TwoArgs == {"raw.current2", "raw.generate2", "obj.current2", "obj.generate2", "st.current2", "st.generate2", "c.raw", "c.obj", "c.st", "safe2", "c.safe"}
OneArg == {"raw.current", "raw.generate", "obj.current", "obj.generate", "st.current", "st.generate", "safe"}
Safe == {"safe", "safe2", "c.safe"}
Entries == TwoArgs \cup OneArg
Inf == 1000000000
EffDepth(e, depth, buf) == LET d == IF e \in OneArg THEN Inf ELSE depth IN IF e \in Safe THEN Min(d, buf) ELSE d
\* what entry point e returns; hasSafe: whether signal-safe capturing is supported
Captured(stack, e, skip, depth, buf, hard, hasSafe) ==
  IF e \in Safe THEN (IF hasSafe THEN Window(stack, skip, EffDepth(e, depth, buf), Inf) ELSE <<>>)
  ELSE Window(stack, skip, EffDepth(e, depth, buf), hard)
=============================================================================
