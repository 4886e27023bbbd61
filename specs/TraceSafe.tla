------------------------------ MODULE TraceSafe ------------------------------
(* Captures recorded in a signal handler. Addresses are hexadecimal strings.
   kinds: "at" one interruption, "name" an object's path of n characters, "support" what is supported, "sum" totals of a run *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
INSTANCE Capture
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad
Init == k \in 1..Len(R) /\ j = 1 /\ bad = ""
Q == R[k].ops[j]
From(s, i) == SubSeq(s, i, Len(s))
First(s, n) == SubSeq(s, 1, Min(n, Len(s)))
\* three frames belong to the handler: the capturing function, the handler, the kernel's trampoline
StackOk(q, tramp) ==
  LET want == First(q.exp, 61) IN
  /\ Len(q.full) >= 4 /\ q.mine /\ q.full[3] \in tramp
  /\ \/ From(q.full, 4) = want
     \/ q.dev /\ From(q.full, 2) = From(q.walk, 2)
\* frame 1 is where the capture was called, which differs from one capture to the next
WindowOk(q) ==
  LET w == Window(q.full, q.skip, Min(IF q.entry = 0 THEN Inf ELSE q.depth, q.size), Inf) IN
  Len(q.got) = Len(w) /\ \A i \in 1..Len(w) : q.skip + i = 1 \/ q.got[i] = w[i]
Unsupported(o) == o.nul /\ o.rel = "0" /\ o.path = ""
ObjOk(o) == o.nul /\ o.raw = o.ord[1] /\ o.rel = o.ord[2] /\ o.path = o.ord[3] /\ o.res = o.ord
At(q, tramp, supported) ==
  IF ~StackOk(q, tramp) THEN "not the interrupted program's frames: " \o ToString(q.full) \o " for " \o ToString(q.exp)
  ELSE IF ~WindowOk(q) THEN "not the window asked for: " \o ToString(q.got) \o " of " \o ToString(q.full)
  ELSE IF q.ord # <<>> /\ From(q.ord, 2) # From(q.full, 2) THEN "an ordinary trace differs: " \o ToString(q.ord)
  ELSE IF ~q.intact THEN "wrote outside the buffer or beyond the frames it reported"
  ELSE IF q.allocs # 0 THEN "allocated or freed memory in the handler"
  ELSE IF q.locks # 0 THEN "took a lock in the handler"
  ELSE IF \E i \in 1..Len(q.objs) : ~(IF supported THEN ObjOk(q.objs[i]) ELSE Unsupported(q.objs[i])) THEN "a safe object frame differs from ordinary resolution: " \o ToString(q.objs)
  ELSE ""
Name(q) ==
  IF ~q.nul THEN "a path of " \o ToString(q.n) \o " characters is not terminated"
  ELSE IF ~q.prefix \/ q.len # Min(q.n, q.room) THEN "a path of " \o ToString(q.n) \o " characters became one of " \o ToString(q.len)
  ELSE IF ~q.rawok THEN "wrong addresses" ELSE ""
Support(q, c) ==
  IF q.unwind # c.unwind \/ q.cunwind # c.unwind \/ q.object # c.object \/ q.cobject # c.object THEN "support is misreported"
  ELSE IF ~c.unwind /\ (q.n # 0 \/ ~q.intact) THEN "unsupported capturing returned something"
  ELSE IF c.unwind /\ q.n = 0 THEN "supported capturing returned nothing"
  ELSE IF ~q.raw \/ (~c.object /\ ~(q.empty /\ q.rempty)) THEN "an unsupported object frame is not empty"
  ELSE IF c.object /\ (q.empty \/ q.rempty) THEN "a supported object frame is empty"
  ELSE ""
\* the unwinder cannot follow the stack in a few instructions of its own only
Sum(q) == IF q.disturbed > 0 THEN "captures in the program were disturbed by the handler's"
          ELSE IF q.mismatches > 0 THEN "" ELSE IF q.deviations * 8 > q.steps + 80 THEN "most interruptions cannot be told" ELSE ""
Next == /\ j <= Len(R[k].ops) /\ bad = ""
        /\ j' = j + 1 /\ k' = k
        /\ bad' = IF Q.kind = "at" THEN At(Q, {R[k].tramp[i] : i \in 1..Len(R[k].tramp)}, R[k].object)
                  ELSE IF Q.kind = "name" THEN Name(Q)
                  ELSE IF Q.kind = "support" THEN Support(Q, R[k])
                  ELSE Sum(Q)
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
=============================================================================
