----------------------------- MODULE TraceHelper -----------------------------
(* Recorded resolutions through an external symbolizer against what they may cost: every frame is there, in order, with its
   addresses; a frame has its own line's information if its helper delivered everything, and none (its object's path at
   most) if it could not be asked; nothing is left behind.                                                             *)
EXTENDS StrOps, FiniteSets, Json
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad

First(s, p) == LET P == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
               IN IF P = {} THEN 0 ELSE CHOOSE m \in P : \A i \in P : m <= i
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE NumTo(_, _)
DigitVal(c) == CHOOSE d \in 0..9 : SubSeq("0123456789", d + 1, d + 1) = c
NumTo(s, n) == IF n = 0 THEN 0 ELSE NumTo(s, n - 1) * 10 + DigitVal(Ch(s, n))
DigitsOf(s) == CHOOSE n \in 0..Len(s) : /\ \A i \in 1..n : Ch(s, i) \in DigitSet
                                        /\ n < Len(s) => Ch(s, n + 1) \notin DigitSet

\* a line of the helper: "symbol at file:line" or "?? ??:0"; <<ok, symbol, file, line>>, line -1 if it has none
No == <<FALSE, "", "", -1>>
ParseLine(l) ==
  LET at == First(l, " at ")
      sym == IF at # 0 THEN SubSeq(l, 1, at - 1) ELSE "??"
      rest == IF at # 0 THEN Drop(l, at + 3) ELSE Drop(l, 3)
      colon == LastIn(rest, {":"})
      file == SubSeq(rest, 1, colon - 1)
      num == Drop(rest, colon)
      n == DigitsOf(num)
      tail == Drop(num, n)
  IN IF (at = 0 /\ ~StartsWith(l, "?? ")) \/ colon = 0 THEN No
     ELSE IF num = "?" THEN <<TRUE, sym, file, -1>>
     ELSE IF n = 0 \/ n > 9 \/ (tail # "" /\ ~StartsWith(tail, " (discriminator ")) THEN No
     ELSE <<TRUE, sym, file, NumTo(num, n)>>

\* x: the observed frame, q: the frame asked for, l: the helper's line for it
Plain(x, q) == x.sym = "" /\ x.file = q.path /\ x.line = -1
Own(x, q, l) == LET p == ParseLine(l)
                IN p[1] /\ x.sym = p[2] /\ x.line = p[4] /\ x.file = IF p[3] = "" \/ p[3] = "??" THEN q.path ELSE p[3]
\* a line that is not one the helper writes: whatever is taken from it is its own text
Odd(x, q, l) == /\ (x.sym = "" \/ First(l, x.sym) # 0)
                /\ (x.file = q.path \/ x.file = "" \/ First(l, x.file) # 0)
Same(x, q) == x.raw = q.raw /\ x.obj = q.obj /\ x.col = -1 /\ ~x.inl

\* o: an object of the record: its helper's lines in the order of its frames, and whether it was able to deliver
Bad(o) == {i \in DOMAIN o.lines : ~ParseLine(o.lines[i])[1]}
FrameOk(x, q, o, usable) ==
  IF ~usable THEN Plain(x, q)
  ELSE LET l == o.lines[q.n]
       IN IF \E i \in Bad(o) : i <= q.n THEN Own(x, q, l) \/ Plain(x, q) \/ (~ParseLine(l)[1] /\ Odd(x, q, l))
          ELSE Own(x, q, l)

Objs == DOMAIN R[k].objs
\* objects that certainly failed, and those of which `blur` more may have (a fault that hit any one of them)
Sure == {i \in Objs : R[k].objs[i].fails}
Unusable == {i \in Objs : \E n \in DOMAIN R[k].asked \cap DOMAIN R[k].got : R[k].asked[n].o = i /\ R[k].objs[i].lines # <<>> /\ Plain(R[k].got[n], R[k].asked[n])
                           /\ ~Own(R[k].got[n], R[k].asked[n], R[k].objs[i].lines[R[k].asked[n].n])
                           /\ ~(\E b \in Bad(R[k].objs[i]) : b <= R[k].asked[n].n)}
Down == {i \in Objs : i \in Sure \/ i \in Unusable}
Broken == \E i \in Objs : Bad(R[k].objs[i]) # {} /\ i \notin Down
Why ==
  LET r == R[k] IN
  IF r.fds # 0 THEN "left descriptors open: " \o ToString(r.fds)
  ELSE IF r.kids # 0 THEN "left children behind"
  ELSE IF r.threw THEN
       (IF r.absorb THEN "an absorbed failure escaped"
        ELSE IF Sure = {} /\ r.blur = 0 /\ ~Broken THEN "failed without a fault"
        ELSE IF r.logs = 0 THEN "a failure was not reported" ELSE "")
  ELSE IF Len(r.got) # Len(r.asked) THEN "the trace has a different number of frames"
  ELSE IF \E n \in DOMAIN r.asked : ~Same(r.got[n], r.asked[n]) THEN "a frame lost its addresses"
  ELSE IF Cardinality(Unusable \ Sure) > r.blur THEN "more objects lost their information than faults happened"
  ELSE IF \E n \in DOMAIN r.asked : ~FrameOk(r.got[n], r.asked[n], r.objs[r.asked[n].o], r.asked[n].o \notin Down)
       THEN LET n == CHOOSE n \in DOMAIN r.asked : ~FrameOk(r.got[n], r.asked[n], r.objs[r.asked[n].o], r.asked[n].o \notin Down)
            IN "frame " \o ToString(n) \o " is wrong: " \o ToString(r.got[n]) \o " asked " \o ToString(r.asked[n])
  ELSE IF r.absorb /\ r.countlogs /\ r.logs \notin Cardinality(Down)..(Cardinality(Down) + Cardinality({i \in Objs : Bad(r.objs[i]) # {} /\ i \notin Down}))
       THEN "reported " \o ToString(r.logs) \o " failures"
  ELSE IF ~r.absorb /\ Down # {} THEN "a failure was swallowed with absorption off"
  ELSE ""
Init == k \in 1..Len(R) /\ j = 1 /\ bad = ""
Next == j = 1 /\ j' = 2 /\ k' = k /\ bad' = Why
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
=============================================================================
