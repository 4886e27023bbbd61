------------------------------ MODULE MCCapture ------------------------------
(* The stack machine: functions of several kinds are called and return; at any point any entry point captures with any
   window. Laws of the window, and every (stack, entry, window) as a case for the real program. *)
EXTENDS Capture, Json, TLC
CONSTANTS Kinds, MaxCalls, Skips, Depths, Bufs, EmitOn
VARIABLES stack, last
vars == <<stack, last>>
None == [e |-> "none", skip |-> 0, depth |-> 0, buf |-> 0, res |-> <<>>]
Init == stack = <<>> /\ last = None
Call(f) == Len(stack) < MaxCalls /\ stack' = <<f>> \o stack /\ last' = None
Return == stack # <<>> /\ stack' = Tail(stack) /\ last' = None
\* in the model a stack consists of the program's calls only; positions stand for the frames
Pos == [i \in 1..Len(stack) |-> i]
Num(x) == IF x = "max" THEN Inf ELSE IF x = "n" THEN Len(stack) ELSE IF x = "n+1" THEN Len(stack) + 1 ELSE IF x = "n-1" THEN Len(stack) - 1
          ELSE CHOOSE v \in 0..9 : ToString(v) = x
Cap == \E e \in Entries, s \in Skips, d \in Depths, b \in Bufs :
          /\ last = None
          /\ (e \in OneArg => d = "max") /\ (e \notin Safe => b = "0")
          /\ last' = [e |-> e, skip |-> s, depth |-> d, buf |-> b,
                      res |-> IF s = "n-1" /\ stack = <<>> THEN <<>> ELSE Captured(Pos, e, Num(s), Num(d), Num(b), 3, TRUE)]
          /\ UNCHANGED stack
Next == (\E f \in Kinds : Call(f)) \/ Return \/ Cap
Spec == Init /\ [][Next]_vars
Captd == last # None /\ ~(stack = <<>> /\ "n-1" \in {last.skip, last.depth, last.buf})
Consecutive == \A i \in 1..(Len(last.res) - 1) : last.res[i + 1] = last.res[i] + 1
StartsAtSkip == Captd /\ last.res # <<>> => last.res[1] = Num(last.skip) + 1
Bounded == Captd => Len(last.res) <= EffDepth(last.e, Num(last.depth), Num(last.buf))
\* nothing is lost: the window stops early only at the end of the stack or at a limit
Maximal == Captd => \/ Len(last.res) = EffDepth(last.e, Num(last.depth), Num(last.buf))
                    \/ Num(last.skip) >= Len(stack) \/ Num(last.skip) + Len(last.res) = Len(stack)
                    \/ last.e \notin Safe /\ Len(last.res) = 3
\* skipping twice is skipping the sum
Additive == \A a, b \in 0..3 : Window(Window(Pos, a, Inf, Inf), b, Inf, Inf) = Window(Pos, a + b, Inf, Inf)
Emit == (EmitOn /\ last # None) => PrintT("CASE " \o ToJson([kinds |-> stack, entry |-> last.e, skip |-> last.skip, depth |-> last.depth, buf |-> last.buf]))
=============================================================================
