-------------------------------- MODULE Safe --------------------------------
(* A thread that is interrupted anywhere and captured by its signal handler.

   The program is a stack of activations, each at some instruction, that takes and releases locks (the allocator's, a
   cache's). A signal may arrive after every step, also while a handler is capturing. A capture walks the stack one
   activation at a time and writes one address per step; it may only finish, never wait: whoever holds a lock is
   suspended below the handler and cannot release it.

   Mech is how the capture works: "safe" takes nothing; "allocating" needs the allocator's lock for its result;
   "caching" needs the lock of a cache that the program's own captures use; "unbounded" looks at the buffer's size only
   after writing; "adjusting" takes the interrupted instruction for a return address. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mech, Funs, MaxStack, MaxSignals, Skips, Depths, Sizes
VARIABLES stack,      \* activations, innermost first: [fn, pc, at] with at in "call" (inside a call it made), "here" (running)
          held,       \* locks held, as a function from lock to the number of activations when it was taken (0: free)
          caps,       \* captures in progress, innermost first
          signals,    \* how many signals arrived
          done        \* the capture that just finished
vars == <<stack, held, caps, signals, done>>

Locks == {"alloc", "cache"}
Needs == CASE Mech = "allocating" -> {"alloc"} [] Mech = "caching" -> {"cache"} [] OTHER -> {}
None == [none |-> TRUE]

\* what a frame of the trace must be: the instruction itself for the one that runs, the call's for the others
AddrOf(a) == IF a.at = "call" THEN <<a.fn, a.pc, "in call">> ELSE <<a.fn, a.pc, "itself">>
Addrs(s) == [i \in 1..Len(s) |-> AddrOf(s[i])]
Min(a, b) == IF a < b THEN a ELSE b
Window(s, skip, depth, size) == SubSeq(s, skip + 1, Min(Len(s), skip + Min(depth, size)))

Init == /\ stack = <<[fn |-> "main", pc |-> 0, at |-> "here"]>>
        /\ held = [l \in Locks |-> 0]
        /\ caps = <<>> /\ signals = 0 /\ done = None

Running == caps = <<>>
Call(f) == /\ Running /\ Len(stack) < MaxStack
           /\ stack' = <<[fn |-> f, pc |-> 0, at |-> "here"], [Head(stack) EXCEPT !.at = "call"]>> \o Tail(stack)
           /\ done' = None /\ UNCHANGED <<held, caps, signals>>
Return == /\ Running /\ Len(stack) > 1 /\ \A l \in Locks : held[l] < Len(stack)
          /\ stack' = <<[stack[2] EXCEPT !.at = "here", !.pc = 1]>> \o SubSeq(stack, 3, Len(stack))
          /\ done' = None /\ UNCHANGED <<held, caps, signals>>
Advance == /\ Running /\ Head(stack).pc = 0
           /\ stack' = [stack EXCEPT ![1].pc = 1]
           /\ done' = None /\ UNCHANGED <<held, caps, signals>>
Take(l) == /\ Running /\ held[l] = 0 /\ Len(stack) > 1
           /\ held' = [held EXCEPT ![l] = Len(stack)]
           /\ done' = None /\ UNCHANGED <<stack, caps, signals>>
Drop(l) == /\ Running /\ held[l] = Len(stack)
           /\ held' = [held EXCEPT ![l] = 0]
           /\ done' = None /\ UNCHANGED <<stack, caps, signals>>

\* the stack a capture sees: the frames of the captures above which it was made are not part of this model's program
Signal(skip, depth, size) ==
  /\ signals < MaxSignals
  /\ signals' = signals + 1
  /\ caps' = <<[skip |-> skip, depth |-> depth, size |-> size, at |-> 0, out |-> <<>>, wants |-> Needs, before |-> stack, heldBefore |-> held]>> \o caps
  /\ done' = None /\ UNCHANGED <<stack, held>>

Cap == Head(caps)
Wait == caps # <<>> /\ Cap.wants # {} /\ \E l \in Cap.wants : held[l] # 0      \* for ever: the holder is below
TakeHere(l) == /\ caps # <<>> /\ l \in Cap.wants /\ held[l] = 0
               /\ caps' = [caps EXCEPT ![1].wants = @ \ {l}]
               /\ UNCHANGED <<stack, held, signals, done>>
Full(c) == IF Mech = "unbounded" THEN Len(c.out) > c.size \/ Len(c.out) >= c.depth ELSE Len(c.out) >= Min(c.size, c.depth)
Frame(i) == LET a == stack[i] IN IF Mech = "adjusting" THEN <<a.fn, a.pc, "in call">> ELSE AddrOf(a)
StepWalk == /\ caps # <<>> /\ Cap.wants = {}
            /\ ~Full(Cap) /\ Cap.at < Len(stack)
            /\ caps' = [caps EXCEPT ![1].at = @ + 1, ![1].out = IF Cap.at < Cap.skip THEN @ ELSE Append(@, Frame(Cap.at + 1))]
            /\ UNCHANGED <<stack, held, signals, done>>
Finish == /\ caps # <<>> /\ Cap.wants = {}
          /\ Full(Cap) \/ Cap.at >= Len(stack)
          /\ done' = [none |-> FALSE, skip |-> Cap.skip, depth |-> Cap.depth, size |-> Cap.size, out |-> Cap.out, of |-> stack, held |-> {l \in Locks : held[l] # 0}]
          /\ caps' = Tail(caps)
          /\ UNCHANGED <<stack, held, signals>>

Next == \/ \E f \in Funs : Call(f)
        \/ Return \/ Advance
        \/ \E l \in Locks : Take(l) \/ Drop(l) \/ TakeHere(l)
        \/ \E s \in Skips, dp \in Depths, z \in Sizes : Signal(s, dp, z)
        \/ StepWalk \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(StepWalk \/ Finish \/ \E l \in Locks : TakeHere(l))

NeverWaits == ~Wait
InBounds == \A i \in 1..Len(caps) : Len(caps[i].out) <= caps[i].size
Exact == done.none \/ done.out = Window(Addrs(done.of), done.skip, done.depth, done.size)
\* what is interrupted is found as it was
Unchanged == \A i \in 1..Len(caps) : caps[i].before = stack /\ caps[i].heldBefore = held
Finishes == \A n \in 1..MaxSignals : Len(caps) = n ~> Len(caps) < n
=============================================================================
