---------------------------- MODULE TraceFormatter ----------------------------
(* Recorded histories of formatter objects, checked against Formatter.

   A formatter object is a value: a set of options. Copies are independent of the original; assigning replaces the
   whole value (assigning an object to itself changes nothing); formatting reads the value and changes nothing. *)
EXTENDS Formatter, Json, IOUtils

R == ndJsonDeserialize("traces.ndjson")
E == ndJsonDeserialize("env.ndjson")[1]

VARIABLES k, j, slots, bad
vars == <<k, j, slots, bad>>

Gone == [gone |-> TRUE]
Init == /\ k \in 1..Len(R)
        /\ j = 1
        /\ slots = [d \in 0..3 |-> Gone]
        /\ bad = ""

Op == R[k].ops[j]
Opts(d) == IF d < 0 THEN DefaultOptions ELSE slots[d]

Next ==
  /\ j <= Len(R[k].ops)
  /\ bad = ""
  /\ j' = j + 1
  /\ k' = k
  /\ CASE Op.op = "new" -> slots' = [slots EXCEPT ![Op.d] = DefaultOptions] /\ bad' = bad
       [] Op.op = "set" -> slots' = [slots EXCEPT ![Op.d] = [@ EXCEPT ![Op.key] = Op.val]] /\ bad' = bad
       [] Op.op \in {"copy", "assign"} -> slots' = [slots EXCEPT ![Op.d] = slots[Op.s]] /\ bad' = bad
       [] Op.op = "move" -> slots' = [slots EXCEPT ![Op.d] = slots[Op.s], ![Op.s] = Gone] /\ bad' = bad
       [] Op.op = "massign" ->
            /\ slots' = IF Op.d = Op.s THEN slots ELSE [slots EXCEPT ![Op.d] = slots[Op.s], ![Op.s] = Gone]
            /\ bad' = bad
       [] Op.op = "call" ->
            LET x == Render(Opts(Op.d), Op.q, Op.frames, E)
            IN /\ UNCHANGED slots
               /\ bad' = IF x.out # Op.out THEN "text, expected: " \o x.out
                         ELSE IF x.ev # Op.ev THEN "callbacks, expected: " \o JoinStr(x.ev, ", ")
                         ELSE ""

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
================================================================================
