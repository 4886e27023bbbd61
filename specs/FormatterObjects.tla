--------------------------- MODULE FormatterObjects ---------------------------
(* Formatter objects as values. Every history of N operations over the slots, printed with what each formatter must
   render at the end (and at every use on the way). A formatter's value is abstracted to a few of its settings; the
   text each value renders to is printed once by Formatter's own Render (TABLE lines). *)
EXTENDS Formatter, Json, FiniteSets
CONSTANTS Slots, N, Mode
VARIABLES slots, hist
vars == <<slots, hist>>

Gone == [h |-> "gone", f |-> "gone", a |-> "gone"]
New == [h |-> "Stack trace (most recent call first):", f |-> "none", a |-> "raw"]
Values == [h : {New.h, "B"}, f : {"none", "noinline"}, a : {"raw"}]
Full(v) == [DefaultOptions EXCEPT !.header = v.h, !.filter = v.f, !.addr = v.a]
Q0 == [what |-> "trace", via |-> "format", over |-> -1, tty |-> FALSE, indent |-> 0]
Fs == << [raw |-> "1a", obj |-> "0", line |-> "", col |-> "", lineN |-> -1, colN |-> -1, file |-> "a.cpp", sym |-> "f", inl |-> FALSE],
         [raw |-> "2", obj |-> "0", line |-> "", col |-> "", lineN |-> -1, colN |-> -1, file |-> "", sym |-> "g", inl |-> TRUE] >>
E0 == [syms |-> [s \in {"f", "g"} |-> [pruned |-> s, pretty |-> s]], files |-> [x \in {"a.cpp"} |-> [ok |-> FALSE, raw |-> <<"">>]],
       yellow |-> "", green |-> "", blue |-> "", reset |-> ""]
ASSUME \A v \in Values : PrintT("TABLE " \o ToJson([v |-> v, frames |-> Fs, q |-> Q0, x |-> Render(Full(v), Q0, Fs, E0)]))

Live == {d \in Slots : slots[d] # Gone}
Init == /\ slots = [d \in Slots |-> IF d = 0 THEN [New EXCEPT !.h = "B"] ELSE New]
        /\ hist = <<>>
Do(op, s) == hist' = Append(hist, op) /\ slots' = s
Next == /\ Len(hist) < N
        /\ \/ \E d \in Slots : Do([op |-> "new", d |-> d], [slots EXCEPT ![d] = New])
           \/ \E d \in Live, v \in {New.h, "B"} : Do([op |-> "set", d |-> d, key |-> "header", val |-> v], [slots EXCEPT ![d].h = v])
           \/ \E d \in Live, v \in {"none", "noinline"} : Do([op |-> "set", d |-> d, key |-> "filter", val |-> v], [slots EXCEPT ![d].f = v])
           \/ \E d \in Slots, s \in Live : d # s /\ Do([op |-> "copy", d |-> d, s |-> s], [slots EXCEPT ![d] = slots[s]])
           \/ \E d \in Slots, s \in Live : d # s /\ Do([op |-> "move", d |-> d, s |-> s], [slots EXCEPT ![d] = slots[s], ![s] = Gone])
           \/ \E d \in Live, s \in Live : Do([op |-> "assign", d |-> d, s |-> s], [slots EXCEPT ![d] = slots[s]])
           \* a moved-from formatter may be assigned to
           \/ \E d \in Slots, s \in Live : slots[d] = Gone /\ Do([op |-> "assign", d |-> d, s |-> s], [slots EXCEPT ![d] = slots[s]])
           \/ \E d \in Live, s \in Live : d # s /\ Do([op |-> "massign", d |-> d, s |-> s], [slots EXCEPT ![d] = slots[s], ![s] = Gone])
           \/ \E d \in Live : Do([op |-> "massign", d |-> d, s |-> d], slots)
           \/ \E d \in Live : Do([op |-> "call", d |-> d, v |-> slots[d]], slots)
Spec == Init /\ [][Next]_vars

\* an operation changes only the formatters it names
Frame == [][\A d \in Slots : slots'[d] # slots[d] =>
              LET op == hist'[Len(hist')] IN d = op.d \/ (op.op \in {"move", "massign"} /\ d = op.s)]_vars
Typed == \A d \in Slots : slots[d] \in Values \cup {Gone}
Emit == Len(hist) = N => PrintT("CASE " \o ToJson([ops |-> hist, fin |-> [d \in 1..Cardinality(Slots) |-> slots[d - 1]]]))
=============================================================================
