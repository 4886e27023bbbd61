------------------------------- MODULE MCReport -------------------------------
(* Every history of reconfigurations, messages and failures up to a length, printed for replay; invariants on the model.  *)
EXTENDS Report, TLC, Json
CONSTANTS Len0, Emit
\* canonical: the undecided default level is only seen through histories whose first look at it is at warning
Next == Len(hist) < Len0 /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
TypeOK == level \in Levels /\ sink \in Sinks /\ absorb \in BOOLEAN
\* by default nothing is written anywhere
Silent == (\A i \in DOMAIN hist : hist[i].op # "sink" \/ hist[i].v = "none") =>
             \A op \in Ops, m \in Levels : m \in Writes(op, absorb) => ~Visible(level, sink, m)
\* raising the level never reveals more
Monotone == \A l \in Levels, m \in Levels : Visible(l, sink, m) => \A l2 \in 0..l : Visible(l2, sink, m)
Out == (Emit /\ Len(hist) = Len0 /\ level = level) =>
          (hist[Len0].op \in {"emit", "hard", "soft"} => PrintT("CASE " \o ToJson(hist)))
================================================================================
