------------------------------- MODULE MCTraced -------------------------------
(* All short histories over a few exception objects. Beside the abstract values runs the library's mechanism: a holder
   that is raw until first resolved and a memo of what(); both are copied and assigned with the object. The accessors
   computed by the mechanism must equal those of the value whatever the history. *)
EXTENDS Traced, Json, TLC, FiniteSets
CONSTANTS Objs, Kinds, Depth, EmitOn
VARIABLES obj, mech, hist, n
vars == <<obj, mech, hist, n>>
NoMech == [resolved |-> FALSE, org |-> 0, memo |-> <<>>]
Init == /\ obj = [o \in Objs |-> Gone] /\ mech = [o \in Objs |-> NoMech] /\ hist = <<>> /\ n = 0
Live(o) == obj[o].kind # "gone"
Log(op, d, s, extra) == hist' = Append(hist, [op |-> op, d |-> d, s |-> s, kind |-> extra])
New(d, kind) ==
  /\ n' = n + 1
  /\ obj' = [obj EXCEPT ![d] = Make(kind, "m" \o ToString(n + 1), IF kind = "system" THEN 2 ELSE 0, "ENOENT",
                                    IF kind = "nested" THEN "std" ELSE "", "c" \o ToString(n + 1),
                                    IF kind = "nested" THEN "c" \o ToString(n + 1) ELSE "", n + 1)]
  /\ mech' = [mech EXCEPT ![d] = [resolved |-> FALSE, org |-> n + 1, memo |-> <<>>]]
  /\ Log("new", d, 0, kind)
Copy(op, d, s) == /\ Live(s) /\ (op = "copy" \/ (Live(d) /\ obj[d].kind = obj[s].kind)) /\ (op = "copy" => d # s)
                  /\ obj' = [obj EXCEPT ![d] = obj[s]] /\ mech' = [mech EXCEPT ![d] = mech[s]] /\ n' = n
                  /\ Log(op, d, s, "")
Move(op, d, s) == /\ Live(s) /\ (op = "move" \/ (Live(d) /\ obj[d].kind = obj[s].kind)) /\ d # s
                  /\ obj' = [obj EXCEPT ![d] = obj[s], ![s] = Gone]
                  /\ mech' = [mech EXCEPT ![d] = mech[s], ![s] = NoMech] /\ n' = n
                  /\ Log(op, d, s, "")
\* a resolved holder stays resolved
Resolve(m) == [m EXCEPT !.resolved = TRUE]
Look(acc, o) ==
  /\ Live(o) /\ UNCHANGED <<obj, n>>
  /\ mech' = [mech EXCEPT ![o] = CASE acc = "what" -> [Resolve(mech[o]) EXCEPT !.memo = IF @ = <<>> THEN <<obj[o].msg, mech[o].org>> ELSE @]
                                   [] acc = "trace" -> Resolve(mech[o])
                                   [] OTHER -> mech[o]]
  /\ Log(acc, o, o, "")
Throw(op, d, s) == /\ Live(s) /\ obj' = [obj EXCEPT ![d] = obj[s]] /\ mech' = [mech EXCEPT ![d] = mech[s]] /\ n' = n
                   /\ Log(op, d, s, "")
Next == /\ Len(hist) < Depth
        /\ \/ \E d \in Objs, k \in Kinds : New(d, k)
           \/ \E d \in Objs, s \in Objs : Copy("copy", d, s) \/ Copy("assign", d, s) \/ Move("move", d, s) \/ Move("massign", d, s)
                                          \/ (d # s /\ (Throw("throw", d, s) \/ Throw("ptr", d, s)))
           \/ \E o \in Objs, a \in {"what", "trace"} : Look(a, o)
Spec == Init /\ [][Next]_vars
\* what the mechanism answers
MWhat(o) == IF mech[o].memo = <<>> THEN <<obj[o].msg, mech[o].org>> ELSE mech[o].memo
Agree == \A o \in Objs : Live(o) => MWhat(o) = What(obj[o]) /\ mech[o].org = Trace(obj[o])
Emit == (EmitOn /\ Len(hist) = Depth /\ \E o \in Objs : Live(o)) => PrintT("CASE " \o ToJson(hist))
=============================================================================
