------------------------------ MODULE TraceTraced ------------------------------
(* Recorded programs over traced exception objects: every accessor answers from the object's value. Construction
   records carry the identity (org) of the construction; answers about traces carry the org the observed trace is the
   resolved trace of (0 if it is the trace of none). *)
EXTENDS Traced, Json, TLC
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad, obj
Slots == 1..12
Init == k \in 1..Len(R) /\ j = 1 /\ bad = "" /\ obj = [o \in Slots |-> Gone]
Q == R[k].ops[j]
Expect(name, want, got) == IF want = got THEN "" ELSE name \o " expected " \o ToString(want) \o " got " \o ToString(got)
MakeQ(q) == Make(q.kind, q.arg, q.code, q.errtext, q.ckind, q.cdesc, q.cause, q.org)
WrapQ(q) == IF q.traced THEN obj[q.s] ELSE Wrapped(FALSE, Gone, q.ckind, q.cdesc, q.cause, q.org)
Next == /\ j <= Len(R[k].ops) /\ bad = ""
        /\ j' = j + 1 /\ k' = k
        /\ obj' = CASE Q.op = "new" -> [obj EXCEPT ![Q.d] = MakeQ(Q)]
                    [] Q.op \in {"copy", "assign", "throw", "ptr", "thread"} -> [obj EXCEPT ![Q.d] = obj[Q.s]]
                    [] Q.op \in {"move", "massign"} -> [[obj EXCEPT ![Q.d] = obj[Q.s]] EXCEPT ![Q.s] = IF Q.d = Q.s THEN @ ELSE Gone]
                    [] Q.op = "drop" -> [obj EXCEPT ![Q.d] = Gone]
                    [] Q.op = "wrap" -> [obj EXCEPT ![Q.d] = WrapQ(Q)]
                    [] OTHER -> obj
        /\ bad' = IF Q.err # "" THEN Q.err
                  ELSE CASE Q.op = "message" -> Expect("message", Message(obj[Q.d]), Q.msg)
                         [] Q.op = "what" -> Expect("what", What(obj[Q.d]), <<Q.msg, Q.org>>)
                         [] Q.op = "trace" -> Expect("trace", Trace(obj[Q.d]), Q.org)
                         [] Q.op = "code" -> Expect("code", Code(obj[Q.d]), Q.code)
                         [] Q.op = "cause" -> Expect("cause", Cause(obj[Q.d]), Q.cause)
                         [] Q.op = "wrap" -> Expect("same object", Q.traced, Q.same)
                         [] Q.op = "cat" -> Expect("categories", WrapCategories, Q.cats)
                         [] OTHER -> ""
Spec == Init /\ [][Next]_<<k, j, bad, obj>>
Conforms == bad = ""
=============================================================================
