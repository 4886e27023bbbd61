------------------------------ MODULE MCTerminate ------------------------------
(* Every way to die with every type of exception: the life of the program up to its end, printed for replay.             *)
EXTENDS Terminate, Json
VARIABLES type, cause, phase, said
vars == <<type, cause, phase, said>>
Init == /\ cause \in Causes
        /\ type \in IF Throws(cause) THEN Types ELSE {""}
        /\ phase = "running" /\ said = 0
Die == phase = "running" /\ phase' = "handler" /\ UNCHANGED <<type, cause, said>>
Say == phase = "handler" /\ phase' = "said" /\ said' = said + 1 /\ UNCHANGED <<type, cause>>
Abort == phase = "said" /\ phase' = "aborted" /\ UNCHANGED <<type, cause, said>>
Next == Die \/ Say \/ Abort
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == phase = "aborted" => said = 1
Ended == <>(phase = "aborted")
\* the entry function is at the bottom of every trace; a traced exception shows where it was made even if it is thrown elsewhere
Bottom == LET r == Report(type, cause) IN r.chain[Len(r.chain)] = Entry(cause)
Own == Report(type, cause).kind = "traced" => Report(type, cause).chain[1] = "site()"
Sane == (type # "" /\ SubSeq(type, 1, 1) = "t") => Kind(type) = "traced"
Sane2 == (type # "" /\ SubSeq(type, 1, 1) = "s") => Kind(type) = "std"
Sane3 == (type # "" /\ SubSeq(type, 1, 1) = "o") => Kind(type) = "other"
Out == phase = "aborted" => PrintT("CASE " \o ToJson([type |-> type, cause |-> cause]))
================================================================================
