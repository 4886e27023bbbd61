------------------------------- MODULE TraceJit -------------------------------
(* Recorded histories of the registry: every lookup is answered as the specification says. Addresses are ranks in the
   sorted list of the addresses of the trace. While an object of unknown content (a damaged image) is registered,
   lookups are not judged, but everything is exact again once it is gone. *)
EXTENDS Jit, Json, TLC
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad, reg
Init == k \in 1..Len(R) /\ j = 1 /\ bad = "" /\ reg = Empty
Q == R[k].ops[j]
Unknown == \E s \in DOMAIN reg : \E i \in 1..Len(reg[s].ranges) : reg[s].ranges[i].lo > reg[s].ranges[i].hi
Judge(q) ==
  LET hits == Hits(reg, q.pc)
  IN IF Unknown THEN ""
     ELSE IF hits = {} THEN (IF q.lo = -1 THEN "" ELSE "found code where none is registered")
     ELSE LET h == CHOOSE h \in hits : TRUE
          IN IF q.lo = -1 THEN "found no code where some is registered"
             ELSE IF q.lo # h[2].lo THEN "found the wrong range"
             ELSE IF q.sym \in SymAnswers(reg[h[1]], q.pc) THEN ""
             ELSE "symbol, expected one of " \o ToString(SymAnswers(reg[h[1]], q.pc))
Next == /\ j <= Len(R[k].ops) /\ bad = ""
        /\ j' = j + 1 /\ k' = k
        /\ reg' = CASE Q.op = "reg" -> Register(reg, Q.slot, Q.img)
                    [] Q.op = "unreg" -> Unregister(reg, Q.slot)
                    [] Q.op = "clear" -> Empty
                    [] Q.op = "gdb" -> [t \in {Q.list[i].slot : i \in 1..Len(Q.list)} |->
                                         Q.list[CHOOSE i \in 1..Len(Q.list) : Q.list[i].slot = t].img]
                    [] OTHER -> reg
        /\ bad' = IF Q.err # "" THEN Q.err ELSE IF Q.op = "q" THEN Judge(Q) ELSE ""
Spec == Init /\ [][Next]_<<k, j, bad, reg>>
Conforms == bad = ""
=============================================================================
