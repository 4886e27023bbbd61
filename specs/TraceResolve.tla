----------------------------- MODULE TraceResolve -----------------------------
(* Recorded resolutions. layouts.json: the objects that were loaded. A record has the back end, the layout, the
   addresses, the frames obtained directly, by way of object frames, the object frames themselves, the object
   information of each resolved frame, and what each address gave on its own. *)
EXTENDS Resolve, Json, TLC
Traces == ndJsonDeserialize("traces.ndjson")
Layouts == JsonDeserialize("layouts.json")
VARIABLES k, j, bad
vars == <<k, j, bad>>
Judge(t) ==
  LET objs == Layouts[t.lay] IN
  IF ~ObjectsOk(objs, t.as, t.objf) THEN
    LET i == IF Len(t.objf) # Len(t.as) THEN 0 ELSE CHOOSE i \in 1..Len(t.as) : ~ObjectFrameOk(objs, t.as[i], t.objf[i])
    IN <<"object frame", i, IF i = 0 THEN <<>> ELSE <<t.as[i], t.objf[i]>> >>
  ELSE IF ~TraceOk(t.backend, objs, t.as, t.direct) THEN
    LET o == Outer(t.direct)
        i == IF Len(o) # Len(t.as) THEN 0
             ELSE CHOOSE i \in 0..Len(t.as) : IF \A n \in 1..Len(t.as) : FrameOk(t.backend, objs, t.as[n], o[n])
                                              THEN i = 0 ELSE i > 0 /\ ~FrameOk(t.backend, objs, t.as[i], o[i])
    IN <<"frame", i, IF i = 0 THEN <<>> ELSE <<t.as[i], o[i]>> >>
  ELSE IF t.via # t.direct THEN <<"resolving through object frames differs", 0, t.via>>
  ELSE IF t.single # t.objf THEN <<"object information of the frames differs", 0, t.single>>
  ELSE IF t.alone # <<>> /\ ~AllSame(t.backend, t.alone, t.direct) THEN
    <<"resolving one at a time differs", 0, IF Len(t.alone) # Len(t.direct) THEN <<Len(t.alone), Len(t.direct)>>
      ELSE LET i == CHOOSE i \in 1..Len(t.alone) : ~Same(t.backend, t.alone[i], t.direct[i]) IN <<i, t.alone[i], t.direct[i]>> >>
  ELSE <<>>
Init == k = 1 /\ j = 1 /\ bad = <<>>
Next == /\ k <= Len(Traces) /\ bad = <<>>
        /\ LET r == Judge(Traces[k]) IN IF r = <<>> THEN k' = k + 1 /\ bad' = <<>> ELSE k' = k /\ bad' = r
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
