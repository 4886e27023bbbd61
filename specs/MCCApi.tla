-------------------------------- MODULE MCCApi --------------------------------
(* Histories of C API calls over a small alphabet: ownership invariants, and the histories printed for replay. What a slot
   holds is abstract here: where it came from.                                                                           *)
EXTENDS CApi, TLC, Json, FiniteSets
CONSTANTS Len0, Emit, Slots0
VARIABLES own, hist, freed

R(op, s, a, b, skip, depth) == [op |-> op, s |-> s, a |-> a, b |-> b, skip |-> skip, depth |-> depth]
Base == {R("gen", 0, w, 0, sk, d) : w \in 0..3, sk \in {0, 2}, d \in {0, 3}}
        \cup {R("user_raw", 0, n, 0, 0, 0) : n \in {0, 2, 3}} \cup {R("user_obj", 0, n, 0, 0, 0) : n \in {0, 2, 3, 4}}
        \cup {R("user_st", 0, n, 0, 0, 0) : n \in {0, 2, 6}} \cup {R("user_null", 0, w, n, 0, 0) : w \in 0..2, n \in {0, 3}}
        \cup {R("null", 0, w, 0, 0, 0) : w \in 0..6} \cup {R("text", 0, n, 0, 0, 0) : n \in {0, 3}}
        \cup {R("demangle", 0, n, 0, 0, 0) : n \in {0, 4}} \cup {R("config", 0, n, 0, 0, 0) : n \in {0, 5, 6}}
        \cup {R("freenull", 0, 0, 0, 0, 0), R("facts", 0, 0, 0, 0, 0), R("printnull", 0, 0, 1, 0, 0)}
OnSlot == {R("resolve", s, 0, 0, 0, 0) : s \in 1..Slots0} \cup {R("toobj", s, 0, 0, 0, 0) : s \in 1..Slots0}
          \cup {R("free", s, 0, 0, 0, 0) : s \in 1..Slots0} \cup {R("info", s, n, 0, 0, 0) : s \in 1..Slots0, n \in {0, 2}}
          \cup {R("str", s, 0, b, 0, 0) : s \in 1..Slots0, b \in {0, 1}} \cup {R("print", s, 0, b, 0, 0) : s \in 1..Slots0, b \in {0, 1}}
Ops == Base \cup OnSlot

\* an abstract slot: its provenance is the one frame it holds
New(op) == [kind |-> NewKind(own, op), owned |-> ~Borrowed(op), null |-> op.op \in {"null", "user_null"}, n |-> 1,
            frames |-> <<[path |-> "p", from |-> Len(hist) + 1]>>, text |-> "t"]
Holds(v) == ~v.null /\ v.n > 0 /\ (v.kind = "info" => v.frames[1].path # "<null>")

Init == own = <<>> /\ hist = <<>> /\ freed = 0
Do(op) == /\ Allowed(own, op)
          /\ own' = After(own, op, New(op))
          /\ hist' = Append(hist, op)
          /\ freed' = freed + IF op.op = "free" /\ Holds(own[op.s]) THEN 1 ELSE 0
Next == Len(hist) < Len0 /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_<<own, hist, freed>>

TypeOK == \A i \in DOMAIN own : own[i].kind \in Kinds
\* what was handed out is either still held or was freed once; the caller's own is never freed
Handed == {i \in DOMAIN hist : hist[i].op \in {"gen", "resolve", "toobj", "str", "text", "demangle", "info"}}
Balance == Cardinality({i \in DOMAIN own : own[i].owned /\ Holds(own[i])}) + freed = Cardinality(Handed)
\* nothing but its own free changes a slot
Stable == [][\A i \in DOMAIN own : own'[i] = own[i] \/ (hist'[Len(hist')].op = "free" /\ hist'[Len(hist')].s = i)]_<<own, hist, freed>>
Idempotent == \A i \in DOMAIN own : own[i].null => Emptied(own[i]).null /\ (own[i].kind # "info" => Emptied(Emptied(own[i])) = Emptied(own[i]))
Out == (Emit /\ Len(hist) = Len0) => PrintT("CASE " \o ToJson(hist))
================================================================================
