------------------------------ MODULE MCResolve ------------------------------
(* The mechanism of resolution - object lookup by load map or by image base, grouping by object path, one request per
   group in batches, scattering the answers back - against what each address gives on its own, for every trace over a
   layout of four loaded objects (linked at zero and elsewhere, one file loaded twice). Requests may be served in any
   order of the groups. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxLen, Batch, BaseFrom, EmitOn
VARIABLES trace, out, pend, served
vars == <<trace, out, pend, served>>

\* first: where the file's first segment is linked; phdr: does the file describe its program headers
Obj(path, bias, first, phdr) == [path |-> path, bias |-> bias, first |-> first, lo |-> bias + first, hi |-> bias + first + 10,
                                 phdr |-> phdr]
Objs == <<Obj("e", 0, 16, TRUE), Obj("p", 100, 0, FALSE), Obj("q", 200, 16, FALSE), Obj("p", 300, 0, FALSE)>>
Kinds == {<<o, n>> : o \in 1..4, n \in 1..2} \cup {<<0, 0>>, <<0, 1>>, <<2, 3>>}
AddressOf(k) == IF k[1] = 0 THEN k[2] * 50 ELSE Objs[k[1]].lo + 2 * k[2]
Owner(a) == {i \in 1..4 : Objs[i].lo <= a /\ a < Objs[i].hi}
ImageBase(o) == IF BaseFrom = "phdr" THEN (IF o.phdr THEN o.first ELSE 0) ELSE o.first
Lookup(a, variant) ==
  IF Owner(a) = {} THEN [path |-> "", obj |-> 0]
  ELSE LET o == Objs[CHOOSE i \in Owner(a) : TRUE]
       IN [path |-> o.path, obj |-> IF variant = "map" THEN a - o.bias ELSE a - o.lo + ImageBase(o)]
\* the files: what they say about one of their own addresses
Answer(path, fa) == <<path, fa>>
Alone(a) == LET f == Lookup(a, "map") IN IF f.path = "" THEN <<"", 0>> ELSE Answer(f.path, f.obj)

Paths(t) == {Lookup(AddressOf(t[i]), "map").path : i \in 1..Len(t)} \ {""}
Group(t, p) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : Lookup(AddressOf(t[i]), "map").path = p)
Init == /\ trace \in UNION {[1..n -> Kinds] : n \in 0..MaxLen}
        /\ out = [i \in 1..Len(trace) |-> <<"", 0>>]
        /\ pend = Paths(trace) /\ served = [p \in pend |-> 0]
Serve(p) == LET g == Group(trace, p)
                n == IF Len(g) - served[p] < Batch THEN Len(g) - served[p] ELSE Batch
                batch == SubSeq(g, served[p] + 1, served[p] + n)
            IN /\ out' = [i \in DOMAIN out |-> IF \E m \in 1..n : batch[m] = i
                                               THEN Answer(p, Lookup(AddressOf(trace[i]), "base").obj) ELSE out[i]]
               /\ served' = [served EXCEPT ![p] = @ + n]
               /\ pend' = IF served[p] + n = Len(g) THEN pend \ {p} ELSE pend
               /\ UNCHANGED trace
Next == \E p \in pend : Serve(p)
Spec == Init /\ [][Next]_vars

VariantsAgree == \A i \in 1..Len(trace) : Lookup(AddressOf(trace[i]), "map") = Lookup(AddressOf(trace[i]), "base")
EachItsOwn == pend = {} => \A i \in 1..Len(trace) : out[i] = Alone(AddressOf(trace[i]))
Served == \A i \in 1..Len(trace) : out[i] \in {<<"", 0>>, Alone(AddressOf(trace[i]))}
Emit == (EmitOn /\ pend = {}) => PrintT("CASE " \o ToJson(trace))
=============================================================================
