-------------------------------- MODULE MCJit --------------------------------
(* All histories of registry operations over a few slots and images. The library's mechanism, a list of ranges ordered
   by low address searched for the last range starting at or before the address, is modelled beside the abstract
   registry and must give the same answer to every lookup in every reachable state. *)
EXTENDS Jit, Json, TLC
CONSTANTS Slots, Images, Top, Depth, EmitOn, KeepEmpty
VARIABLES reg, list, hist
vars == <<reg, list, hist>>

A(lo, hi) == [lo |-> lo, hi |-> hi]
Img(ranges) == [ok |-> TRUE, ranges |-> ranges, syms |-> <<>>]
ImagesV == {NoImage, Img(<<>>), Img(<<A(0, 2)>>), Img(<<A(2, 3)>>), Img(<<A(3, 6)>>), Img(<<A(1, 1)>>), Img(<<A(3, 3)>>),
            Img(<<A(6, 8), A(0, 1)>>)}
ImagesSmall == {NoImage, Img(<<A(0, 2)>>), Img(<<A(2, 4)>>), Img(<<A(3, 3)>>), Img(<<A(4, 7), A(1, 2)>>)}

Init == reg = Empty /\ list = <<>> /\ hist = <<>>
\* insert after every entry that does not start later
Insert(l, e) == LET n == Cardinality({i \in 1..Len(l) : l[i].lo <= e.lo})
                IN SubSeq(l, 1, n) \o <<e>> \o SubSeq(l, n + 1, Len(l))
Entries(s, img) == SelectSeq([i \in 1..(IF img.ok THEN Len(img.ranges) ELSE 0) |->
                                [lo |-> img.ranges[i].lo, hi |-> img.ranges[i].hi, slot |-> s]],
                             LAMBDA e : KeepEmpty \/ e.lo < e.hi)
InsertAll(l, es) == FoldLeft(Insert, l, es)
Without(l, s) == SelectSeq(l, LAMBDA e : e.slot # s)

Log(r) == hist' = Append(hist, r)
DoRegister(s, img) == /\ (IF s \in DOMAIN reg THEN reg[s] = img ELSE TRUE)
                      /\ Fits(reg, s, img)
                      /\ reg' = Register(reg, s, img) /\ list' = InsertAll(list, Entries(s, img))
                      /\ Log([op |-> "reg", slot |-> s, img |-> img])
DoUnregister(s) == /\ reg' = Unregister(reg, s) /\ list' = Without(list, s)
                   /\ Log([op |-> "unreg", slot |-> s, img |-> NoImage])
DoClear == reg' = Empty /\ list' = <<>> /\ Log([op |-> "clear", slot |-> 0, img |-> NoImage])
\* the memory of a failed or finished object may be reused; nothing remains of it
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Slots, img \in Images : DoRegister(s, img)
           \/ \E s \in Slots : DoUnregister(s)
           \/ DoClear
Spec == Init /\ [][Next]_vars

\* the mechanism
Below(pc) == {i \in 1..Len(list) : list[i].lo <= pc}
LastBelow(pc) == CHOOSE i \in Below(pc) : \A m \in Below(pc) : m <= i
Mechanism(pc) == IF Below(pc) = {} THEN {}
                 ELSE LET e == list[LastBelow(pc)]
                      IN IF pc < e.hi THEN {<<e.slot, [lo |-> e.lo, hi |-> e.hi]>>} ELSE {}

Agree == \A pc \in 0..Top : Mechanism(pc) = Hits(reg, pc)
AtMostOne == \A pc \in 0..Top : Cardinality(Hits(reg, pc)) <= 1
Ordered == \A i, m \in 1..Len(list) : i < m => list[i].lo <= list[m].lo
\* unregistering one object leaves the lookups of all others alone
Gone == \A s \in Slots : s \notin DOMAIN reg => \A i \in 1..Len(list) : list[i].slot # s
Answers == [pc \in 0..Top |-> IF Hits(reg, pc) = {} THEN <<>>
                              ELSE LET h == CHOOSE h \in Hits(reg, pc) : TRUE IN <<h[1], h[2].lo>>]
Emit == (EmitOn /\ Len(hist) > 0) => PrintT("CASE " \o ToJson([h |-> hist, a |-> [i \in 1..(Top + 1) |-> Answers[i - 1]]]))
=============================================================================
