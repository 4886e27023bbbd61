--------------------------------- MODULE Jit ---------------------------------
(* The registry of in-memory JIT objects.

   An image is what a block of memory holds: [ok, ranges, syms]. ok is false for memory that is not a readable object
   image; ranges are its code ranges, [lo, hi) each; syms are its function symbols, at addresses lo..hi-1 of the range
   they are in. reg maps every block of memory (slot) that is registered to the image it holds. Live code ranges of
   different registered objects never overlap (two pieces of code cannot be at one address). *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

NoImage == [ok |-> FALSE, ranges |-> <<>>, syms |-> <<>>]
RangesOf(img) == IF img.ok THEN {img.ranges[i] : i \in 1..Len(img.ranges)} ELSE {}
In(pc, r) == r.lo <= pc /\ pc < r.hi
Disjoint(r, q) == r.hi <= q.lo \/ q.hi <= r.lo \/ r.lo >= r.hi \/ q.lo >= q.hi

\* pc's registered code: the slot and range, as a set that is empty or a singleton
Hits(reg, pc) == {h \in {<<s, r>> : s \in DOMAIN reg, r \in UNION {RangesOf(reg[t]) : t \in DOMAIN reg}} :
                    h[2] \in RangesOf(reg[h[1]]) /\ In(pc, h[2])}
\* the names an address of a registered object may be given: symbols are half-open; at the very end of a symbol that
\* nothing follows either answer is accepted
SymHits(img, pc) == {img.syms[i].name : i \in {i \in 1..Len(img.syms) : In(pc, img.syms[i])}}
AtEnd(img, pc) == {img.syms[i].name : i \in {i \in 1..Len(img.syms) : pc = img.syms[i].hi}}
SymAnswers(img, pc) == IF SymHits(img, pc) # {} THEN SymHits(img, pc) ELSE {""} \cup AtEnd(img, pc)

\* operations
Register(reg, s, img) == [t \in DOMAIN reg \cup {s} |-> IF t = s THEN img ELSE reg[t]]
Unregister(reg, s) == [t \in DOMAIN reg \ {s} |-> reg[t]]
Empty == [t \in {} |-> NoImage]
Fits(reg, s, img) == \A t \in DOMAIN reg \ {s} : \A r \in RangesOf(reg[t]), q \in RangesOf(img) : Disjoint(r, q)
=============================================================================
