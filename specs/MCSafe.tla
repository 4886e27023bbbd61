------------------------------- MODULE MCSafe -------------------------------
(* Exploration of Safe; emits, for every kind of point a signal may arrive at, the windows captured there. *)
EXTENDS Safe, Json, TLC
CONSTANTS EmitOn
Emit == done.none \/ caps # <<>> \/ ~EmitOn \/
        PrintT("CASE " \o ToJson([n |-> Len(done.of), skip |-> done.skip, depth |-> done.depth, size |-> done.size,
                                   inAlloc |-> "alloc" \in done.held, inCache |-> "cache" \in done.held, count |-> Len(done.out)]))
=============================================================================
