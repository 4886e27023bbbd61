-------------------------------- MODULE Report --------------------------------
(* What becomes of a failure inside the library, and of every message it writes: the process-wide reporting configuration
   (level, destination, absorption) and the guards a failure passes on its way to the caller.
   A guard is one try/catch of the library: "report" (log_and_maybe_propagate_exception), "quiet" (an exception object's
   constructor or accessor: must not throw).                                                                           *)
EXTENDS Naturals, Sequences, FiniteSets

Levels == 0..3                              \* debug, info, warning, error
Error == 3
Sinks == {"none", "A", "B", "stderr"}
Visible(level, sink, m) == sink # "none" /\ m >= level

\* the guards around each operation's work, innermost first
Guards ==
  [ raw_gen |-> <<"report">>, raw_cur |-> <<"report", "report">>, raw_gen2 |-> <<"report">>,
    obj_gen |-> <<"report">>, obj_cur |-> <<"report", "report">>,
    st_gen |-> <<"report", "report">>, st_cur |-> <<"report", "report", "report">>,
    raw_resolve |-> <<"report">>, raw_resolve_obj |-> <<"report">>, obj_resolve |-> <<"report">>, prune |-> <<"report">>,
    batch |-> <<"report", "report">>,       \* one object's share of a resolution through the external symbolizer
    exc_ctor |-> <<"report", "quiet", "report">>, exc_trace |-> <<"report", "quiet">>,
    try_capture |-> <<"report">> ]
Members == {"exc_ctor", "exc_trace"}        \* operations that may never throw

\* a failure at the innermost guard: <<error reports, does it reach the caller>>
RECURSIVE Pass(_, _, _)
Pass(gs, absorb, n) ==
  IF gs = <<>> THEN <<n, TRUE>>
  ELSE LET g == Head(gs)
       IN IF g = "report" THEN IF absorb THEN <<n + 1, FALSE>> ELSE Pass(Tail(gs), absorb, n + 1)
          ELSE <<IF absorb THEN n ELSE n + 1, FALSE>>

\* what a user may rely on; `got` = <<reports, escaped>>
Obligation(op, absorb, got) ==
  IF absorb THEN got[1] = 1 /\ ~got[2]
  ELSE got[1] >= 1 /\ (got[2] <=> op \notin Members)

ASSUME \A op \in DOMAIN Guards, a \in BOOLEAN : Obligation(op, a, Pass(Guards[op], a, 0))

\* a failed lookup (an in-memory image that is no object, an unreadable object file): noted at debug level, an error only
\* for those who do not absorb, and never an exception
SoftNoise(absorb) == IF absorb THEN {0} ELSE {0, Error}

--------------------------------------------------------------------------------
VARIABLES level, sink, absorb, hist
vars == <<level, sink, absorb, hist>>

Init == level \in {2, 3} /\ sink = "none" /\ absorb = TRUE /\ hist = <<>>
\* the default level is not decided here: the code starts at warning, the documentation says error

Set(op) == CASE op.op = "level" -> level' = op.v /\ UNCHANGED <<sink, absorb>>
             [] op.op = "sink" -> sink' = op.v /\ UNCHANGED <<level, absorb>>
             [] op.op = "absorb" -> absorb' = op.v /\ UNCHANGED <<level, sink>>
             [] OTHER -> UNCHANGED <<level, sink, absorb>>
\* levels of the messages the operation writes, as a set of possible sequences' elements
Writes(op, a) == CASE op.op = "emit" -> {op.v}
                   [] op.op = "hard" -> {Error}
                   [] op.op = "soft" -> SoftNoise(a)
                   [] OTHER -> {}
Ops == {[op |-> "level", v |-> l] : l \in Levels} \cup {[op |-> "sink", v |-> s] : s \in Sinks}
         \cup {[op |-> "absorb", v |-> a] : a \in BOOLEAN} \cup {[op |-> "emit", v |-> l] : l \in Levels}
         \cup {[op |-> "hard", v |-> 0], [op |-> "soft", v |-> 0]}
Do(op) == Set(op) /\ hist' = Append(hist, op)
================================================================================
