------------------------------- MODULE MCHelper -------------------------------
(* The helper protocol for a few threads and jobs; finished behaviours are emitted as fault schedules to replay. *)
EXTENDS Helper, Json
CONSTANTS EmitOn
\* only one emission per schedule: the interleaving does not matter to the replay
Emit == (EmitOn /\ AllDone) => PrintT("CASE " \o ToJson(hist))
Symm == Permutations(Threads)
=============================================================================
