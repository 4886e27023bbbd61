------------------------------ MODULE MCSnippet ------------------------------
(* Every small file, target line, context and column: properties of the snippet function, and cases to replay. *)
EXTENDS Snippet, Json
CONSTANTS Pieces, MaxPieces, Targets, Ctxs, Cols, EmitOn
VARIABLES raw, target, ctx, col, out
vars == <<raw, target, ctx, col, out>>

ColsV == {-1, 1, 3}
Init == /\ \E n \in 1..MaxPieces : raw \in [1..n -> Pieces]
        /\ target \in Targets /\ ctx \in Ctxs /\ col \in Cols
        /\ out = "?"
Next == /\ out = "?"
        /\ out' = SnippetText(TRUE, raw, target, col, ctx, "", "")
        /\ UNCHANGED <<raw, target, ctx, col>>
Spec == Init /\ [][Next]_vars

Done == out # "?"
Lines == FileLines(raw)
S == Shown(Lines, target, ctx)
\* the shown lines are a contiguous part of the window
Contiguous == \A i, j \in S : \A m \in i..j : m \in S
\* the target is shown exactly if the file has it
TargetShown == (target \in S) <=> target \in 1..Len(Lines)
\* nothing outside the window; every non-blank line of the window is there
Complete == /\ S \subseteq Window(Lines, target, ctx)
            /\ \A i \in Window(Lines, target, ctx) : Lines[i] # "" => i \in S
\* no blank line at either end except the target
Tight == \A i \in S : \/ i < target /\ \A j \in S : j >= i
                      \/ i > target /\ \A j \in S : j <= i
                      => Lines[i] # ""
\* a larger context never shows less
Monotone == S \subseteq Shown(Lines, target, ctx + 1)
ShowsNothing == Done => ((out = "") <=> S = {})
Emit == (EmitOn /\ Done) => PrintT("CASE " \o ToJson([raw |-> raw, t |-> target, c |-> ctx, k |-> col, out |-> out]))
=============================================================================
