------------------------------- MODULE Snippet -------------------------------
(* Source snippets: what is shown for a line of a file, for every file content, line, column and context size.

   A file is given as `raw`, its content cut at every "\n" (so there is always one more piece than there are "\n").
   Every piece but the last ended in a newline and loses one trailing "\r". A file that cannot be read shows nothing. *)
EXTENDS StrOps

Margin == 8
StripCR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "\r" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
FileLines(raw) == [i \in 1..Len(raw) |-> IF i < Len(raw) THEN StripCR(raw[i]) ELSE raw[i]]

\* the window of the file that exists, then without blank lines at its outer ends (the target always stays)
Window(lines, target, ctx) == (IF target - ctx < 1 THEN 1 ELSE target - ctx) .. (IF target + ctx > Len(lines) THEN Len(lines) ELSE target + ctx)
Shown(lines, target, ctx) ==
  LET W == Window(lines, target, ctx)
  IN {i \in W : \/ i = target
                \/ i < target /\ \E j \in W : j <= i /\ lines[j] # ""
                \/ i > target /\ \E j \in W : j >= i /\ lines[j] # ""}

LineNo(i, target, yellow, reset) ==
  IF i = target
  THEN yellow \o Spaces(Margin - (Len(Dec(i)) + 3)) \o " > " \o Dec(i) \o ": " \o reset
  ELSE PadLeft(Dec(i), Margin) \o ": "
Caret(col, yellow, reset) == "\n" \o Spaces(Margin + 2 + col - 1) \o yellow \o "^" \o reset

\* col = -1 means no column; yellow/reset are the escape sequences, or "" without color
SnippetText(ok, raw, target, col, ctx, yellow, reset) ==
  IF ~ok THEN ""
  ELSE LET lines == FileLines(raw)
           S == Shown(lines, target, ctx)
           lo == IF S = {} THEN 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
           hi == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
           OneLine(i) == LineNo(i, target, yellow, reset) \o lines[i]
                         \o (IF i = target /\ col >= 0 THEN Caret(col, yellow, reset) ELSE "")
       IN JoinStr([n \in 1..(hi - lo + 1) |-> OneLine(lo + n - 1)], "\n")
=============================================================================
