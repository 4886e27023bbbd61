------------------------------- MODULE StrOps -------------------------------
(* Strings as TLC sees them: Len, SubSeq and \o work on strings, indexing does not. *)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE IF n >= 8 THEN "        " \o Spaces(n - 8) ELSE " " \o Spaces(n - 1)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
\* left pads / right pads; text longer than the width is left alone
PadLeft(s, w) == Spaces(w - Len(s)) \o s
PadRight(s, w) == s \o Spaces(w - Len(s))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1) ELSE Dec(n \div 10) \o Dec(n % 10)
Digits(n) == IF n <= 0 THEN 1 ELSE Len(Dec(n))
\* position of the last character of s that is in the set cs, 0 if none
LastIn(s, cs) == LET P == {i \in 1..Len(s) : Ch(s, i) \in cs}
                 IN IF P = {} THEN 0 ELSE CHOOSE m \in P : \A i \in P : i <= m
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
ESC == "\\u001b"
=============================================================================
