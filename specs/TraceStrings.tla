----------------------------- MODULE TraceStrings -----------------------------
(* Laws of the symbol functions over arbitrary strings, for recorded answers [f, s, out, again] (again: the function
   applied to out).                                                                                                  *)
EXTENDS StrOps, Json
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad
Init == k \in 1..Len(R) /\ j = 1 /\ bad = ""
Q == R[k].ops[j]

\* a, without the characters in skip, is a subsequence of s
RECURSIVE Within(_, _, _, _, _)
Within(a, i, s, l, skip) ==
  IF i > Len(a) THEN TRUE
  ELSE LET c == Ch(a, i)
       IN IF c \in skip THEN Within(a, i + 1, s, l, skip)
          ELSE IF l > Len(s) THEN FALSE
          ELSE IF Ch(s, l) = c THEN Within(a, i + 1, s, l + 1, skip)
          ELSE Within(a, i, s, l + 1, skip)
Has(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
White == {" ", "\t", "\n", "\r"}
WordCh(c) == LET w == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_" IN \E i \in 1..Len(w) : Ch(w, i) = c
\* an msvc class key: the word followed by a space
Keyed(s, w) == \E i \in 1..(Len(s) - Len(w)) : /\ SubSeq(s, i, i + Len(w) - 1) = w /\ Ch(s, i + Len(w)) \in White
                                               /\ (i = 1 \/ ~WordCh(Ch(s, i - 1)))
CommasSpaced(s) == \A i \in 1..Len(s) : Ch(s, i) = "," => i < Len(s) /\ Ch(s, i + 1) = " "
                                                          /\ (i + 2 > Len(s) \/ Ch(s, i + 2) \notin White)
Trigger(s) == \E w \in {",", "> >", "class", "struct", "anonymous", "std::"} : Has(s, w)

\* pruning: the string itself or a non-empty part of it (normalisation adds only brackets)
PruneLaw == \/ Q.out = Q.s
            \/ Q.out # "" /\ Within(Q.out, 1, Q.s, 1, {"<", ">", "(", ")", " "})
\* prettification: only shortens, leaves what has none of its spellings, leaves none of them
PrettyLaw == /\ Trigger(Q.s) \/ Q.out = Q.s
             /\ Within(Q.out, 1, Q.s, 1, {" ", "(", ")"})
             /\ ~Has(Q.out, "`anonymous namespace'") /\ ~Has(Q.out, "std::__cxx11::")
             /\ ~Keyed(Q.out, "class") /\ ~Keyed(Q.out, "struct")
             /\ CommasSpaced(Q.out)
\* the text after the last separator
BaseLaw == LET n == LastIn(Q.s, {"/", "\\"}) IN Q.out = SubSeq(Q.s, n + 1, Len(Q.s))
KeepLaw == Q.out = Q.s
Law == CASE Q.f = "prune" -> PruneLaw
         [] Q.f = "pretty" -> PrettyLaw
         [] Q.f = "basename" -> BaseLaw
         [] Q.f = "keep" -> KeepLaw
Next == /\ j <= Len(R[k].ops) /\ bad = ""
        /\ j' = j + 1 /\ k' = k
        /\ bad' = IF Law THEN "" ELSE Q.f \o " of " \o Q.s \o " gave " \o Q.out
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
=============================================================================
