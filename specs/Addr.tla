-------------------------------- MODULE Addr --------------------------------
(* 64-bit addresses as three limbs, most significant first: 16, 24 and 24 bits (TLC's integers have 32). *)
EXTENDS Integers, Sequences
LimbBase == 16777216
TopBase == 65536
AZero == <<0, 0, 0>>
ALess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
AIn(a, lo, hi) == ~ALess(a, lo) /\ ALess(a, hi)
\* a - b, modulo 2^64
ASub(a, b) ==
  LET d3 == a[3] - b[3]
      c3 == IF d3 < 0 THEN 1 ELSE 0
      d2 == a[2] - b[2] - c3
      c2 == IF d2 < 0 THEN 1 ELSE 0
      d1 == a[1] - b[1] - c2
  IN <<d1 % TopBase, d2 % LimbBase, d3 % LimbBase>>
=============================================================================
