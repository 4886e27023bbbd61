------------------------------ MODULE TypeLattice ------------------------------
(* Which catch handler matches which thrown object, from the rules of [except.handle]. A type is a code: classes and
   scalars by name; "p"/"pc" followed by the pointee for pointers to (const) objects; fn/fnx function pointers. *)
EXTENDS Integers, Sequences, TLC
Classes == {"B", "D", "E", "M", "MI", "V", "W", "VW", "X1", "X2", "AM", "PB", "NP", "SE", "RT", "XR", "CE", "CR"}
Scalars == {"int", "uint", "long", "char", "bool", "dbl", "en", "ec", "nullp"}
\* direct public bases
Bases == [c \in Classes |-> CASE c = "D" -> {"B"} [] c = "E" -> {"D"} [] c = "MI" -> {"M", "B"} [] c = "V" -> {"B"} [] c = "W" -> {"B"}
            [] c = "VW" -> {"V", "W"} [] c = "X1" -> {"B"} [] c = "X2" -> {"B"} [] c = "AM" -> {"X1", "X2"}
            [] c = "RT" -> {"SE"} [] c = "XR" -> {"RT"} [] c = "CE" -> {"SE"} [] c = "CR" -> {"CE"} [] OTHER -> {}]
\* PB derives privately from B; AM has two B subobjects (X1 and X2 derive non-virtually), VW only one (virtual)
RECURSIVE Ancestors(_)
Ancestors(c) == LET d == Bases[c] IN d \cup UNION {Ancestors(b) : b \in d}
Unambiguous(c, b) == b \in Ancestors(c) /\ ~(c = "AM" /\ b = "B")
P(to, cst) == [to |-> to, cst |-> cst]
Pointers == [x \in {"pB", "pcB", "pD", "pcD", "pMI", "pM", "pcM", "pPB", "pAM", "pVW", "pint", "pcint", "pchar", "pcchar", "pvoid", "pcvoid", "ppint"} |->
   CASE x = "pB" -> P("B", FALSE) [] x = "pcB" -> P("B", TRUE) [] x = "pD" -> P("D", FALSE) [] x = "pcD" -> P("D", TRUE)
     [] x = "pMI" -> P("MI", FALSE) [] x = "pM" -> P("M", FALSE) [] x = "pcM" -> P("M", TRUE) [] x = "pPB" -> P("PB", FALSE)
     [] x = "pAM" -> P("AM", FALSE) [] x = "pVW" -> P("VW", FALSE) [] x = "pint" -> P("int", FALSE) [] x = "pcint" -> P("int", TRUE)
     [] x = "pchar" -> P("char", FALSE) [] x = "pcchar" -> P("char", TRUE) [] x = "pvoid" -> P("void", FALSE)
     [] x = "pcvoid" -> P("void", TRUE) [] x = "ppint" -> P("pint", FALSE)]
FnPtrs == {"fn", "fnx"}
Matches(h, t) ==
  \/ h = "..." \/ h = t
  \/ h \in Classes /\ t \in Classes /\ Unambiguous(t, h)
  \/ h \in DOMAIN Pointers /\ t = "nullp"
  \/ h \in FnPtrs /\ t = "nullp"
  \/ h = "fn" /\ t = "fnx"
  \/ /\ h \in DOMAIN Pointers /\ t \in DOMAIN Pointers
     /\ LET a == Pointers[h] b == Pointers[t]
        IN /\ b.cst => a.cst
           /\ \/ a.to = b.to \/ a.to = "void"
              \/ a.to \in Classes /\ b.to \in Classes /\ Unambiguous(b.to, a.to)
\* what a thrown object of type t carries when throw number n creates it
Value(t, n) == CASE t = "bool" -> 1 [] t = "nullp" -> -1 [] t = "SE" -> 0 [] t \in FnPtrs -> 7 [] OTHER -> n
\* handlers that can change the B part of the exception object
Mutable == {"B", "D", "E", "MI", "V", "W", "VW"}
=============================================================================
