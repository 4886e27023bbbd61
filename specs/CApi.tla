--------------------------------- MODULE CApi ---------------------------------
(* The C API as a machine over the structures its caller holds. A slot is one structure: a raw, object or resolved trace, a
   string, or one object frame; it is the caller's own (never handed to a free function) or was handed out by the library.
   Calls create slots, empty them, or only look at them; nothing else changes what a slot holds.                        *)
EXTENDS Integers, Sequences

TraceKinds == {"raw", "obj", "st"}
Kinds == TraceKinds \cup {"str", "info"}

\* the kind of the structure a call hands out, "" if it hands out none
NewKind(own, op) ==
  CASE op.op = "gen" -> <<"raw", "obj", "st", "raw">>[op.a + 1]
    [] op.op = "user_raw" -> "raw"
    [] op.op = "user_obj" -> "obj"
    [] op.op = "user_st" -> "st"
    [] op.op = "user_null" -> <<"raw", "obj", "st">>[op.a + 1]
    [] op.op = "resolve" -> "st"
    [] op.op = "toobj" -> "obj"
    [] op.op \in {"str", "text", "demangle"} -> "str"
    [] op.op = "info" -> "info"
    [] op.op = "null" -> <<"str", "str", "str", "st", "obj", "st", "info">>[op.a + 1]
    [] OTHER -> ""

Borrowed(op) == op.op \in {"user_raw", "user_obj", "user_st", "user_null"}

\* what a call may be given
Allowed(own, op) ==
  CASE op.op = "resolve" -> op.s \in DOMAIN own /\ own[op.s].kind \in {"raw", "obj"}
    [] op.op = "toobj" -> op.s \in DOMAIN own /\ own[op.s].kind = "raw"
    [] op.op \in {"str", "print", "info"} -> op.s \in DOMAIN own /\ own[op.s].kind = "st"
    [] op.op = "free" -> op.s \in DOMAIN own /\ own[op.s].owned
    [] OTHER -> TRUE

\* what freeing leaves: an empty structure. (A string inside an object frame is freed alone.)
\* v: the slot before
Emptied(v) ==
  IF v.kind = "info" THEN [v EXCEPT !.frames = <<[@[1] EXCEPT !.path = "<null>"]>>]
  ELSE [v EXCEPT !.null = TRUE, !.n = 0, !.frames = <<>>, !.text = ""]

\* everything the caller holds after a call, `new` being the structure handed out (if one is)
After(own, op, new) ==
  LET kept == IF op.op = "free" THEN [own EXCEPT ![op.s] = Emptied(@)] ELSE own
  IN IF NewKind(own, op) = "" THEN kept ELSE Append(kept, new)
================================================================================
