-------------------------------- MODULE Traced --------------------------------
(* Traced exception objects. An object is a value [kind, msg, code, cause, org]:
     kind   its type;           msg   what message() says (up to the first NUL of what it was built with)
     code   the error number of a system_error, else 0
     cause  what nested_ptr() holds, else ""
     org    the construction whose stack trace() is
   All accessors are functions of this value. Copying copies it. *)
EXTENDS Naturals, Sequences

Gone == [kind |-> "gone", msg |-> "", code |-> 0, cause |-> "", org |-> 0]
NestedMsg(kind, desc) == IF kind = "std" THEN "Nested exception: " \o desc
                         ELSE "Nested exception holding instance of " \o desc
\* what an object built with these arguments is
Make(kind, arg, code, errtext, ckind, cdesc, cause, org) ==
  [kind |-> kind, code |-> code, cause |-> cause, org |-> org,
   msg |-> CASE kind = "system" -> arg \o ": " \o errtext
             [] kind = "lazy" -> "cpptrace::lazy_exception"
             [] kind = "nested" -> NestedMsg(ckind, cdesc)
             [] kind = "derived_lazy" -> "derived: " \o arg
             [] OTHER -> arg]
Message(v) == v.msg
What(v) == <<v.msg, v.org>>
Trace(v) == v.org
Code(v) == v.code
Cause(v) == v.cause
\* wrapping what a body threw: traced exceptions pass, all others become nested_exceptions of the wrapping function
Wrapped(isTraced, v, ckind, cdesc, cause, org) ==
  IF isTraced THEN v ELSE Make("nested", "", 0, "", ckind, cdesc, cause, org)
\* the type and value category CPPTRACE_WRAP gives for each kind of expression
WrapCategories == <<"lvalue same", "const lvalue same", "xvalue same", "prvalue 7", "void ran", "move-only 9", "lvalue same",
                    "function same", "member same", "prvalue 12", "block ran", "block returned 5", "lvalue same">>
=============================================================================
