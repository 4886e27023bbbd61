------------------------------- MODULE Terminate -------------------------------
(* How a program dies and what its terminate handler then says. A program is a cause of death, the type of the exception it
   throws (if it throws), and the functions on its stack. Functions are named innermost first.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- types: the direct bases that a handler can reach ([except.handle]: public and unambiguous)
Traced == "cpptrace::exception"
Std == "std::exception"
Types == {"t_runtime", "t_logic", "t_range", "t_system", "t_nested", "t_user", "t_lazy", "t_mixed", "t_message",
          "s_runtime", "s_user", "s_deep", "s_templ", "s_anon", "s_virtual", "s_tag", "s_bad_alloc", "s_system",
          "o_int", "o_cstr", "o_string", "o_plain", "o_box", "o_enum", "o_anon", "o_private", "o_twice", "o_private_traced", "o_ptr",
          "o_lambda", "o_null", "o_eptr"}
Bases == [t \in Types \cup {Traced, Std, "my_std", "vleft", "vright", "left_std", "right_std", "tag", "cpptrace::runtime_error", "std::runtime_error", "std::logic_error"} |->
  CASE t \in {"t_runtime", "t_logic", "t_range", "t_system", "t_nested", "t_user", "t_lazy", "t_message", "cpptrace::runtime_error"} -> <<Traced>>
    [] t = "t_mixed" -> <<"tag", "cpptrace::runtime_error">>
    [] t \in {"s_runtime", "s_templ", "s_anon", "s_system"} -> <<"std::runtime_error">>
    [] t \in {"s_user", "my_std"} -> <<"std::logic_error">>
    [] t = "s_deep" -> <<"my_std">>
    [] t = "s_virtual" -> <<"vleft", "vright">>
    [] t \in {"vleft", "vright", "left_std", "right_std", "s_bad_alloc", "std::runtime_error", "std::logic_error", Traced} -> <<Std>>
    [] t = "s_tag" -> <<"tag", Std>>
    [] t = "o_twice" -> <<"left_std", "right_std">>
    [] OTHER -> <<>>]
\* number of distinct base subobjects of a type that are a std::exception: a virtual base counts once
RECURSIVE Paths(_, _)
Paths(t, b) == IF t = b THEN 1 ELSE LET S == Bases[t] IN
               IF t = "s_virtual" THEN 1 ELSE IF S = <<>> THEN 0 ELSE Paths(S[1], b) + (IF Len(S) = 2 THEN Paths(S[2], b) ELSE 0)
Catches(b, t) == (t = "s_virtual" => b = Std) /\ Paths(t, b) = 1
Kind(t) == IF t = "" THEN "none" ELSE IF Catches(Traced, t) THEN "traced" ELSE IF Catches(Std, t) THEN "std" ELSE "other"

\* ---- causes of death: is an exception active, which functions are on the stack where it was made and where the program ends
Causes == {"uncaught", "thread", "atexit", "static", "noexcept", "terminate", "in_catch", "rethrow_none", "dtor", "nested",
           "after_caught", "rethrown", "stored", "joinable", "pure"}
Throws(c) == c \notin {"terminate", "rethrow_none", "joinable", "pure"}
Entry(c) == CASE c = "thread" -> "thread_main()" [] c = "atexit" -> "at_exit()" [] c = "static" -> "late_static::late_static()" [] OTHER -> "main"
Between(c) == CASE c = "noexcept" -> <<"shield()">> [] c = "dtor" -> <<"guard::~guard()", "unwinding()">> [] c = "stored" -> <<"maker()">> [] OTHER -> <<>>
Made(c) == <<"site()", "middle()">> \o Between(c) \o <<"outer()", Entry(c)>>
\* what must be on the stack when the handler runs; a noexcept boundary may or may not have been unwound to
Ends(c) == CASE c = "noexcept" -> <<"shield()", "outer()", "main">>
             [] c = "dtor" -> <<"guard::~guard()", "unwinding()", "outer()", "main">>
             [] c \in {"terminate", "in_catch"} -> <<"final_point()", "outer()", "main">>
             [] c \in {"rethrow_none", "rethrown", "stored", "joinable"} -> <<"outer()", "main">>
             [] c = "pure" -> <<"pure::call()", "pure::pure()", "outer()", "main">>
             [] OTHER -> Made(c)
MayRemain(c) == IF c \in {"noexcept", "dtor"} THEN {"site()", "middle()"} ELSE {}
AllFunctions == UNION {{Made(c)[i] : i \in DOMAIN Made(c)} \cup {Ends(c)[i] : i \in DOMAIN Ends(c)} : c \in Causes}

\* ---- the report
Report(t, c) == [kind |-> IF Throws(c) THEN Kind(t) ELSE "none",
                 chain |-> IF Throws(c) /\ Kind(t) = "traced" THEN Made(c) ELSE Ends(c),
                 extra |-> IF Throws(c) /\ Kind(t) = "traced" THEN {} ELSE MayRemain(c)]
================================================================================
