------------------------------- MODULE Symbols -------------------------------
(* C++ function symbols as abstract trees with their meanings: the Itanium mangled name (Mangle), the spelling in the
   three demangled dialects (Spell: "gnu" as libiberty and the gcc runtime demangle, "llvm", "msvc") and the qualified
   name that pruning keeps (Qual).

   A function symbol is [k |-> "fn", outer, comps, cv, ref, ps, ret]:
     outer  <<>> or a one element sequence with the function symbol it is local to
     comps  the components of its name, outermost first
     ps     parameter types, ret its return type (spelled for templates; always by msvc)
   A component is [k, n, has, args, abi]: kind, name or number, whether it has template arguments, them, an abi tag.
   A class type is [k |-> "s", outer, comps].                                                                        *)
EXTENDS StrOps

RECURSIVE FoldS(_, _)
FoldS(op(_), ss) == IF ss = <<>> THEN "" ELSE op(Head(ss)) \o FoldS(op, Tail(ss))

B2(i) == [k |-> "b", i |-> i]
Drop3(s) == SubSeq(s, 4, Len(s))
LastCh(s) == IF s = "" THEN "" ELSE Ch(s, Len(s))

\* builtin types: <<mangled, gnu and llvm spelling, msvc spelling>>
Builtins == << <<"i", "int", "int">>, <<"v", "void", "void">>, <<"b", "bool", "bool">>, <<"c", "char", "char">>,
               <<"m", "unsigned long", "unsigned __int64">>, <<"y", "unsigned long long", "unsigned __int64">>,
               <<"x", "long long", "__int64">>, <<"d", "double", "double">>, <<"a", "signed char", "signed char">>,
               <<"e", "long double", "long double">>, <<"h", "unsigned char", "unsigned char">>,
               <<"Ds", "char16_t", "char16_t">>, <<"w", "wchar_t", "wchar_t">>,
               <<"Dn", "decltype(nullptr)", "std::nullptr_t">>, <<"n", "__int128", "__int128">>, <<"f", "float", "float">>,
               <<"Du", "char8_t", "char8_t">>, <<"j", "unsigned int", "unsigned int">>, <<"t", "unsigned short", "unsigned short">> >>
\* operators: mangled, spelled
Operators == << <<"pl", "+">>, <<"lt", "<">>, <<"gt", ">">>, <<"ls", "<<">>, <<"rs", ">>">>, <<"cl", "()">>, <<"ix", "[]">>,
                <<"pt", "->">>, <<"pm", "->*">>, <<"rS", ">>=">>, <<"lS", "<<=">>, <<"le", "<=">>, <<"ge", ">=">>, <<"eq", "==">>,
                <<"ne", "!=">>, <<"cm", ",">>, <<"nt", "!">>, <<"co", "~">>, <<"aa", "&&">>, <<"oo", "||">>, <<"aS", "=">>,
                <<"mi", "-">>, <<"ml", "*">>, <<"dv", "/">>, <<"rm", "%">>, <<"eo", "^">>, <<"an", "&">>, <<"or", "|">>,
                <<"pp", "++">>, <<"mm", "--">>, <<"pL", "+=">>, <<"ss", "<=>">>, <<"nw", " new">>, <<"na", " new[]">>,
                <<"dl", " delete">>, <<"da", " delete[]">>, <<"aw", " co_await">> >>
OpSpelled(c) == "operator" \o Operators[c.i][2]

\* dialects of demanglers, and how each prints after prettification ("P"); "msvck" prints class keys
IsG(d) == d \in {"gnu", "gnuP"}
IsL(d) == d \in {"llvm", "llvmP"}
IsM(d) == d \in {"msvc", "msvck", "msvckP"}
P(d) == d \in {"gnuP", "llvmP", "msvckP"}

---------------------------------------------------------------------------- \* mangling (no substitutions)
SrcName(n) == Dec(Len(n)) \o n
RECURSIVE MType(_), MEnc(_), MName(_, _, _), MComp(_), MArg(_), MClass(_)
MTypes(ts) == IF ts = <<>> THEN "v" ELSE FoldS(MType, ts)
MTag(c) == IF c.abi = "" THEN "" ELSE "B" \o SrcName(c.abi)
MArgs(c) == IF ~c.has THEN "" ELSE "I" \o (IF c.args = <<>> THEN "JE" ELSE FoldS(MArg, c.args)) \o "E"
SeqId(i) == IF i = 1 THEN "" ELSE Dec(i - 2)
MComp(c) == (CASE c.k = "id" -> SrcName(c.n) \o MTag(c)
               [] c.k = "anon" -> "12_GLOBAL__N_1"
               [] c.k = "inl" -> IF c.i = 1 THEN "7__cxx11" ELSE ""
               [] c.k = "unnamed" -> "Ut" \o SeqId(c.i) \o "_"
               [] c.k = "lambda" -> "Ul" \o MTypes(c.ps) \o "E" \o SeqId(c.i) \o "_"
               [] c.k = "ctor" -> "C1" \o MTag(c)
               [] c.k = "dtor" -> "D1"
               [] c.k = "op" -> Operators[c.i][1]
               [] c.k = "lit" -> "li" \o SrcName(c.n)
               [] c.k = "conv" -> "cv" \o MType(c.t))
            \o MArgs(c)
MQual(cv, ref) == (IF "v" \in cv THEN "V" ELSE "") \o (IF "c" \in cv THEN "K" ELSE "")
                  \o (CASE ref = "" -> "" [] ref = "&" -> "R" [] ref = "&&" -> "O")
MName(comps, cv, ref) == IF Len(comps) = 1 /\ cv = {} /\ ref = "" THEN MComp(comps[1])
                         ELSE "N" \o MQual(cv, ref) \o FoldS(MComp, comps) \o "E"
IsTemplate(f) == LET c == f.comps[Len(f.comps)] IN c.has /\ c.k \notin {"ctor", "dtor", "conv"}
MEnc(f) == (IF f.outer = <<>> THEN MName(f.comps, f.cv, f.ref)
            ELSE "Z" \o MEnc(f.outer[1]) \o "E" \o MName(f.comps, f.cv, f.ref))
           \o (IF IsTemplate(f) THEN MType(f.ret) ELSE "") \o MTypes(f.ps)
MClass(t) == IF t.outer = <<>> THEN MName(t.comps, {}, "") ELSE "Z" \o MEnc(t.outer[1]) \o "E" \o MName(t.comps, {}, "")
MType(t) == CASE t.k = "b" -> Builtins[t.i][1]
              [] t.k = "p" -> "P" \o MType(t.t)
              [] t.k = "l" -> "R" \o MType(t.t)
              [] t.k = "r" -> "O" \o MType(t.t)
              [] t.k = "c" -> "K" \o MType(t.t)
              [] t.k = "v" -> "V" \o MType(t.t)
              [] t.k = "s" -> MClass(t)
              [] t.k = "f" -> "PF" \o MType(t.ret) \o MTypes(t.ps) \o "E"
              [] t.k = "a" -> "RA5_" \o MType(t.t)
              [] t.k = "md" -> "M" \o MClass(t.c) \o MType(t.t)
              [] t.k = "mf" -> "M" \o MClass(t.c) \o (IF t.const THEN "K" ELSE "") \o "F" \o MType(t.ret) \o MTypes(t.ps) \o "E"
MArg(a) == CASE a.k = "t" -> MType(a.t)
             [] a.k = "int" -> "Li" \o a.n \o "E"
             [] a.k = "neg" -> "Lin" \o a.n \o "E"
             [] a.k = "char" -> "Lc" \o a.n \o "E"
             [] a.k = "ul" -> "Lm" \o a.n \o "E"
             [] a.k = "bool" -> "Lb1E"
             [] a.k = "enum" -> "L" \o MClass(a.t) \o a.n \o "E"
             [] a.k = "fn" -> "XadL_Z" \o MEnc(a.f) \o "EE"
             [] a.k = "gt" -> "XgtLi5ELi3EE"
             [] a.k = "pack" -> "J" \o FoldS(MArg, a.args) \o "E"
Mangle(f) == "_Z" \o MEnc(f)

---------------------------------------------------------------------------- \* demangled spellings
\* llvm names the type of nullptr
BSpell(i, d) == IF IsM(d) \/ (IsL(d) /\ Builtins[i][1] = "Dn") THEN Builtins[i][3] ELSE Builtins[i][2]
RECURSIVE SL(_, _), SR(_, _), SFn(_, _, _), SComps(_, _, _), SComp(_, _), SArg(_, _), SClass(_, _), SJoin(_, _), SArgsL(_, _)
Comma(d) == IF IsM(d) /\ ~P(d) THEN "," ELSE ", "
SType(t, d) == SL(t, d) \o SR(t, d)
SJoin(ts, d) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN SType(ts[1], d) ELSE SType(ts[1], d) \o Comma(d) \o SJoin(Tail(ts), d)
Params(ts, d) == "(" \o (IF ts = <<>> THEN (IF IsM(d) THEN "void" ELSE "") ELSE SJoin(ts, d)) \o ")"
\* pointers to functions put their stars inside the parentheses: SL and SR are the text left and right of the name
\* libiberty drops the space after the star of an enclosing function pointer
FnOpen(t, d) == IF IsG(d) /\ SR(t, d) # "" /\ LastCh(SL(t, d)) \in {"*", "("} THEN "(" ELSE " ("
SL(t, d) ==
  CASE t.k = "b" -> BSpell(t.i, d)
    [] t.k = "p" -> SL(t.t, d) \o (IF IsM(d) /\ LastCh(SL(t.t, d)) # "*" THEN " *" ELSE "*")
    [] t.k = "l" -> SL(t.t, d) \o (IF IsM(d) THEN " &" ELSE "&")
    [] t.k = "r" -> SL(t.t, d) \o (IF IsM(d) THEN " &&" ELSE "&&")
    [] t.k = "c" -> SL(t.t, d) \o " const"
    [] t.k = "v" -> SL(t.t, d) \o " volatile"
    [] t.k = "s" -> (IF d = "msvck" THEN "class " ELSE "") \o SClass(t, d)
    [] t.k = "f" -> SL(t.ret, d) \o (IF IsM(d) THEN " (__cdecl*" ELSE FnOpen(t.ret, d) \o "*")
    [] t.k = "a" -> SL(t.t, d) \o " (&"
    [] t.k = "md" -> SL(t.t, d) \o " " \o SClass(t.c, d) \o "::*"
    [] t.k = "mf" -> SL(t.ret, d) \o (IF IsM(d) THEN " (__thiscall " ELSE " (") \o SClass(t.c, d) \o "::*"
SR(t, d) ==
  CASE t.k \in {"b", "s"} -> ""
    [] t.k \in {"p", "l", "r", "c", "v", "md"} -> SR(t.t, d)
    [] t.k = "f" -> ")" \o Params(t.ps, d) \o SR(t.ret, d)
    [] t.k = "a" -> ") [5]" \o SR(t.t, d)
    [] t.k = "mf" -> ")" \o Params(t.ps, d) \o (IF t.const THEN " const" ELSE "") \o SR(t.ret, d)
\* a template argument list, flattening packs
RECURSIVE Flat(_)
Flat(as) == IF as = <<>> THEN <<>> ELSE (IF Head(as).k = "pack" THEN Flat(Head(as).args) ELSE <<Head(as)>>) \o Flat(Tail(as))
SArgsL(as, d) == IF as = <<>> THEN "" ELSE IF Len(as) = 1 THEN SArg(as[1], d) ELSE SArg(as[1], d) \o Comma(d) \o SArgsL(Tail(as), d)
Angle(s, d) == "<" \o s \o (IF LastCh(s) = ">" /\ ~IsL(d) /\ ~P(d) THEN " >" ELSE ">")
\* prettified argument lists do not show standard allocators and deleters (other than as the first argument)
DefaultArg(a) == /\ a.k = "t" /\ a.t.k = "s" /\ Len(a.t.comps) = 3 /\ a.t.comps[2].k = "inl"
                 /\ a.t.comps[3].k = "id" /\ a.t.comps[3].has /\ a.t.comps[3].n \in {"allocator", "default_delete"}
ShownArgs(as, d) == IF as = <<>> \/ ~P(d) THEN as ELSE <<Head(as)>> \o SelectSeq(Tail(as), LAMBDA a : ~DefaultArg(a))
SArgs(c, d) == IF ~c.has THEN "" ELSE Angle(SArgsL(ShownArgs(Flat(c.args), d), d), d)
\* the standard strings, which prettify to the names of their aliases
StringAlias(c) == c.k = "id" /\ c.n \in {"basic_string", "basic_string_view"} /\ c.has /\ c.args # <<>>
                  /\ c.args[1].k = "t" /\ c.args[1].t = B2(4)
SArg(a, d) ==
  CASE a.k = "t" -> SType(a.t, d)
    [] a.k = "int" -> a.n
    [] a.k = "neg" -> "-" \o a.n
    [] a.k = "char" -> IF IsM(d) THEN a.n ELSE "(char)" \o a.n
    [] a.k = "ul" -> IF IsM(d) THEN a.n ELSE a.n \o "ul"
    [] a.k = "bool" -> IF IsM(d) THEN "1" ELSE "true"
    [] a.k = "enum" -> IF IsM(d) THEN a.n ELSE "(" \o SClass(a.t, d) \o ")" \o a.n
    \* libiberty: &S::f for a plain member, &(f(int)) otherwise
    [] a.k = "fn" -> CASE IsG(d) -> IF Len(a.f.comps) > 1 /\ a.f.outer = <<>> /\ ~a.f.comps[Len(a.f.comps)].has /\ a.f.cv = {} /\ a.f.ref = ""
                                            THEN "&" \o SComps(a.f.comps, "", d) ELSE "&(" \o SFn(a.f, d, a.f.outer = <<>>) \o ")"
                       [] OTHER -> "&" \o SFn(a.f, d, TRUE)
    [] a.k = "gt" -> CASE IsG(d) -> "((5)>(3))" [] IsL(d) -> "(5 > 3)" [] OTHER -> "1"
Num0(i) == IF i = 1 THEN "" ELSE Dec(i - 2)
SComp(c, d) ==
  (CASE c.k = "id" -> c.n \o (IF c.abi = "" THEN "" ELSE "[abi:" \o c.abi \o "]")
     [] c.k = "anon" -> IF IsM(d) /\ ~P(d) THEN "`anonymous namespace'" ELSE "(anonymous namespace)"
     [] c.k = "inl" -> CASE IsG(d) -> IF c.i = 1 /\ ~P(d) THEN "__cxx11" ELSE "" [] IsL(d) -> "__1" [] OTHER -> ""
     [] c.k = "unnamed" -> CASE IsG(d) -> "{unnamed type#" \o Dec(c.i) \o "}" [] IsL(d) -> "'unnamed" \o Num0(c.i) \o "'"
                             [] OTHER -> "T" \o Dec(c.i)
     [] c.k = "lambda" -> CASE IsG(d) -> "{lambda" \o Params(c.ps, d) \o "#" \o Dec(c.i) \o "}"
                            [] IsL(d) -> "'lambda" \o Num0(c.i) \o "'" \o Params(c.ps, d)
                            [] OTHER -> "<lambda_" \o Dec(c.i) \o ">"
     [] c.k = "ctor" -> c.n \o (IF c.abi = "" THEN "" ELSE "[abi:" \o c.abi \o "]")
     [] c.k = "dtor" -> "~" \o c.n
     [] c.k = "op" -> OpSpelled(c) \o (IF P(d) /\ OpSpelled(c) = "operator," THEN " " ELSE "") \o (IF c.has /\ LastCh(OpSpelled(c)) = "<" /\ (~IsL(d) \/ OpSpelled(c) = "operator<") THEN " " ELSE "")
     [] c.k = "lit" -> IF IsM(d) THEN "operator \"\" " \o c.n ELSE "operator\"\" " \o c.n
     [] c.k = "conv" -> "operator " \o SType(c.t, d))
  \o SArgs(c, d)
Dot(outer, s) == IF s = "" THEN outer ELSE IF outer = "" THEN s ELSE outer \o "::" \o s
SComps(cs, outer, d) ==
  IF cs = <<>> THEN outer
  ELSE IF P(d) /\ Len(cs) >= 3 /\ cs[2].k = "inl" /\ StringAlias(cs[3])
       THEN SComps(Drop3(cs), Dot(outer, IF cs[3].n = "basic_string" THEN "std::string" ELSE "std::string_view"), d)
  ELSE SComps(Tail(cs), Dot(outer, SComp(Head(cs), d)), d)
\* the function something is local to: libiberty and llvm print it without its return type if it is nested
SOuter(f, d, top) == IF f.outer = <<>> THEN ""
                     ELSE CASE IsG(d) -> SFn(f.outer[1], d, FALSE)
                            [] IsL(d) -> SFn(f.outer[1], d, TRUE)
                            [] OTHER -> "`" \o SFn(f.outer[1], d, TRUE) \o "'::`2'"
SClass(t, d) == SComps(t.comps, SOuter(t, d, FALSE), d)
Quals(f, d) == (IF "c" \in f.cv THEN " const" ELSE "") \o (IF "v" \in f.cv THEN " volatile" ELSE "")
               \o (IF f.ref = "" THEN "" ELSE " " \o f.ref)
NoReturn(f) == f.comps[Len(f.comps)].k \in {"ctor", "dtor", "conv"}
SFn(f, d, ret) ==
  LET nm == SComps(f.comps, SOuter(f, d, TRUE), d)
      decl == nm \o Params(f.ps, d) \o Quals(f, d)
      decl0 == nm \o Params(f.ps, d)
      shown == ret /\ (IF IsM(d) THEN ~NoReturn(f) ELSE IsTemplate(f))
      \* inside the parentheses of a function or array pointer there is no space before the name
      l == SL(f.ret, d)
      inner == SR(f.ret, d) # ""
  IN IF ~shown THEN decl
     ELSE IF inner /\ IsG(d) THEN l \o decl \o SR(f.ret, d)
     ELSE IF inner /\ IsL(d) THEN l \o decl0 \o SR(f.ret, d) \o Quals(f, d)
     ELSE l \o " " \o (IF IsM(d) /\ SR(f.ret, d) = "" THEN "__cdecl " ELSE "") \o decl \o SR(f.ret, d)
\* msvc symbols are spelled only with the return and conversion types whose undecorated form is known here
SimpleRet(t) == IF t.k \in {"b", "s"} \/ (t.k \in {"p", "l", "c"} /\ t.t.k \in {"b", "s"}) THEN t ELSE B2(1)
RECURSIVE Msvc(_)
Msvc(f) == [f EXCEPT !.ret = SimpleRet(@), !.outer = IF @ = <<>> THEN <<>> ELSE <<Msvc(@[1])>>,
                     !.comps = [i \in DOMAIN @ |-> IF @[i].k = "conv" /\ (@[i].t.k # "s" \/ @[i].t.outer # <<>>) THEN [@[i] EXCEPT !.t = B2(1)] ELSE @[i]]]
\* llvm spells the return type of a template function a type is local to, after "operator" indistinguishable from the type
RECURSIVE Llvm(_), HasLocal(_)
HasLocal(t) == CASE t.k = "s" -> t.outer # <<>>
                 [] t.k \in {"p", "l", "r", "c", "v", "a"} -> HasLocal(t.t)
                 [] t.k = "f" -> HasLocal(t.ret)
                 [] t.k = "md" -> HasLocal(t.t) \/ HasLocal(t.c)
                 [] t.k = "mf" -> HasLocal(t.ret) \/ HasLocal(t.c)
                 [] OTHER -> FALSE
Llvm(f) == [f EXCEPT !.ret = IF HasLocal(@) \/ (f.outer # <<>> /\ SR(@, "llvm") # "") THEN B2(1) ELSE @,
                     !.outer = IF @ = <<>> THEN <<>> ELSE <<[Llvm(@[1]) EXCEPT !.ret = IF SR(@, "llvm") # "" THEN B2(1) ELSE @]>>,
                     !.comps = [i \in DOMAIN @ |-> IF @[i].k = "conv" /\ @[i].t.k # "b" THEN
                         (IF @[i].t.k = "s" /\ @[i].t.outer = <<>> THEN @[i] ELSE [@[i] EXCEPT !.t = B2(1)]) ELSE @[i]]]
In(f, d) == CASE IsM(d) -> Msvc(f) [] IsL(d) -> Llvm(f) [] OTHER -> f
\* d: one of gnu, llvm, msvc, msvck; Pretty(f, d): the prettified spelling of the same symbol
Pretty(f, d) == LET p == CASE d = "gnu" -> "gnuP" [] d = "llvm" -> "llvmP" [] OTHER -> "msvckP" IN SFn(In(f, p), p, TRUE)
Spell(f, d) == SFn(In(f, d), d, TRUE)

---------------------------------------------------------------------------- \* the qualified name
RECURSIVE QType(_, _), QComps(_, _, _), QFn(_, _), QClass(_, _)
\* types that name something: what a conversion function converts to, up to template arguments and qualifiers
RECURSIVE Named(_)
Named(t) == t.k \in {"b", "s"} \/ (t.k \in {"p", "c", "v"} /\ Named(t.t))
Nameable(t) == \/ t.k \in {"b", "s"}
               \/ t.k \in {"p", "l", "r"} /\ Named(t.t)
               \/ t.k = "md" /\ t.t.k \in {"b", "s"} /\ (t.t.k = "b" => Builtins[t.t.i][1] # "Dn")
QType(t, d) == CASE t.k = "b" -> BSpell(t.i, d)
                 [] t.k = "s" -> QClass(t, d)
                 [] t.k \in {"c", "v"} -> QType(t.t, d)
                 [] t.k = "p" -> QType(t.t, d) \o "*"
                 [] t.k = "l" -> QType(t.t, d) \o "&"
                 [] t.k = "r" -> QType(t.t, d) \o "&&"
                 [] t.k = "md" -> QType(t.t, d) \o " " \o QClass(t.c, d) \o "::*"
QComp(c, d) == CASE c.k = "id" -> c.n
                 [] c.k = "inl" -> CASE IsG(d) -> IF c.i = 1 THEN "__cxx11" ELSE "" [] IsL(d) -> "__1" [] OTHER -> ""
                 [] c.k = "anon" -> "(anonymous namespace)"
                 [] c.k = "unnamed" -> CASE IsG(d) -> "<unnamed type#" \o Dec(c.i) \o ">" [] IsL(d) -> "<unnamed" \o Num0(c.i) \o ">"
                                         [] OTHER -> "T" \o Dec(c.i)
                 [] c.k = "lambda" -> CASE IsG(d) -> "<lambda#" \o Dec(c.i) \o ">" [] IsL(d) -> "<lambda" \o Num0(c.i) \o ">"
                                        [] OTHER -> "<lambda_" \o Dec(c.i) \o ">"
                 [] c.k = "ctor" -> c.n
                 [] c.k = "dtor" -> "~" \o c.n
                 [] c.k = "op" -> OpSpelled(c)
                 [] c.k = "lit" -> "operator\"\"" \o c.n
                 [] c.k = "conv" -> "operator " \o QType(c.t, d)
QComps(cs, outer, d) == IF cs = <<>> THEN outer
                        ELSE QComps(Tail(cs), Dot(outer, QComp(Head(cs), d)), d)
QOuter(f, d) == IF f.outer = <<>> THEN "" ELSE IF IsM(d) THEN "`" \o QFn(f.outer[1], d) \o "'::`2'" ELSE QFn(f.outer[1], d)
QClass(t, d) == QComps(t.comps, QOuter(t, d), d)
QFn(f, d) == QComps(f.comps, QOuter(f, d), d)
Qual(f, d) == QFn(In(f, d), d)
=============================================================================
