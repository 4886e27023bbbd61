------------------------------ MODULE MCSymbols ------------------------------
(* Grows random choice tapes and reads function symbols off them: each complete tape is a case with the symbol's
   mangled name, its spellings and the qualified name pruning has to return for each spelling.                       *)
EXTENDS Symbols, Json
CONSTANTS TapeLen

\* reading a tape: an exhausted tape chooses the first (simplest) alternative everywhere
Hd(t) == IF t = <<>> THEN 0 ELSE Head(t)
Tl(t) == IF t = <<>> THEN <<>> ELSE Tail(t)
Pick(t, n) == Hd(t) % n

Ids == <<"foo", "S", "ns", "Bar", "x_1", "operator_", "constant", "v1", "$_0", "lambda_2", "_Zz", "newt", "anonymous", "a">>
Tags == <<"cxx11", "v2">>
Ops == 1..Len(Operators)
\* operators whose name can stand as a template argument without running into the closing bracket
SafeArgOps == SelectSeq([i \in Ops |-> i], LAMBDA i : Operators[i][2] \notin {"-", ">", "<=", "<", "<<", "->", ">>", "%"} /\ Operators[i][1] \notin {"nw", "na", "dl", "da", "aw"})

Id(n, has, args) == [k |-> "id", n |-> n, i |-> 0, has |-> has, args |-> args, abi |-> "", ps |-> <<>>]
Fn(outer, comps, cv, ref, ps, ret) == [k |-> "fn", outer |-> outer, comps |-> comps, cv |-> cv, ref |-> ref, ps |-> ps, ret |-> ret]
B(i) == [k |-> "b", i |-> i]

RECURSIVE Inner(_)
Inner(t) == t.k \in {"f", "a", "mf"} \/ (t.k \in {"p", "l", "r", "c", "v", "md"} /\ Inner(t.t))
\* a function that can be named as a template argument in all dialects
RECURSIVE AsArg(_)
AsArg(f) == [f EXCEPT !.comps = [i \in DOMAIN @ |-> IF @[i].k = "conv" THEN Id("foo", FALSE, <<>>)
                                   ELSE IF @[i].k = "op" THEN [@[i] EXCEPT !.i = SafeArgOps[1 + (@ % Len(SafeArgOps))]] ELSE @[i]],
                      !.outer = IF @ = <<>> THEN <<>> ELSE <<AsArg(@[1])>>]

\* standard library types over simple types
Cls(comps) == [k |-> "s", outer |-> <<>>, comps |-> comps]
Std(n, args, dual) == Cls(<<Id("std", FALSE, <<>>), [Id("", FALSE, <<>>) EXCEPT !.k = "inl", !.i = IF dual THEN 1 ELSE 0], Id(n, TRUE, [i \in DOMAIN args |-> [k |-> "t", t |-> args[i]]])>>)
Chars == <<4, 4, 4, 12, 13>>
RECURSIVE GStd(_, _)
GStd(t, z) ==
  LET c == Pick(t, IF z = 0 THEN 4 ELSE 11)
      u == Tl(t)
      ch == B(Chars[1 + Pick(u, 5)])
      e == IF c < 4 THEN <<B(1), Tl(u)>> ELSE GStd(u, z - 1)
      e2 == IF c = 8 THEN GStd(e[2], z - 1) ELSE <<B(1), e[2]>>
      T == e[1]
      Alloc(x) == Std("allocator", <<x>>, FALSE)
  IN CASE c = 0 -> <<B(1 + Pick(u, Len(Builtins))), Tl(u)>>
       [] c = 1 -> <<Cls(<<Id(Ids[1 + Pick(u, Len(Ids))], FALSE, <<>>)>>), Tl(u)>>
       [] c = 2 -> <<Std("basic_string", <<ch, Std("char_traits", <<ch>>, FALSE), Alloc(ch)>>, TRUE), Tl(u)>>
       [] c = 3 -> <<Std("basic_string_view", <<ch, Std("char_traits", <<ch>>, FALSE)>>, FALSE), Tl(u)>>
       [] c = 4 -> <<Std("vector", <<T, Alloc(T)>>, FALSE), e[2]>>
       [] c = 5 -> <<Std("list", <<T, Alloc(T)>>, TRUE), e[2]>>
       [] c = 6 -> <<Std("unique_ptr", <<T, Std("default_delete", <<T>>, FALSE)>>, FALSE), e[2]>>
       [] c = 7 -> <<Std("shared_ptr", <<T>>, FALSE), e[2]>>
       [] c = 8 /\ z > 1 -> <<T, e2[2]>>
       [] c = 8 -> <<Std("map", <<T, e2[1], Std("less", <<T>>, FALSE), Alloc(Std("pair", <<[k |-> "c", t |-> T], e2[1]>>, FALSE))>>, FALSE), e2[2]>>
       [] c = 9 -> <<Alloc(T), e[2]>>
       [] c = 10 -> <<[k |-> "p", t |-> T], e[2]>>

RECURSIVE GType(_, _), GTypes(_, _, _), GClass(_, _), GArg(_, _), GArgs(_, _, _), GScopes(_, _, _, _), GFn(_, _), GLast(_, _, _)
\* every generator returns <<value, rest of the tape>>; z bounds the nesting
IsRef(t) == t.k \in {"l", "r", "a"}
GType(t, z) ==
  LET c == Pick(t, IF z = 0 THEN 4 ELSE 22)
  IN CASE c \in {0, 1} -> <<B(1 + Pick(Tl(t), Len(Builtins))), Tl(Tl(t))>>
       [] c >= 18 -> GStd(Tl(t), IF z > 2 THEN 2 ELSE z)
       [] c \in {2, 3, 15} -> GClass(Tl(t), IF z = 0 THEN 0 ELSE z - 1)
       [] c \in {4, 5} -> LET r == GType(Tl(t), z - 1) IN <<IF IsRef(r[1]) THEN r[1] ELSE [k |-> "p", t |-> r[1]], r[2]>>
       [] c \in {6, 7} -> LET r == GType(Tl(t), z - 1) IN <<IF IsRef(r[1]) THEN r[1] ELSE [k |-> "l", t |-> r[1]], r[2]>>
       [] c = 8 -> LET r == GType(Tl(t), z - 1) IN <<IF IsRef(r[1]) THEN r[1] ELSE [k |-> "r", t |-> r[1]], r[2]>>
       [] c \in {9, 16} -> LET r == GType(Tl(t), z - 1) IN <<IF IsRef(r[1]) \/ r[1].k \in {"c", "v"} THEN r[1] ELSE [k |-> "c", t |-> r[1]], r[2]>>
       [] c = 10 -> LET r == GType(Tl(t), z - 1) IN <<IF IsRef(r[1]) \/ r[1].k \in {"c", "v"} THEN r[1] ELSE [k |-> "v", t |-> r[1]], r[2]>>
       [] c \in {11, 17} -> LET r == GType(Tl(t), z - 1) p == GTypes(r[2], 2, z - 1)
                            IN <<[k |-> "f", ret |-> IF r[1].k = "a" THEN B(1) ELSE r[1], ps |-> p[1]], p[2]>>
       [] c = 12 -> LET r == GType(Tl(t), 0) IN <<[k |-> "a", t |-> r[1]], r[2]>>
       [] c = 13 -> LET r == GType(Tl(t), z - 1) q == GClass(r[2], z - 1)
                    IN <<[k |-> "md", c |-> q[1], t |-> IF r[1].k \in {"b", "s", "p"} THEN r[1] ELSE B(1)], q[2]>>
       [] c = 14 -> LET r == GType(Tl(t), z - 1) q == GClass(r[2], z - 1) p == GTypes(q[2], 2, z - 1)
                    IN <<[k |-> "mf", c |-> q[1], ret |-> IF r[1].k = "a" THEN B(1) ELSE r[1], ps |-> p[1], const |-> Pick(p[2], 2) = 1], Tl(p[2])>>
GTypes(t, n, z) ==
  LET m == Pick(t, n + 1)
      RECURSIVE go(_, _, _)
      go(i, u, acc) == IF i = 0 THEN <<acc, u>> ELSE LET r == GType(u, z) IN go(i - 1, r[2], Append(acc, IF r[1] = B(2) THEN B(1) ELSE r[1]))
  IN go(m, Tl(t), <<>>)
GClass(t, z) ==
  LET loc == z > 0 /\ Pick(t, 7) = 6
      o == IF loc THEN GFn(Tl(t), z - 1) ELSE <<Fn(<<>>, <<Id("foo", FALSE, <<>>)>>, {}, "", <<>>, B(1)), Tl(t)>>
      s == GScopes(o[2], 1 + Pick(o[2], 3), z, loc)
  IN <<[k |-> "s", outer |-> IF loc THEN <<o[1]>> ELSE <<>>, comps |-> s[1]], s[2]>>
GArg(t, z) ==
  LET c == Pick(t, IF z = 0 THEN 7 ELSE 16)
      u == Tl(t)
      N(k, n) == <<[k |-> k, n |-> n], u>>
  IN CASE c \in {0, 13, 14} -> LET r == GType(u, IF z = 0 THEN 0 ELSE z - 1) IN <<[k |-> "t", t |-> r[1]], r[2]>>
       [] c = 1 -> N("int", "5") [] c = 2 -> N("neg", "12") [] c = 3 -> N("char", "97") [] c = 4 -> N("ul", "256")
       [] c \in {5, 15} -> N("bool", "") [] c = 6 -> N("gt", "") [] c \in {7, 8, 9} -> LET q == GClass(u, z - 1) IN <<[k |-> "enum", t |-> [q[1] EXCEPT !.comps = IF q[1].outer = <<>> THEN @ ELSE <<Id("E", FALSE, <<>>)>>, !.outer = <<>>], n |-> "3"], q[2]>>
       [] c \in {10, 11} -> LET q == GFn(u, z - 1) IN
                            <<[k |-> "fn", f |-> AsArg(q[1])], q[2]>>
       [] c = 12 -> LET r == GArgs(u, 2, z - 1) IN <<IF r[1] = <<>> THEN [k |-> "int", n |-> "0"] ELSE [k |-> "pack", args |-> r[1]], r[2]>>
GArgs(t, n, z) ==
  LET m == Pick(t, n + 1)
      RECURSIVE go(_, _, _)
      go(i, u, acc) == IF i = 0 THEN <<acc, u>> ELSE LET r == GArg(u, z) IN go(i - 1, r[2], Append(acc, r[1]))
  IN go(m, Tl(t), <<>>)
\* n enclosing scopes; lambdas and unnamed types only inside functions (loc), and only as the first component
GScopes(t, n, z, loc) ==
  LET RECURSIVE go(_, _, _)
      go(i, u, acc) ==
        IF i = 0 THEN <<acc, u>>
        ELSE LET c == Pick(u, 10)
                 v == Tl(u)
                 first == acc = <<>>
             IN CASE first /\ loc /\ c \in {2, 3, 4} ->
                       LET p == GTypes(Tl(v), 2, IF z = 0 THEN 0 ELSE z - 1)
                       IN go(i - 1, p[2], <<[Id("", FALSE, <<>>) EXCEPT !.k = "lambda", !.i = 1 + Pick(v, 3), !.ps = SelectSeq(p[1], LAMBDA x : ~Inner(x))]>>)
                  [] first /\ loc /\ c = 5 -> go(i - 1, Tl(v), <<[Id("", FALSE, <<>>) EXCEPT !.k = "unnamed", !.i = 1 + Pick(v, 3)]>>)
                  [] first /\ ~loc /\ c = 5 -> go(i - 1, v, <<[Id("", FALSE, <<>>) EXCEPT !.k = "anon"]>>)
                  [] ~first /\ acc[Len(acc)].k = "id" /\ c = 5 -> go(i - 1, v, Append(acc, [Id("", FALSE, <<>>) EXCEPT !.k = "anon"]))
                  [] c \in {6, 7} \/ (c \in {8} /\ z > 0) ->
                       LET a == GArgs(Tl(v), 3, IF z = 0 THEN 0 ELSE z - 1)
                       IN go(i - 1, a[2], Append(acc, Id(Ids[1 + Pick(v, Len(Ids))], TRUE, a[1])))
                  [] c = 9 -> go(i - 1, Tl(Tl(v)), Append(acc, [Id(Ids[1 + Pick(v, Len(Ids))], FALSE, <<>>) EXCEPT !.abi = Tags[1 + Pick(Tl(v), 2)]]))
                  [] OTHER -> go(i - 1, Tl(v), Append(acc, Id(Ids[1 + Pick(v, Len(Ids))], FALSE, <<>>)))
  IN go(n, Tl(t), <<>>)
\* the function's own name; member: it has a named class around it
GLast(t, z, prev) ==
  LET c == Pick(t, 16)
      u == Tl(t)
      has == Pick(u, 3) = 1
      a == IF has THEN GArgs(Tl(u), 3, IF z = 0 THEN 0 ELSE z - 1) ELSE <<<<>>, Tl(u)>>
      nm == Ids[1 + Pick(a[2], Len(Ids))]
      inClass == prev # <<>> /\ prev[1].k = "id"
      inAny == prev # <<>> /\ prev[1].k \in {"id", "unnamed", "lambda"}
  IN CASE c \in {5, 6, 7} -> <<[Id("", has, a[1]) EXCEPT !.k = "op", !.i = 1 + Pick(a[2], Len(Operators))], Tl(a[2])>>
       [] inAny /\ prev[1].k = "lambda" -> <<[Id("", has, a[1]) EXCEPT !.k = "op", !.i = 6], Tl(a[2])>>
       [] c = 8 /\ inClass -> <<[Id(prev[1].n, has, a[1]) EXCEPT !.k = "ctor"], a[2]>>
       [] c = 9 /\ inClass -> <<[Id(prev[1].n, FALSE, <<>>) EXCEPT !.k = "dtor"], a[2]>>
       [] c \in {10, 11} /\ inAny -> LET ty == GType(a[2], 2)
                                     IN IF Nameable(ty[1]) THEN <<[k |-> "conv", n |-> "", i |-> 0, has |-> FALSE, args |-> <<>>, abi |-> "", ps |-> <<>>, t |-> ty[1]], ty[2]>>
                                        ELSE <<Id(nm, has, a[1]), Tl(ty[2])>>
       [] c = 12 /\ prev = <<>> -> <<[Id("_w", FALSE, <<>>) EXCEPT !.k = "lit"], a[2]>>
       [] c = 13 -> <<[Id(nm, has, a[1]) EXCEPT !.abi = Tags[1 + Pick(Tl(a[2]), 2)]], Tl(Tl(a[2]))>>
       [] OTHER -> <<Id(nm, has, a[1]), Tl(a[2])>>
\* both demanglers print a qualified function pointer without a space before the function's name
RECURSIVE NoConv(_)
NoConv(t) == CASE t.k = "s" -> [t EXCEPT !.outer = IF @ = <<>> THEN <<>> ELSE <<AsArg(@[1])>>]
               [] t.k \in {"p", "l", "r", "c", "v", "a"} -> [t EXCEPT !.t = NoConv(@)]
               [] t.k \in {"f"} -> [t EXCEPT !.ret = NoConv(@)]
               [] t.k = "md" -> [t EXCEPT !.t = NoConv(@), !.c = NoConv(@)]
               [] t.k = "mf" -> [t EXCEPT !.ret = NoConv(@), !.c = NoConv(@)]
               [] OTHER -> t
\* libiberty's decltype(nullptr) reads as a call where a function's return type has to be told from its name
RECURSIVE Leftmost(_)
Leftmost(t) == CASE t.k \in {"p", "l", "r", "c", "v", "a", "md"} -> Leftmost(t.t) [] t.k \in {"f", "mf"} -> Leftmost(t.ret) [] OTHER -> t
Undress(t) == IF Inner(t) /\ Leftmost(t).k = "b" /\ Builtins[Leftmost(t).i][1] = "Dn" THEN B(1) ELSE IF Inner(t) /\ t.k \in {"c", "v"} THEN t.t ELSE t
GFn(t, z) ==
  LET loc == z > 0 /\ Pick(t, 4) = 3
      o == IF loc THEN GFn(Tl(t), z - 1) ELSE <<Fn(<<>>, <<>>, {}, "", <<>>, B(1)), Tl(t)>>
      s == GScopes(o[2], Pick(o[2], 4) + (IF loc /\ Pick(o[2], 4) = 0 THEN 1 ELSE 0), z, loc)
      prev == IF s[1] = <<>> THEN <<>> ELSE <<s[1][Len(s[1])]>>
      l == GLast(s[2], z, prev)
      q == Pick(l[2], 12)
      member == prev # <<>> /\ l[1].k \notin {"ctor", "dtor"}
      cv == IF ~member THEN {} ELSE IF q \in {1, 2, 3, 6} THEN {"c"} ELSE IF q = 4 THEN {"v"} ELSE IF q = 5 THEN {"c", "v"} ELSE {}
      ref == IF ~member THEN "" ELSE IF q \in {6, 7} THEN "&" ELSE IF q = 8 THEN "&&" ELSE ""
      ps == GTypes(Tl(l[2]), 3, IF z = 0 THEN 0 ELSE z - 1)
      ret == GType(ps[2], IF z = 0 THEN 0 ELSE z - 1)
  IN <<Fn(IF loc THEN <<o[1]>> ELSE <<>>, Append(s[1], l[1]), cv, ref, IF l[1].k = "dtor" THEN <<>> ELSE ps[1], NoConv(Undress(ret[1]))), ret[2]>>

VARIABLES tape
Tape(prev) == [i \in 1..TapeLen |-> RandomElement(0..(5039 + 0 * Len(prev)))]
Init == tape = <<>>
Next == tape' = Tape(tape)
Spec == Init /\ [][Next]_tape

Sym == GFn(tape, 4)[1]
\* laws of the qualified name
RECURSIVE Strip(_, _), StripC(_)
StripC(c) == IF c.k = "conv" THEN c ELSE [c EXCEPT !.has = FALSE, !.args = <<>>, !.abi = "", !.ps = <<>>]
Strip(f, d) == [f EXCEPT !.comps = [i \in DOMAIN f.comps |-> StripC(f.comps[i])], !.cv = {}, !.ref = "", !.ps = <<>>, !.ret = B(1),
                !.outer = IF f.outer = <<>> THEN <<>> ELSE <<Strip(f.outer[1], d)>>]
Dialects == <<"gnu", "llvm", "msvc">>
\* the name does not depend on template arguments, parameters, qualifiers and return types anywhere in it
Independent == \A d \in {"gnu", "llvm", "msvc"} : Qual(Strip(Sym, d), d) = Qual(Sym, d)
Case == [m |-> Mangle(Sym), gnu |-> Spell(Sym, "gnu"), qgnu |-> Qual(Sym, "gnu"), llvm |-> Spell(Sym, "llvm"), qllvm |-> Qual(Sym, "llvm"),
         msvc |-> Spell(Sym, "msvc"), qmsvc |-> Qual(Sym, "msvc"), pgnu |-> Pretty(Sym, "gnu"),
         pllvm |-> Pretty(Sym, "llvm"), msvck |-> Spell(Sym, "msvck"), pmsvck |-> Pretty(Sym, "msvck"), tape |-> tape]
Emit == PrintT("CASE " \o ToJson(Case))
=============================================================================
