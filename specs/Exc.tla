--------------------------------- MODULE Exc ---------------------------------
(* A thread's exception machine. The operations are those of a program (a tape): entering try blocks of the three forms,
   throwing, rethrowing, leaving blocks, objects with destructors, destructors that run code, threads, queries of
   cpptrace's traces. `stack` is the stack of open blocks, the two traces are numbers of throws (0 = empty).
   Forms: "plain" is the language's try/catch, "macro" is CPPTRACE_TRY/CPPTRACE_CATCH (further handlers are plain
   catches), "tc" is cpptrace::try_catch. *)
EXTENDS TypeLattice, FiniteSets, Json
CONSTANTS Lists, UseLists, Forms, Throws, Ops, MaxOps, MaxDepth
VARIABLES stack, exns, cur, sav, slots, nid, nthr, log, tape, seen, quirk, done
vars == <<stack, exns, cur, sav, slots, nid, nthr, log, tape, seen, quirk, done>>

All == CHOOSE l \in 1..Len(Lists) : Lists[l] = << <<"...", "v">> >>
Tr(n) == [n |-> n, res |-> FALSE]
F0 == [k |-> "", form |-> "", l |-> 0, j |-> 0, id |-> 0, e |-> 0, at |-> 0, cur |-> Tr(0), sav |-> Tr(0), seen |-> <<>>]
TryF(form, l, id) == [F0 EXCEPT !.k = "try", !.form = form, !.l = l, !.id = id]
Init == /\ stack = << TryF("plain", All, 0) >>
        /\ exns = <<>> /\ cur = Tr(0) /\ sav = Tr(0) /\ slots = <<0, 0>> /\ nid = 0 /\ nthr = 0
        /\ log = <<>> /\ tape = <<>> /\ seen = <<>> /\ quirk = FALSE /\ done = FALSE

Top == stack[Len(stack)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
MatchSet(l, from, t) == {j \in from..Len(Lists[l]) : Matches(Lists[l][j][1], t)}
None == [at |-> 0, j |-> 0]
\* the handler for an exception of type t thrown at the top of stack s: the innermost open try block with a matching
\* handler, the first such handler of it. Handlers in progress catch nothing - except that (as built, unlike the
\* language) a handler of try_catch is itself covered by the later handlers of the same try_catch.
RECURSIVE Find(_, _, _, _)
Find(s, p, t, lang) ==
  IF p = 0 THEN None
  ELSE LET f == s[p]
           js == CASE f.k = "try" -> MatchSet(f.l, 1, t)
                   [] f.k = "hnd" /\ f.form = "tc" /\ ~lang -> MatchSet(f.l, f.j + 1, t)
                   [] OTHER -> {}
       IN IF js # {} THEN [at |-> p, j |-> Least(js)]
          ELSE IF f.k \in {"dtor", "thread"} THEN None ELSE Find(s, p - 1, t, lang)
\* the exception being handled
RECURSIVE Current(_, _)
Current(s, p) == IF p = 0 THEN 0 ELSE IF s[p].k = "hnd" THEN s[p].e ELSE IF s[p].k = "thread" THEN 0 ELSE Current(s, p - 1)
Cur == Current(stack, Len(stack))
Txt(l, j, e) == IF Lists[l][j][1] = "..." THEN "-" ELSE ToString(e.v)
\* unwinding to handler j of the block at position `at`, stopping at a destructor that runs code
RECURSIVE Unwind(_, _, _, _, _, _)
Unwind(s, lg, at, j, e, ex) ==
  IF Len(s) > at
  THEN LET f == s[Len(s)] IN
       CASE f.k = "obj" -> Unwind(Front(s), Append(lg, "dtor " \o ToString(f.id)), at, j, e, ex)
         [] f.k = "run" -> [s |-> Append(Front(s), [F0 EXCEPT !.k = "dtor", !.id = f.id, !.at = at, !.j = j, !.e = e]),
                            lg |-> Append(lg, "dtor " \o ToString(f.id))]
         [] OTHER -> Unwind(Front(s), lg, at, j, e, ex)
  ELSE [s |-> [s EXCEPT ![at] = [@ EXCEPT !.k = "hnd", !.j = j, !.e = e]],
        lg |-> Append(lg, "catch " \o ToString(s[at].id) \o " " \o ToString(j) \o " " \o Txt(s[at].l, j, ex[e]))]
Op(o) == tape' = Append(tape, o)
Open == ~done /\ Len(tape) < MaxOps
UNCH(v) == UNCHANGED v
Traced(f, j) == f.form = "tc" \/ (f.form = "macro" /\ j = 1)
\* throw number n of exception object e; `re`: by cpptrace::rethrow
Raise(o, e, ex, re) ==
  LET t == ex[e].t
      q == Find(stack, Len(stack), t, FALSE)
      l == Find(stack, Len(stack), t, TRUE)
      n == nthr + 1
  IN /\ q # None \* otherwise the program terminates: C17
     /\ LET u == Unwind(stack, log, q.at, q.j, e, ex)
            traced == Traced(stack[q.at], q.j)
        IN /\ stack' = u.s /\ log' = u.lg
           /\ cur' = IF traced /\ ~re THEN Tr(n) ELSE cur
           /\ sav' = IF traced THEN (IF re THEN Tr(n) ELSE Tr(0)) ELSE sav
           /\ seen' = IF traced THEN Append(seen, [n |-> n, re |-> re]) ELSE seen
     /\ quirk' = (quirk \/ q # l)
     /\ exns' = ex /\ nthr' = n /\ Op(o)
     /\ UNCHANGED <<slots, nid, done>>
Throw(t) == "throw" \in Ops /\ Open /\ Raise("throw " \o t, Len(exns) + 1, Append(exns, [t |-> t, v |-> Value(t, nthr + 1)]), FALSE)
\* (the language runtime cannot `throw;` an exception that is still unwinding a rethrow of itself)
InFlight(e) == \E i \in 1..Len(stack) : stack[i].k = "dtor" /\ stack[i].at # 0 /\ stack[i].e = e
Rethrow == "rethrow" \in Ops /\ Open /\ Cur # 0 /\ ~InFlight(Cur) /\ Raise("rethrow", Cur, exns, FALSE)
CRethrow == "crethrow" \in Ops /\ Open /\ Cur # 0 /\ Raise("crethrow", Cur, exns, TRUE)
RaiseSlot(i) == "raise" \in Ops /\ Open /\ slots[i] # 0 /\ Raise("raise " \o ToString(i), slots[i], exns, FALSE)
CRaiseSlot(i) == "craise" \in Ops /\ Open /\ slots[i] # 0 /\ Raise("craise " \o ToString(i), slots[i], exns, TRUE)
Save(i) == /\ "save" \in Ops /\ Open /\ Cur # 0 /\ slots[i] # Cur /\ slots' = [slots EXCEPT ![i] = Cur] /\ Op("save " \o ToString(i))
           /\ UNCHANGED <<stack, exns, cur, sav, nid, nthr, log, seen, quirk, done>>
Push(o, f) == /\ Open /\ Len(stack) < MaxDepth /\ nid' = nid + 1 /\ stack' = Append(stack, [f EXCEPT !.id = nid + 1]) /\ Op(o)
              /\ UNCHANGED <<exns, cur, sav, slots, nthr, log, seen, quirk, done>>
Try(form, l) == Push("try " \o form \o " " \o ToString(l - 1), TryF(form, l, 0))
Block(k) == k \in Ops /\ Push(k, [F0 EXCEPT !.k = k])
Thread == /\ "thread" \in Ops /\ Open /\ Len(stack) < MaxDepth
          /\ nid' = nid + 1
          /\ stack' = stack \o << [F0 EXCEPT !.k = "thread", !.cur = cur, !.sav = sav, !.seen = seen], TryF("plain", All, nid + 1) >>
          /\ cur' = Tr(0) /\ sav' = Tr(0) /\ seen' = <<>> /\ Op("thread")
          /\ UNCHANGED <<exns, slots, nthr, log, quirk, done>>
End == /\ ~done /\ Op("end")
       /\ LET f == Top s == Front(stack)
              lg == CASE f.k = "try" -> Append(log, "ok " \o ToString(f.id)) [] f.k = "hnd" -> Append(log, "after " \o ToString(f.id))
                      [] f.k = "obj" -> Append(log, "dtor " \o ToString(f.id)) [] f.k = "run" -> Append(log, "dtor " \o ToString(f.id))
                      [] f.k = "dtor" -> Append(log, "dtorend " \o ToString(f.id)) [] OTHER -> log
              thr == f.k \in {"try", "hnd"} /\ s # <<>> /\ s[Len(s)].k = "thread"
          IN /\ IF f.k = "run" THEN stack' = Append(s, [F0 EXCEPT !.k = "dtor", !.id = f.id]) /\ log' = lg
                ELSE IF f.k = "dtor" /\ f.at # 0 THEN LET u == Unwind(s, lg, f.at, f.j, f.e, exns) IN stack' = u.s /\ log' = u.lg
                ELSE stack' = (IF thr THEN Front(s) ELSE s) /\ log' = lg
             /\ IF thr THEN cur' = s[Len(s)].cur /\ sav' = s[Len(s)].sav /\ seen' = s[Len(s)].seen ELSE UNCHANGED <<cur, sav, seen>>
             /\ done' = (s = <<>>)
       /\ UNCHANGED <<exns, slots, nid, nthr, quirk>>
\* return from the innermost call
RECURSIVE CallAt(_, _)
CallAt(s, p) == IF p = 0 THEN 0 ELSE IF s[p].k = "call" THEN p
                ELSE IF s[p].k \in {"dtor", "thread", "run"} \/ s[p].form = "tc" THEN 0 ELSE CallAt(s, p - 1)
RECURSIVE Leave(_, _, _)
Leave(s, lg, p) == IF Len(s) < p THEN lg
                   ELSE Leave(Front(s), IF s[Len(s)].k = "obj" THEN Append(lg, "dtor " \o ToString(s[Len(s)].id)) ELSE lg, p)
Return == /\ "ret" \in Ops /\ Open /\ CallAt(stack, Len(stack)) # 0 /\ Op("ret")
          /\ LET p == CallAt(stack, Len(stack)) IN stack' = SubSeq(stack, 1, p - 1) /\ log' = Leave(stack, log, p)
          /\ UNCHANGED <<exns, cur, sav, slots, nid, nthr, seen, quirk, done>>
Mutate == /\ "mut" \in Ops /\ Open /\ Top.k = "hnd" /\ Lists[Top.l][Top.j][1] \in Mutable /\ Lists[Top.l][Top.j][2] = "r"
          /\ exns' = [exns EXCEPT ![Top.e].v = @ + 1000] /\ Op("mut")
          /\ UNCHANGED <<stack, cur, sav, slots, nid, nthr, log, seen, quirk, done>>
Ans == "q " \o ToString(cur.n) \o " " \o ToString(sav.n) \o " " \o (IF sav.n # 0 THEN "1" ELSE "0")
Query == /\ "q" \in Ops /\ Open /\ Op("q") /\ log' = Append(log, Ans)
         /\ cur' = [cur EXCEPT !.res = TRUE] /\ sav' = [sav EXCEPT !.res = TRUE]
         /\ UNCHANGED <<stack, exns, slots, nid, nthr, seen, quirk, done>>
\* the raw traces are only offered until the trace has been resolved
QueryRaw == /\ "qr" \in Ops /\ Open /\ ~cur.res /\ ~sav.res /\ Op("qr") /\ log' = Append(log, Ans)
            /\ UNCHANGED <<stack, exns, cur, sav, slots, nid, nthr, seen, quirk, done>>
Clear == /\ "clear" \in Ops /\ Open /\ Op("clear") /\ cur' = Tr(0) /\ sav' = Tr(0) /\ seen' = <<>>
         /\ UNCHANGED <<stack, exns, slots, nid, nthr, log, quirk, done>>
Next == \/ \E t \in Throws : Throw(t)
        \/ \E form \in Forms, l \in UseLists : Try(form, l)
        \/ \E k \in {"call", "obj", "run"} : Block(k)
        \/ \E i \in 1..2 : Save(i) \/ RaiseSlot(i) \/ CRaiseSlot(i)
        \/ Rethrow \/ CRethrow \/ Thread \/ End \/ Return \/ Mutate \/ Query \/ QueryRaw \/ Clear
Spec == Init /\ [][Next]_vars

(* C04 on the model: the current trace is that of the last seen exception that was not raised by cpptrace::rethrow, the
   rethrow trace that of the last seen one if it was *)
LastNot == {i \in 1..Len(seen) : ~seen[i].re}
CurrentIsLatest == cur.n = (IF LastNot = {} THEN 0 ELSE seen[CHOOSE i \in LastNot : \A k \in LastNot : k <= i].n)
RethrowIsLatest == sav.n = (IF seen # <<>> /\ seen[Len(seen)].re THEN seen[Len(seen)].n ELSE 0)
(* C05 on the model: every block ends once, every object is destroyed once *)
Once == \A a, b \in 1..Len(log) : a # b /\ log[a] = log[b] =>
           LET s == SubSeq(log[a], 1, 2) IN s \notin {"ok", "af", "dt"}
Emit == done => PrintT("CASE " \o ToJson([tape |-> tape, log |-> log, quirk |-> quirk]))
=============================================================================
