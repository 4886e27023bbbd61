------------------------------- MODULE Resolve -------------------------------
(* What resolution gives for an address, as a function of the objects that are loaded.

   A loaded object has a path, a load bias (where its own file's address 0 would be), its segments [lo, hi) and the
   outermost pages lo..hi around them. The file of an object has symbols [lo, hi, name, fn, dyn] at file addresses and
   source positions: pos maps file addresses to the chain of calls inlined there, innermost first. *)
EXTENDS Addr, FiniteSets

Holds(o, a) == \E i \in 1..Len(o.segs) : AIn(a, o.segs[i][1], o.segs[i][2])
Near(o, a) == AIn(a, o.lo, o.hi)
Owners(objs, a) == {i \in 1..Len(objs) : Holds(objs[i], a)}
\* the object an answer may name: its owner; in the gaps between an object's segments the object or none
Candidates(objs, a) == IF Owners(objs, a) # {} THEN Owners(objs, a)
                       ELSE {0} \cup {i \in 1..Len(objs) : Near(objs[i], a)}
FileAddress(o, a) == ASub(a, o.bias)

\* the object information of an address, f = [raw, obj, path]; the image base of an object that has no file is unknown
ObjectFrameOk(objs, a, f) ==
  /\ f.raw = a
  /\ \E i \in Candidates(objs, a) :
       IF i = 0 THEN f.path = "" /\ f.obj = AZero
       ELSE /\ f.path = objs[i].path
            /\ \/ f.obj = FileAddress(objs[i], a)
               \/ ~objs[i].file /\ f.obj = AZero

Covering(syms, fa) == {i \in 1..Len(syms) : AIn(fa, syms[i].lo, syms[i].hi)}
NoSymbol(s) == s \in {"", "??"}
NoLine(l) == l \in {-1, 0}
\* the object itself stands in for an unknown source file (alias: the name the loader gives it, or the file named by its symbol table)
NoFile(p, o) == p \in {"", o.path} \cup {o.alias[i] : i \in 1..Len(o.alias)}

\* what a symbol back end may say about file address fa of an object whose file is known (o.known)
NoInfo(o, f) == NoSymbol(f.sym) /\ NoFile(f.file, o) /\ NoLine(f.line)
\* source positions: those of one of the (inlined or containing) calls at that place
Position(o, fa, f) ==
  IF \E i \in 1..Len(o.pos) : o.pos[i].at = fa
  THEN LET p == o.pos[CHOOSE i \in 1..Len(o.pos) : o.pos[i].at = fa] IN
       IF p.chain = <<>> THEN NoFile(f.file, o) /\ NoLine(f.line)
       ELSE /\ \E i \in 1..Len(p.chain) : f.file = p.chain[i].file /\ f.line = p.chain[i].line
            \* (addr2line -f does not always report a call inlined there in step with the position)
            /\ \E i \in 1..Len(p.chain) : f.sym = p.chain[i].sym
  ELSE TRUE
InCode(o, fa) == \E i \in Covering(o.syms, fa) : o.syms[i].fn
SymbolOk(backend, o, fa, f) ==
  LET cover == Covering(o.syms, fa)
      inner == IF \E i \in 1..Len(o.pos) : o.pos[i].at = fa
               THEN LET p == o.pos[CHOOSE i \in 1..Len(o.pos) : o.pos[i].at = fa]
                    IN {p.chain[i].sym : i \in 1..Len(p.chain)}
               ELSE {}
      names == {o.syms[i].name : i \in cover} \cup inner
      dyns == {o.syms[i].name : i \in {i \in cover : o.syms[i].dyn}}
  IN CASE backend = "nothing" -> f.sym = ""
       [] backend = "dl" -> IF dyns # {} THEN f.sym \in dyns ELSE NoSymbol(f.sym)
       \* a stripped file's dynamic symbols need not be read
       [] OTHER -> IF InCode(o, fa) THEN \/ f.sym \in names
                                         \/ o.stripped /\ NoSymbol(f.sym)
                   ELSE \* between functions and in data: nothing, or the name of something of this object
                        \/ NoSymbol(f.sym)
                        \/ \E i \in 1..Len(o.syms) : f.sym = o.syms[i].name /\ ~ALess(fa, o.syms[i].lo)
InfoOk(backend, o, fa, f) ==
  /\ SymbolOk(backend, o, fa, f)
  /\ IF backend \in {"nothing", "dl"} THEN NoFile(f.file, o) /\ NoLine(f.line)
     ELSE IF InCode(o, fa) THEN Position(o, fa, f)
     ELSE NoFile(f.file, o) \/ f.file \in {o.sources[i] : i \in 1..Len(o.sources)}

\* the resolved frame of an address, f = [raw, obj, sym, file, line, col, inl]
FrameOk(backend, objs, a, f) ==
  /\ f.raw = a /\ ~f.inl
  /\ f.col = -1
  /\ \E i \in Candidates(objs, a) :
       IF i = 0 THEN f.obj = AZero /\ NoSymbol(f.sym) /\ f.file = "" /\ NoLine(f.line)
       ELSE LET o == objs[i] IN
            /\ \/ f.obj = FileAddress(o, a)
               \/ ~o.file /\ f.obj = AZero
            /\ IF ~o.file THEN NoFile(f.file, o) /\ NoLine(f.line)
               ELSE o.known => InfoOk(backend, o, FileAddress(o, a), f)

\* the non-inlined frames of a trace are those of its addresses, in order; inlined frames only come before one
Outer(fs) == SelectSeq(fs, LAMBDA f : ~f.inl)
TraceOk(backend, objs, as, fs) ==
  /\ Len(fs) > 0 => ~fs[Len(fs)].inl
  /\ LET o == Outer(fs) IN Len(o) = Len(as) /\ \A i \in 1..Len(as) : FrameOk(backend, objs, as[i], o[i])
\* two acceptable answers about one address agree
Same(backend, f, g) == IF backend = "addr2line" THEN [f EXCEPT !.sym = ""] = [g EXCEPT !.sym = ""] ELSE f = g
AllSame(backend, fs, gs) == Len(fs) = Len(gs) /\ \A i \in 1..Len(fs) : Same(backend, fs[i], gs[i])
ObjectsOk(objs, as, fs) == Len(fs) = Len(as) /\ \A i \in 1..Len(as) : ObjectFrameOk(objs, as[i], fs[i])
=============================================================================
