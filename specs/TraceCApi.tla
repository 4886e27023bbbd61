------------------------------- MODULE TraceCApi -------------------------------
(* Recorded histories of C API calls against the machine of CApi and against what the C++ API says about the same inputs. *)
EXTENDS CApi, StrOps, FiniteSets, Json
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, own, bad
vars == <<k, j, own, bad>>

NoPos == "4294967295"
\* the C++ API's answers: every address alone
Raw(r, a) == LET i == CHOOSE i \in DOMAIN r.raws : r.raws[i].a = a IN r.raws[i]
Pos(p) == IF p = "none" THEN NoPos ELSE p
CFrames(fs) == [i \in DOMAIN fs |-> [fs[i] EXCEPT !.line = Pos(@), !.col = Pos(@)]]
Plain(p) == IF p = "<null>" THEN "" ELSE p
ObjKey(r, f) == LET q == [f EXCEPT !.path = Plain(@)]
                    i == CHOOSE i \in DOMAIN r.objs : r.objs[i].k = q IN r.objs[i].st

RECURSIVE FlatRaw(_, _), FlatObj(_, _)
FlatRaw(r, fs) == IF fs = <<>> THEN <<>> ELSE CFrames(Raw(r, fs[1].raw).st) \o FlatRaw(r, Tail(fs))
FlatObj(r, fs) == IF fs = <<>> THEN <<>> ELSE CFrames(ObjKey(r, fs[1])) \o FlatObj(r, Tail(fs))

Info(r, a) == Raw(r, a).info

\* ---- text of ctrace_print_stacktrace: the frame's parts in order; how "(inlined)" is padded and whether a bare address is
\* followed by a space is left open
HeadLine == "Stack trace (most recent call first):"
C(code, s, color) == IF color THEN "<ESC>[" \o code \o "m" \o s \o "<ESC>[0m" ELSE s
Null(s) == s = "<null>" \/ s = ""
Bodies(f, color) ==
  LET addr == IF f.inl # 0 THEN {PadLeft("(inlined)", 18), PadRight("(inlined)", 18)} ELSE {C("34", f.raw, color)}
      sym == IF Null(f.sym) THEN "" ELSE " in " \o C("33", f.sym, color)
      col == IF f.col = NoPos THEN "" ELSE ":" \o C("34", f.col, color)
      line == IF f.line = NoPos THEN "" ELSE ":" \o C("34", f.line, color) \o col
      at == IF Null(f.file) THEN "" ELSE " at " \o C("32", f.file, color) \o line
  IN {x \o sym \o at : x \in addr} \cup (IF sym = "" /\ at = "" THEN {x \o " " : x \in addr} ELSE {})
Lines(f, i, n, color) == {"#" \o PadRight(Dec(i), Digits(n - 1)) \o " " \o b : b \in Bodies(f, color)}
RECURSIVE PrintedFrom(_, _, _, _)
PrintedFrom(out, fs, i, color) ==
  IF i > Len(fs) THEN out = ""
  ELSE \E l \in Lines(fs[i], i - 1, Len(fs), color) : StartsWith(out, l \o "\n") /\ PrintedFrom(Drop(out, Len(l) + 1), fs, i + 1, color)
Printed(out, fs, color) ==
  /\ StartsWith(out, HeadLine \o "\n")
  /\ IF fs = <<>> THEN Drop(out, Len(HeadLine) + 1) = "<empty trace>\n" ELSE PrintedFrom(Drop(out, Len(HeadLine) + 1), fs, 1, color)

\* ---- the structure a call hands out
Window(s, skip, depth) == IF skip >= Len(s) THEN <<>>
                          ELSE LET t == SubSeq(s, skip + 1, Len(s))
                               IN IF depth < 0 \/ depth >= Len(t) THEN t ELSE SubSeq(t, 1, depth)
Raws(fs) == [i \in DOMAIN fs |-> fs[i].raw]
NotInl(fs) == SelectSeq(fs, LAMBDA f : f.inl = 0)
\* `stack`: the addresses above the calling function; the caller's own address is not known in advance
Captured(st, got) == LET w == Window(<<"here">> \o st.stack, st.skip, st.depth)
                     IN Len(got) = Len(w) /\ \A i \in DOMAIN w : w[i] = "here" \/ got[i] = w[i]
Same(got, want) == got = want
\* if memory ran out: nothing, or the frames with less information
Poor(got, want) == \/ got = <<>>
                   \/ Len(got) = Len(want) /\ \A i \in DOMAIN got : got[i].raw = want[i].raw
IsNull(v) == v.null /\ v.n = 0
Empty(v) == v.n = 0 /\ v.frames = <<>>
ResolveOk(r, st, new) ==
  LET v == own[st.s]
      want == IF v.kind = "raw" THEN FlatRaw(r, v.frames) ELSE FlatObj(r, v.frames)
  IN IF v.null THEN Empty(new) ELSE IF st.fired THEN Poor(new.frames, want) ELSE new.frames = want
ToObjOk(r, st, new) ==
  LET v == own[st.s]
      want == [i \in DOMAIN v.frames |-> Info(r, v.frames[i].raw)]
  IN IF v.null THEN Empty(new) ELSE IF st.fired THEN Poor(new.frames, want) ELSE new.frames = want
GenOk(r, st, new) ==
  IF st.fired /\ new.frames = <<>> THEN TRUE
  ELSE IF st.a = 3 /\ ~r.safe THEN new.n = 0
  ELSE CASE new.kind = "raw" -> Captured(st, Raws(new.frames))
         [] new.kind = "obj" -> Captured(st, Raws(new.frames)) /\ (~st.fired => \A i \in DOMAIN new.frames : new.frames[i] = Info(r, new.frames[i].raw))
         [] OTHER -> /\ Captured(st, Raws(NotInl(new.frames)))
                     /\ ~st.fired => new.frames = FlatRaw(r, NotInl(new.frames))
\* (text that ran out of memory while it was being put together is cut short, as the C++ API's is)
TextOk(st, new, text) == IF st.fired THEN new.null \/ Len(new.text) <= Len(text) ELSE new.text = text /\ ~new.null
NewOk(r, st, new) ==
  /\ new.kind = NewKind(own, st) /\ new.owned = ~Borrowed(st)
  /\ new.n = Len(new.frames) \/ new.null \/ new.kind = "info"
  /\ CASE Borrowed(st) -> TRUE
       [] st.op = "gen" -> GenOk(r, st, new)
       [] st.op = "resolve" -> ResolveOk(r, st, new)
       [] st.op = "toobj" -> ToObjOk(r, st, new)
       [] st.op = "str" -> IF own[st.s].null THEN EndsWith(new.text, "<empty trace>") \/ st.fired ELSE TextOk(st, new, st.cpp)
       [] st.op \in {"text", "demangle"} -> TextOk(st, new, st.cpp)
       [] st.op = "info" -> IF st.a + 1 \in DOMAIN own[st.s].frames /\ ~own[st.s].null
                            THEN LET want == Info(r, own[st.s].frames[st.a + 1].raw)
                                 IN new.frames[1] = want \/ (st.fired /\ new.frames[1].path \in {"", "<null>"})
                            ELSE new.frames[1].path \in {"", "<null>"}
       [] st.op = "null" -> IF new.kind = "str" /\ st.fired /\ new.null THEN TRUE
                            ELSE IF new.kind = "str" THEN new.text = IF st.a = 2 THEN "<empty trace>" ELSE ""
                            ELSE IF new.kind = "info" THEN new.frames[1].path \in {"", "<null>"} ELSE Empty(new)
       [] OTHER -> FALSE
OutOk(st) ==
  CASE st.op = "print" -> Printed(st.out, IF own[st.s].null THEN <<>> ELSE own[st.s].frames, st.b # 0)
    [] st.op = "printnull" -> Printed(st.out, <<>>, FALSE)
    [] st.op = "facts" -> st.out = "same"
    [] OTHER -> st.out = ""
StepWhy(r, st) ==
  IF st.threw THEN "an exception crossed the C boundary"
  ELSE IF ~Allowed(own, st) THEN "a call the model does not make"
  ELSE LET creates == NewKind(own, st) # ""
           new == IF creates THEN st.slots[Len(st.slots)] ELSE [kind |-> ""]
       IN IF Len(st.slots) # Len(own) + (IF creates THEN 1 ELSE 0) THEN "structures"
          ELSE IF st.slots # After(own, st, new) THEN "a structure the call does not own changed"
          ELSE IF creates /\ ~NewOk(r, st, new) THEN "the result is not what the C++ API gives"
          ELSE IF ~OutOk(st) THEN "output"
          ELSE ""
Init == k \in DOMAIN R /\ j = 1 /\ own = <<>> /\ bad = IF R[k].kind = "crash" THEN "crash" ELSE ""
Next == /\ bad = ""
        /\ IF j <= Len(R[k].steps)
           THEN /\ bad' = StepWhy(R[k], R[k].steps[j])
                /\ own' = R[k].steps[j].slots
                /\ j' = j + 1
           ELSE /\ j = Len(R[k].steps) + 1
                /\ bad' = IF R[k].grew > 0 THEN "memory was handed out that its free functions do not release" ELSE ""
                /\ j' = j + 1
                /\ own' = <<>>
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
================================================================================
