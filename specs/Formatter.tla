------------------------------ MODULE Formatter ------------------------------
(* Rendering of frames and traces, as a machine that walks a trace frame by frame.

   A configuration  o : header, colors, addr, paths, snippets, ctx, columns, symbols, placeholders, filter, transform,
                        brk (break before filename), hide (exception machinery).
   A frame          f : raw, obj (hex digits without leading zeros), line, col (decimal digits, "" = absent),
                        lineN, colN (the same as numbers, -1 = absent or too big for a snippet), file, sym, inl.
   A call           q : what = "trace" | "frame", via = "format" | "ostream" | "cout" | "file", over = -1|0|1 (color
                        argument absent/false/true), tty (the stream is a terminal), indent.
   An environment   e : files (name -> [ok, raw]), syms (symbol -> [pruned, pretty]), yellow, green, blue, reset. *)
EXTENDS Snippet

DefaultOptions == [
  header |-> "Stack trace (most recent call first):", colors |-> "automatic", addr |-> "raw", paths |-> "full",
  snippets |-> FALSE, ctx |-> 2, columns |-> TRUE, symbols |-> "full", placeholders |-> TRUE, filter |-> "none",
  transform |-> "none", brk |-> FALSE, hide |-> TRUE]

-----------------------------------------------------------------------------
(* Colors: an explicit argument overrides the mode; otherwise the mode decides, "automatic" by asking whether the
   stream is a terminal. A string and a FILE* are never taken for a terminal. *)
UseColor(o, q) ==
  IF q.over # -1 THEN q.over = 1
  ELSE \/ o.colors = "always"
       \/ o.colors = "automatic" /\ q.via \in {"cout", "print_member_cout", "snippets_member_cout"} /\ q.tty

-----------------------------------------------------------------------------
(* The callbacks used by the driver, by name. *)
Transform(name, f) ==
  CASE name = "none"    -> f
    [] name = "bang"    -> [f EXCEPT !.sym = @ \o "!"]
    [] name = "nofile"  -> [f EXCEPT !.file = ""]
    [] name = "nosym"   -> [f EXCEPT !.sym = ""]
    [] name = "swap"    -> [f EXCEPT !.raw = f.obj, !.obj = f.raw]
    [] name = "noline"  -> [f EXCEPT !.line = "", !.lineN = -1, !.col = "", !.colN = -1]
    [] name = "inline"  -> [f EXCEPT !.inl = TRUE]
    [] name = "throwname" -> [f EXCEPT !.sym = "__cxa_throw"]
Keeps(name, f) ==
  CASE name = "none"     -> TRUE
    [] name = "all"      -> TRUE
    [] name = "nothing"  -> FALSE
    [] name = "sym"      -> f.sym # ""
    [] name = "bang"     -> EndsWith(f.sym, "!")
    [] name = "noinline" -> ~f.inl
    [] name = "line"     -> f.line # ""
    [] name = "file"     -> f.file # ""
    [] name = "notmain"  -> f.sym # "main"

-----------------------------------------------------------------------------
Basename(p) == Drop(p, LastIn(p, {"/", "\\"}))
PtrWidth == 18
Hex16(h) == "0x" \o Zeros(16 - Len(h)) \o h

C(e, on, which) == IF on THEN e[which] ELSE ""

AddressText(o, f, on, e) ==
  IF f.inl THEN PadRight("(inlined)", PtrWidth)
  ELSE IF o.addr = "none" THEN ""
  ELSE C(e, on, "blue") \o Hex16(IF o.addr = "raw" THEN f.raw ELSE f.obj) \o C(e, on, "reset")
\* visible columns taken by the address
AddressCols(o, f) == IF f.inl \/ o.addr # "none" THEN PtrWidth + 1 ELSE 0
SymbolText(o, f, on, e) ==
  "in " \o C(e, on, "yellow")
  \o (CASE o.symbols = "full" -> f.sym
        [] o.symbols = "pruned" -> e.syms[f.sym].pruned
        [] o.symbols = "pretty" -> e.syms[f.sym].pretty)
  \o C(e, on, "reset")
LocationText(o, f, on, e) ==
  "at " \o C(e, on, "green") \o (IF o.paths = "full" THEN f.file ELSE Basename(f.file)) \o C(e, on, "reset")
  \o (IF f.line = "" THEN ""
      ELSE ":" \o C(e, on, "blue") \o f.line \o C(e, on, "reset")
           \o (IF f.col = "" \/ ~o.columns THEN ""
               ELSE ":" \o C(e, on, "blue") \o f.col \o C(e, on, "reset")))

FrameText(o, f, on, indent, e) ==
  AddressText(o, f, on, e)
  \o (IF f.inl \/ o.addr # "none" THEN " " ELSE "")
  \o (IF f.sym = "" THEN "" ELSE SymbolText(o, f, on, e))
  \o (IF f.sym = "" \/ f.file = "" THEN ""
      ELSE IF o.brk THEN "\n" \o Spaces(indent + AddressCols(o, f))
      ELSE " ")
  \o (IF f.file = "" THEN "" ELSE LocationText(o, f, on, e))

SnippetOf(o, f, on, e) ==
  IF ~o.snippets \/ f.lineN < 0 \/ f.file = "" THEN ""
  ELSE LET fl == e.files[f.file]
           t == SnippetText(fl.ok, fl.raw, f.lineN, f.colN, o.ctx, C(e, on, "yellow"), C(e, on, "reset"))
       IN IF t = "" THEN "" ELSE "\n" \o t

-----------------------------------------------------------------------------
(* The machine. st.i is the next frame (1-based), st.n the number it will be shown under; ev is the sequence of
   callback calls made so far. *)
IsThrow(f) == f.sym \in {"__cxa_throw", "CxxThrowException", "_CxxThrowException"}
\* frames up to and including the first throwing one are exception machinery
FirstShown(o, fs) ==
  LET T == {k \in 1..Len(fs) : IsThrow(fs[k])}
  IN IF ~o.hide \/ T = {} THEN 1 ELSE (CHOOSE k \in T : \A j \in T : k <= j) + 1

CbEvent(kind, f) == kind \o ":" \o f.raw \o ":" \o f.sym
StartTrace(o, fs) ==
  LET h == IF o.header = "" THEN "" ELSE o.header \o "\n"
  IN IF fs = <<>> THEN [i |-> 1, n |-> 0, out |-> h \o "<empty trace>", ev |-> <<>>]
     ELSE [i |-> FirstShown(o, fs), n |-> 0, out |-> h, ev |-> <<>>]
TraceDone(fs, st) == st.i > Len(fs)

StepTrace(o, fs, on, e, st) ==
  LET f0 == fs[st.i]
      f == Transform(o.transform, f0)
      width == Digits(Len(fs) - 1)
      keep == Keeps(o.filter, f)
      ev == st.ev \o (IF o.transform = "none" THEN <<>> ELSE <<CbEvent("t", f0)>>)
                  \o (IF o.filter = "none" THEN <<>> ELSE <<CbEvent("f", f)>>)
      number == "#" \o PadRight(Dec(st.n), width) \o " "
      body == IF keep THEN FrameText(o, f, on, width + 2, e) \o SnippetOf(o, f, on, e) ELSE "(filtered)"
      nl == IF st.i = Len(fs) THEN "" ELSE "\n"
  IN [i |-> st.i + 1, n |-> st.n + 1, ev |-> ev,
      out |-> st.out \o (IF ~keep /\ ~o.placeholders THEN "" ELSE number \o body \o nl)]

RECURSIVE RunTrace(_, _, _, _, _)
RunTrace(o, fs, on, e, st) ==
  IF TraceDone(fs, st) THEN st ELSE RunTrace(o, fs, on, e, StepTrace(o, fs, on, e, st))

\* what a whole call writes, and the callbacks it makes
Trailer(q) == IF q.via \in {"format", "to_string"} \/ (q.via = "stream_op" /\ q.what = "frame") THEN "" ELSE "\n"
\* the members of traces and frames that format themselves use the default options (with snippets where named so)
EffOptions(o, q) ==
  CASE q.via \in {"to_string", "stream_op", "print_member", "print_member_cout"} -> DefaultOptions
    [] q.via \in {"snippets_member", "snippets_member_cout"} -> [DefaultOptions EXCEPT !.snippets = TRUE]
    [] OTHER -> o
RenderWith(o, q, fs, e) ==
  IF q.what = "frame"
  THEN LET f == Transform(o.transform, fs[1])
       IN [out |-> FrameText(o, f, UseColor(o, q), q.indent, e) \o Trailer(q),
           ev |-> IF o.transform = "none" THEN <<>> ELSE <<CbEvent("t", fs[1])>>]
  ELSE LET st == RunTrace(o, fs, UseColor(o, q), e, StartTrace(o, fs))
       IN [out |-> st.out \o Trailer(q), ev |-> st.ev]
Render(o, q, fs, e) == RenderWith(EffOptions(o, q), q, fs, e)
=============================================================================
