----------------------------- MODULE MCFormatter -----------------------------
(* The rendering machine over a small complete domain of configurations and traces: design invariants, and every
   finished behaviour printed as a case to replay against the library. *)
EXTENDS Formatter, Json

CONSTANTS Pool, MaxFrames, Addrs, Paths, Symbols, Cols, Brks, Hides, Placeholders, Transforms, Filters, Headers,
          Colors, Overs, EmitOn, Snips

VARIABLES o, q, fs, st
vars == <<o, q, fs, st>>

Frames == <<
  [raw |-> "1a", obj |-> "0", line |-> "2", col |-> "7", lineN |-> 2, colN |-> 7, file |-> "d/a.cpp", sym |-> "ns::f<int>(char)", inl |-> FALSE],
  [raw |-> "ffffffffffffffff", obj |-> "10", line |-> "", col |-> "", lineN |-> -1, colN |-> -1, file |-> "", sym |-> "__cxa_throw", inl |-> FALSE],
  [raw |-> "0", obj |-> "0", line |-> "4294967294", col |-> "", lineN |-> -1, colN |-> -1, file |-> "/x/y\\b.h", sym |-> "main", inl |-> TRUE],
  [raw |-> "7", obj |-> "8", line |-> "3", col |-> "", lineN |-> 3, colN |-> -1, file |-> "", sym |-> "", inl |-> FALSE],
  [raw |-> "9", obj |-> "abc", line |-> "", col |-> "5", lineN |-> -1, colN |-> 5, file |-> "none.c", sym |-> "", inl |-> FALSE],
  [raw |-> "9", obj |-> "abc", line |-> "9", col |-> "5", lineN |-> 9, colN |-> 5, file |-> "d/a.cpp", sym |-> "g", inl |-> TRUE] >>
P(s, a, b) == s :> [pruned |-> a, pretty |-> b]
Env == [
  files |-> ("d/a.cpp" :> [ok |-> TRUE, raw |-> <<"", "int x;\r", "\r", "", "// é">>]) @@ ("none.c" :> [ok |-> FALSE, raw |-> <<"">>])
            @@ ("/x/y\\b.h" :> [ok |-> FALSE, raw |-> <<"">>]),
  syms |-> P("ns::f<int>(char)", "ns::f", "ns::f<int>(char)") @@ P("__cxa_throw", "__cxa_throw", "__cxa_throw")
           @@ P("main", "main", "main") @@ P("g", "g", "g")
           @@ P("ns::f<int>(char)!", "ns::f<int>(char)!", "ns::f<int>(char)!") @@ P("__cxa_throw!", "__cxa_throw!", "__cxa_throw!")
           @@ P("main!", "main!", "main!") @@ P("g!", "g!", "g!") @@ P("!", "!", "!"),
  yellow |-> "<Y>", green |-> "<G>", blue |-> "<B>", reset |-> "<R>"]

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

Init ==
  /\ \E ad \in Addrs, pa \in Paths, sy \in Symbols, co \in Cols, br \in Brks, hi \in Hides, pl \in Placeholders,
        tr \in Transforms, fi \in Filters, he \in Headers, cl \in Colors, sn \in Snips :
       o = [header |-> he, colors |-> cl, addr |-> ad, paths |-> pa, snippets |-> sn, ctx |-> 1, columns |-> co,
            symbols |-> sy, placeholders |-> pl, filter |-> fi, transform |-> tr, brk |-> br, hide |-> hi]
  /\ \E ov \in Overs : q = [what |-> "trace", via |-> "format", over |-> ov, tty |-> FALSE, indent |-> 0]
  /\ \E ix \in SeqsUpTo(Pool, MaxFrames) : fs = [n \in DOMAIN ix |-> Frames[ix[n]]]
  /\ st = StartTrace(o, fs)

On == UseColor(o, q)
Next == /\ ~TraceDone(fs, st)
        /\ st' = StepTrace(o, fs, On, Env, st)
        /\ UNCHANGED <<o, q, fs>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the machine never goes back, and finishes
Bounded == st.i <= Len(fs) + 1 /\ st.n <= Len(fs)
\* frames are numbered consecutively from 0 after the hidden ones
Numbering == fs # <<>> => st.i = FirstShown(o, fs) + st.n
\* the step function and the whole-call function agree
Agree == TraceDone(fs, st) => Render(o, q, fs, Env) = [out |-> st.out, ev |-> st.ev]
\* one transform call and one filter call for each frame walked, in order
Callbacks == Len(st.ev) = st.n * ((IF o.transform = "none" THEN 0 ELSE 1) + (IF o.filter = "none" THEN 0 ELSE 1))
RECURSIVE CountIn(_, _, _)
CountIn(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                    ELSE (IF SubSeq(s, i, i + Len(t) - 1) = t THEN 1 ELSE 0) + CountIn(s, t, i + 1)
\* no escape sequence without color, and every color is closed by a reset
ColorBalance ==
  LET opens == CountIn(st.out, "<Y>", 1) + CountIn(st.out, "<G>", 1) + CountIn(st.out, "<B>", 1)
  IN /\ CountIn(st.out, "<R>", 1) = opens
     /\ ~On => opens = 0
\* color does not change the visible text
RECURSIVE Strip(_)
Strip(s) == IF Len(s) < 3 THEN s
            ELSE IF SubSeq(s, 1, 3) \in {"<Y>", "<G>", "<B>", "<R>"} THEN Strip(Drop(s, 3))
            ELSE Ch(s, 1) \o Strip(Drop(s, 1))
ColorInvisible == TraceDone(fs, st) /\ On => Strip(st.out) = Render(o, [q EXCEPT !.over = 0], fs, Env).out
Emit == (EmitOn /\ TraceDone(fs, st)) =>
          PrintT("CASE " \o ToJson([o |-> o, q |-> q, frames |-> fs, out |-> st.out, ev |-> st.ev]))
=============================================================================
