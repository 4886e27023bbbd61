------------------------------ MODULE TraceReport ------------------------------
(* Recorded executions against Report: histories of reconfigurations (kind "hist") and single operations during which the
   n-th internal step fails (kind "fault").                                                                             *)
EXTENDS StrOps, FiniteSets, Json
Rp == INSTANCE Report WITH level <- 0, sink <- "none", absorb <- TRUE, hist <- <<>>
R == ndJsonDeserialize("traces.ndjson")
VARIABLES k, j, bad

RECURSIVE Conf(_, _, _)
\* configuration before event n of a history: <<level, sink, absorb, has the level been set>>
Conf(ev, n, c) ==
  IF n = 0 THEN c
  ELSE LET p == Conf(ev, n - 1, c)
           e == ev[n]
       IN CASE e.op = "level" -> <<e.v, p[2], p[3], TRUE>>
            [] e.op = "sink" -> <<p[1], IF e.v = "empty" THEN "none" ELSE e.v, p[3], p[4]>>
            [] e.op = "absorb" -> <<p[1], p[2], e.v, p[4]>>
            [] OTHER -> p
Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

At(out, lv) == Cardinality({i \in DOMAIN out : out[i].level = lv})
HistWhy(r) ==
  LET badEv == {n \in DOMAIN r.events :
        LET e == r.events[n]
            c == Conf(r.events, n - 1, <<2, "none", TRUE, FALSE>>)
            \* an undecided default: a warning may or may not show before the level is set
            vis(m) == Rp!Visible(c[1], c[2], m)
            maybe(m) == ~c[4] /\ m = 2
            out == e.out
        IN ~( /\ \A i \in DOMAIN out : out[i].sink = c[2] /\ vis(out[i].level)
              /\ CASE e.op = "emit" -> /\ ~e.threw
                                       /\ \A i \in DOMAIN out : out[i].level = e.v /\ out[i].text = e.text
                                       /\ IF maybe(e.v) THEN Len(out) <= 1 ELSE Len(out) = (IF vis(e.v) THEN 1 ELSE 0)
                   [] e.op = "hard" -> /\ e.threw = ~c[3]
                                       /\ \A i \in DOMAIN out : Contains(out[i].text, e.text)
                                       /\ \A i \in DOMAIN out : out[i].level = 3
                                       /\ IF ~vis(3) THEN Len(out) = 0 ELSE IF c[3] THEN Len(out) = 1 ELSE Len(out) >= 1
                   [] e.op = "soft" -> /\ ~e.threw
                                       /\ \A i \in DOMAIN out : out[i].level \in Rp!SoftNoise(c[3])
                                       /\ vis(0) => At(out, 0) >= 1
                                       /\ (vis(3) /\ ~c[3]) => At(out, 3) = 1
                   [] OTHER -> Len(out) = 0 /\ ~e.threw )}
  IN IF badEv = {} THEN "" ELSE LET n == CHOOSE m \in badEv : \A b \in badEv : m <= b IN "event " \o ToString(n) \o " of the history"

\* x: a frame got, c: the same frame of an undisturbed run
FrameOk(x, c, path) == /\ x.raw = c.raw
                 /\ x.sym \in {"", c.sym} /\ x.line \in {-1, 0, c.line} /\ x.obj \in {"0", c.obj}
                 /\ x.file \in {"", c.file, path}
FaultWhy(r) ==
  LET got == <<r.reports, r.threw # "">>
      n == Len(r.clean)
  IN IF r.crash # "" THEN "the process was ended: " \o r.crash
     ELSE IF ~r.fired THEN (IF r.threw # "" \/ r.reports # 0 THEN "a failure out of nothing" ELSE IF r.got # r.clean THEN "an undisturbed run differs" ELSE "")
     ELSE IF r.threw \notin {"", r.fault} THEN "another exception reached the caller: " \o r.threw
     \* a failure with a fallback of its own inside the library is invisible
     ELSE IF r.got = r.clean /\ r.threw = "" /\ r.reports = 0 /\ r.op \notin Rp!Members THEN ""
     \* the fallback of a symbol that cannot be pruned is the symbol: a copy, which needs memory
     ELSE IF r.op = "prune" /\ r.mode = "persist" /\ r.threw # "" THEN IF r.reports = 0 THEN "a failure nobody was told of" ELSE ""
     ELSE IF r.absorb /\ r.threw # "" THEN "an absorbed failure reached the caller"
     ELSE IF r.absorb /\ r.mode = "once" /\ r.reports # 1 THEN "an absorbed failure was reported other than once"
     ELSE IF r.reports = 0 THEN "a failure nobody was told of"
     ELSE IF ~r.absorb /\ r.op \notin Rp!Members /\ r.threw = "" THEN "a failure that is not absorbed did not reach the caller"
     ELSE IF r.op \in Rp!Members /\ r.threw # "" THEN "a member that may not throw threw"
     ELSE IF ~(\A i \in DOMAIN r.texts : Contains(r.texts[i], r.fault)) /\ r.mode = "once" THEN "a report does not say what failed"
     ELSE IF r.threw = "" /\ Len(r.got) \notin {0, n} THEN "the result is neither whole nor empty"
     ELSE IF r.threw = "" /\ \E i \in DOMAIN r.got : ~FrameOk(r.got[i], r.clean[i], r.paths[i]) THEN
            "frame " \o ToString(CHOOSE i \in DOMAIN r.got : ~FrameOk(r.got[i], r.clean[i], r.paths[i])) \o " is not what it would be, less what was lost"
     ELSE IF r.again # r.clean THEN "the failure spoiled a later call"
     ELSE ""
Why == IF R[k].kind = "hist" THEN HistWhy(R[k]) ELSE FaultWhy(R[k])
Init == k = 1 /\ j = 1 /\ bad = ""
Next == k <= Len(R) /\ bad = "" /\ IF Why = "" THEN k' = k + 1 /\ j' = 1 /\ UNCHANGED bad ELSE bad' = Why /\ UNCHANGED <<k, j>>
Spec == Init /\ [][Next]_<<k, j, bad>>
Conforms == bad = ""
================================================================================
