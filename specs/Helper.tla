------------------------------- MODULE Helper -------------------------------
(* Driving the external symbolizer: a parent whose threads each run jobs (one helper process per job), pipes with a
   bounded capacity, descriptors that a fork copies and an exec keeps or drops, and faults anywhere.

   One job of thread t: make the pipe(s), fork, drop the child's ends, (stdin design: write the addresses,) read until
   end of file, release the descriptor, reap the child, and use the output only if it is complete.

   Design = "args"  : the addresses are arguments of the helper (one pipe)
   Design = "stdin" : the addresses are written to the helper's standard input before anything is read (two pipes)
   CloseOnExec      : whether other helpers lose the descriptors they inherited when they exec                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Jobs, Lines, Cap, MaxFaults, Design, CloseOnExec

VARIABLES pc,      \* thread -> where it is in its job
          job,     \* thread -> number of the job
          kid,     \* thread -> state of its current child: none, forked, running, zombie
          ends,    \* <<t, pipe, end>> -> set of processes holding that end open ("P" or a thread = its child)
          buf,     \* <<t, pipe>> -> units in the pipe
          sent,    \* units the child has written / consumed of its input
          got,     \* units the parent has read
          torn,    \* the last unit the child wrote was cut short by its death
          asked,   \* units of addresses the parent has written (stdin design)
          eaten,   \* units of addresses the child has read
          faults,  \* faults left
          hist,    \* what happened in the current and the earlier jobs
          dead     \* the parent was killed
vars == <<pc, job, kid, ends, buf, sent, got, torn, asked, eaten, faults, hist, dead>>

Pipes == IF Design = "stdin" THEN {"out", "in"} ELSE {"out"}
AllEnds == Threads \X Pipes \X {"r", "w"}
Done(t) == pc[t] = "done"

Init == /\ pc = [t \in Threads |-> "start"] /\ job = [t \in Threads |-> 1] /\ kid = [t \in Threads |-> "none"]
        /\ ends = [e \in AllEnds |-> {}] /\ buf = [p \in Threads \X Pipes |-> 0]
        /\ sent = [t \in Threads |-> 0] /\ got = [t \in Threads |-> 0] /\ torn = [t \in Threads |-> FALSE]
        /\ asked = [t \in Threads |-> 0] /\ eaten = [t \in Threads |-> 0]
        /\ faults = MaxFaults /\ hist = [t \in Threads |-> << <<>> >>] /\ dead = FALSE

Note(t, x) == hist' = [hist EXCEPT ![t] = [@ EXCEPT ![Len(@)] = Append(@, x)]]
Fault == faults > 0 /\ faults' = faults - 1
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Mine(t) == {e \in AllEnds : e[1] = t}
Take(t, es, who) == [e \in AllEnds |-> IF e \in es THEN ends[e] \cup {who} ELSE ends[e]]
Leave(es, who) == [e \in AllEnds |-> IF e \in es THEN ends[e] \ {who} ELSE ends[e]]

\* -------------------------------------------------------------------------------------------- the parent's threads
MakePipes(t) == /\ pc[t] = "start"
                /\ \/ /\ ends' = Take(t, Mine(t), "P") /\ Go(t, "fork") /\ UNCHANGED <<faults, hist>>
                   \/ /\ Fault /\ Go(t, "finish") /\ Note(t, "pipe-fails") /\ UNCHANGED ends
                /\ UNCHANGED <<job, kid, buf, sent, got, torn, asked, eaten, dead>>
\* a fork copies every descriptor of the process, the other threads' too
Fork(t) == /\ pc[t] = "fork"
           /\ \/ /\ kid' = [kid EXCEPT ![t] = "forked"]
                 /\ ends' = [e \in AllEnds |-> IF "P" \in ends[e] THEN ends[e] \cup {t} ELSE ends[e]]
                 /\ Go(t, IF Design = "stdin" THEN "write" ELSE "dropw") /\ UNCHANGED <<faults, hist>>
              \/ /\ Fault /\ Note(t, "fork-fails") /\ ends' = Leave(Mine(t), "P") /\ Go(t, "finish") /\ UNCHANGED kid
           /\ UNCHANGED <<job, buf, sent, got, torn, asked, eaten, dead>>
\* the old design: everything is written first; a pipe nobody reads kills the writer
Write(t) == /\ pc[t] = "write"
            /\ IF asked[t] = Lines THEN Go(t, "dropw") /\ UNCHANGED <<buf, asked, dead>>
               ELSE IF ends[<<t, "in", "r">>] = {} THEN dead' = TRUE /\ UNCHANGED <<pc, buf, asked>>
               ELSE /\ buf[<<t, "in">>] < Cap /\ buf' = [buf EXCEPT ![<<t, "in">>] = @ + 1]
                    /\ asked' = [asked EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, dead>>
            /\ UNCHANGED <<job, kid, ends, sent, got, torn, eaten, faults, hist>>
DropW(t) == /\ pc[t] = "dropw"
            /\ ends' = Leave({e \in Mine(t) : e[2] = "in" \/ e[3] = "w"}, "P") /\ Go(t, "read")
            /\ UNCHANGED <<job, kid, buf, sent, got, torn, asked, eaten, faults, hist, dead>>
Read(t) == /\ pc[t] = "read"
           /\ \/ /\ buf[<<t, "out">>] > 0
                 /\ buf' = [buf EXCEPT ![<<t, "out">>] = @ - 1] /\ got' = [got EXCEPT ![t] = @ + 1]
                 /\ UNCHANGED <<pc, faults, hist>>
              \/ /\ buf[<<t, "out">>] = 0 /\ ends[<<t, "out", "w">>] = {}
                 /\ Go(t, "close") /\ UNCHANGED <<buf, got, faults, hist>>
              \/ /\ Fault /\ Note(t, "read-interrupted") /\ UNCHANGED <<pc, buf, got>>
              \/ /\ Fault /\ Note(t, "read-fails") /\ Go(t, "close") /\ UNCHANGED <<buf, got>>
           /\ UNCHANGED <<job, kid, ends, sent, torn, asked, eaten, dead>>
Close(t) == /\ pc[t] = "close" /\ ends' = Leave(Mine(t), "P") /\ Go(t, "wait")
            /\ UNCHANGED <<job, kid, buf, sent, got, torn, asked, eaten, faults, hist, dead>>
Wait(t) == /\ pc[t] = "wait"
           /\ \/ /\ kid[t] = "zombie" /\ kid' = [kid EXCEPT ![t] = "none"] /\ Go(t, "finish") /\ UNCHANGED <<faults, hist>>
              \/ /\ Fault /\ Note(t, "wait-interrupted") /\ UNCHANGED <<pc, kid>>
           /\ UNCHANGED <<job, ends, buf, sent, got, torn, asked, eaten, dead>>
\* is the output used?
Failed(t) == \E i \in DOMAIN hist[t][job[t]] : hist[t][job[t]][i] \in {"pipe-fails", "fork-fails", "read-fails"}
Usable(t) == ~Failed(t) /\ got[t] = Lines /\ ~torn[t]
Finish(t) == /\ pc[t] = "finish"
             /\ LET h == Append(hist[t][job[t]], IF Usable(t) THEN "info" ELSE "missing")
                    more == job[t] < Jobs
                IN /\ hist' = [hist EXCEPT ![t] = IF more THEN Append([@ EXCEPT ![job[t]] = h], <<>>) ELSE [@ EXCEPT ![job[t]] = h]]
                   /\ job' = IF more THEN [job EXCEPT ![t] = @ + 1] ELSE job
                   /\ Go(t, IF more THEN "start" ELSE "done")
             /\ buf' = [p \in DOMAIN buf |-> IF p[1] = t THEN 0 ELSE buf[p]]
             /\ sent' = [sent EXCEPT ![t] = 0] /\ got' = [got EXCEPT ![t] = 0] /\ torn' = [torn EXCEPT ![t] = FALSE]
             /\ asked' = [asked EXCEPT ![t] = 0] /\ eaten' = [eaten EXCEPT ![t] = 0]
             /\ UNCHANGED <<kid, ends, faults, dead>>

\* -------------------------------------------------------------------------------------------- the helper processes
\* the write end of its output and the read end of its input survive as its standard streams
Kept(t) == {e \in Mine(t) : (e[2] = "out" /\ e[3] = "w") \/ (e[2] = "in" /\ e[3] = "r")}
ExitEnds(t) == [e \in AllEnds |-> ends[e] \ {t}]
Exec(t) == /\ kid[t] = "forked"
           /\ \/ /\ kid' = [kid EXCEPT ![t] = "running"] /\ UNCHANGED <<faults, hist>>
                 /\ ends' = Leave(IF CloseOnExec THEN AllEnds \ Kept(t) ELSE Mine(t) \ Kept(t), t)
              \/ /\ Fault /\ Note(t, "exec-fails") /\ kid' = [kid EXCEPT ![t] = "zombie"] /\ ends' = ExitEnds(t)
           /\ UNCHANGED <<pc, job, buf, sent, got, torn, asked, eaten, dead>>
CanAnswer(t) == sent[t] < Lines /\ (buf[<<t, "out">>] < Cap \/ ends[<<t, "out", "r">>] = {}) /\ (Design = "stdin" => sent[t] < eaten[t])
InputOver(t) == Design = "stdin" => (buf[<<t, "in">>] = 0 /\ ends[<<t, "in", "w">>] = {})
Answer(t) == /\ kid[t] = "running" /\ CanAnswer(t)
             /\ sent' = [sent EXCEPT ![t] = @ + 1]
             /\ IF ends[<<t, "out", "r">>] = {}
                THEN kid' = [kid EXCEPT ![t] = "zombie"] /\ ends' = ExitEnds(t) /\ UNCHANGED buf
                ELSE buf' = [buf EXCEPT ![<<t, "out">>] = @ + 1] /\ UNCHANGED <<kid, ends>>
             /\ UNCHANGED <<pc, job, got, torn, asked, eaten, faults, hist, dead>>
Eat(t) == /\ Design = "stdin" /\ kid[t] = "running" /\ buf[<<t, "in">>] > 0 /\ eaten[t] = sent[t]
          /\ buf' = [buf EXCEPT ![<<t, "in">>] = @ - 1] /\ eaten' = [eaten EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<pc, job, kid, ends, sent, got, torn, asked, faults, hist, dead>>
Exit(t) == /\ kid[t] = "running" /\ sent[t] = (IF Design = "stdin" THEN eaten[t] ELSE Lines) /\ InputOver(t)
           /\ kid' = [kid EXCEPT ![t] = "zombie"] /\ ends' = ExitEnds(t)
           /\ UNCHANGED <<pc, job, buf, sent, got, torn, asked, eaten, faults, hist, dead>>
\* death at any point: between lines, or within one (the parent then reads a line that is cut short)
Die(t) == /\ kid[t] = "running" /\ Fault /\ sent[t] < Lines
          /\ kid' = [kid EXCEPT ![t] = "zombie"] /\ ends' = ExitEnds(t)
          /\ \/ Note(t, "dies-after-" \o ToString(sent[t])) /\ UNCHANGED <<buf, sent, torn>>
             \/ /\ buf[<<t, "out">>] < Cap /\ torn' = [torn EXCEPT ![t] = TRUE] /\ buf' = [buf EXCEPT ![<<t, "out">>] = @ + 1]
                /\ sent' = [sent EXCEPT ![t] = @ + 1] /\ Note(t, "dies-within-" \o ToString(sent[t] + 1))
          /\ UNCHANGED <<pc, job, got, asked, eaten, dead>>
\* one line too many
Babble(t) == /\ kid[t] = "running" /\ Fault /\ sent[t] = Lines /\ InputOver(t) /\ buf[<<t, "out">>] < Cap
             /\ buf' = [buf EXCEPT ![<<t, "out">>] = @ + 1] /\ sent' = [sent EXCEPT ![t] = @ + 1]
             /\ kid' = [kid EXCEPT ![t] = "zombie"] /\ ends' = ExitEnds(t) /\ Note(t, "babbles")
             /\ UNCHANGED <<pc, job, got, torn, asked, eaten, dead>>

Parent(t) == MakePipes(t) \/ Fork(t) \/ Write(t) \/ DropW(t) \/ Read(t) \/ Close(t) \/ Wait(t) \/ Finish(t)
Kid(t) == Exec(t) \/ Answer(t) \/ Eat(t) \/ Exit(t) \/ Die(t) \/ Babble(t)
AllDone == \A t \in Threads : Done(t)
Next == \/ ~dead /\ \E t \in Threads : Parent(t)
        \/ \E t \in Threads : Kid(t)
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(~dead /\ Parent(t)) /\ WF_vars(Kid(t))

\* ------------------------------------------------------------------------------------------------------ properties
Survives == ~dead
NothingLeft == \A t \in Threads : Done(t) => /\ kid[t] = "none"
                                             /\ \A e \in Mine(t) : "P" \notin ends[e]
\* information is used exactly when the helper delivered all of it
Faithful == \A t \in Threads : \A n \in DOMAIN hist[t] :
  LET h == hist[t][n] IN h # <<>> /\ h[Len(h)] \in {"info", "missing"} =>
    (h[Len(h)] = "info" <=> \A i \in 1..(Len(h) - 1) : h[i] \in {"read-interrupted", "wait-interrupted"})
\* a fault of one job costs nothing in another
Terminates == <>AllDone
=============================================================================
