-------------------------------- MODULE Host --------------------------------
(* Processes that compile and run programs one after another.                *)
(*                                                                           *)
(* A history starts processes, each under some hash seed, and in each gives  *)
(* the compiler some of a few programs, each named in some way (relative to  *)
(* the working directory, by its full path, from another directory).  What a *)
(* process remembers of its earlier runs, its seed and the way a program is  *)
(* named make no difference: what comes out (the code, the diagnostic, the   *)
(* output, the report of an error, the status) is a function of the program. *)
(*                                                                           *)
(* Without recorded histories the specification generates some; with them it *)
(* follows each, event by event.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS Programs, Seeds, Names, MaxRuns, MaxProcesses

T == JsonDeserialize(IOEnv.PROGS)
VARIABLES pid, at, proc, out, H
vars == <<pid, at, proc, out, H>>

NoProc == [seed |-> -1, runs |-> <<>>]
Unknown == 0
Init == /\ pid \in 0..Len(T)
        /\ (pid = 0) = (T = <<>>)
        /\ at = 0 /\ proc = NoProc /\ out = [s \in Programs |-> Unknown] /\ H = <<>>

Start(seed) == proc' = [seed |-> seed, runs |-> <<>>] /\ UNCHANGED out
\* What a program gives is what it gave before
Run(s, n, o) == /\ proc # NoProc
                /\ out[s] \in {Unknown, o}
                /\ proc' = [proc EXCEPT !.runs = Append(@, s)]
                /\ out' = [out EXCEPT ![s] = o]

-----------------------------------------------------------------------------
\* Histories to try
Processes == Cardinality({i \in 1..Len(H): H[i].e = "start"})
Generate ==
  /\ pid = 0 /\ at < MaxRuns * MaxProcesses + MaxProcesses
  /\ \/ \E seed \in Seeds: /\ (H = <<>> \/ (Processes < MaxProcesses /\ proc.runs # <<>>))
                           /\ Start(seed) /\ H' = Append(H, [e |-> "start", seed |-> seed])
     \/ \E s \in Programs, n \in Names: /\ Len(proc.runs) < MaxRuns
                                        /\ Run(s, n, s) /\ H' = Append(H, [e |-> "run", s |-> s, n |-> n])
  /\ at' = at + 1
Full == pid = 0 /\ Processes = MaxProcesses /\ Len(proc.runs) = MaxRuns
Tell == Full /\ at < 1000 /\ PrintT("@@" \o ToJson([h |-> H])) /\ at' = 1000 /\ UNCHANGED <<proc, out, H>>
\* Histories that were recorded
Steps == T[pid].steps
Follow ==
  /\ pid > 0 /\ at < Len(Steps)
  /\ LET e == Steps[at + 1] IN
     \/ e.e = "start" /\ Start(e.seed)
     \/ e.e = "run" /\ Run(e.s, e.n, e.o)
  /\ at' = at + 1 /\ UNCHANGED H
\* How far a recorded history is one of the specification
End == /\ pid > 0 /\ at < 1000 /\ ~ENABLED Follow
       /\ PrintT("@@" \o ToJson([p |-> T[pid].pid, at |-> at, all |-> at = Len(Steps)]))
       /\ at' = 1000 /\ UNCHANGED <<proc, out, H>>
Next == (Generate \/ Tell \/ Follow \/ End) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

\* Programs do not share what they give
Apart == pid = 0 => \A s \in Programs: out[s] \in {Unknown, s}
=============================================================================
