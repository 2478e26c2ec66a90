------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Results must not depend on what was computed before (C12).  Linear      *)
(* solvers remember the analysis of sparsity patterns they have met.  A    *)
(* request is a pair of a solver object and a problem; problems have a     *)
(* size, a sparsity pattern and values.  The remembered analysis is looked *)
(* up by a key; the result is right exactly if the analysis that is used   *)
(* was made for the pattern of the problem, and the numbers that are used  *)
(* are those of the problem: at most the analysis may be remembered.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS KeyMode,      \* "pattern", "solver", "shape", "numbers" (remembered too)
          MaxRequests, Emit

Solvers == 1..2
\* problem |-> <<size, pattern, values>>
Problems == <<  <<4, "a", 1>>, <<4, "b", 1>>, <<4, "a", 2>>, <<6, "c", 1>>, <<6, "d", 1>>, <<4, "e", 1>> >>
Size(p) == Problems[p][1]
Pattern(p) == Problems[p][2]
Values(p) == Problems[p][3]

VARIABLES cache,        \* key |-> pattern analysed
          log           \* <<solver, problem, <<pattern, values>> used>>

Key(s, p) == CASE KeyMode \in {"pattern", "numbers"} -> <<s, Size(p), Pattern(p)>>
               [] KeyMode = "solver" -> <<s>>
               [] KeyMode = "shape" -> <<s, Size(p)>>
               [] KeyMode = "pattern-only" -> <<Size(p), Pattern(p)>>

Init == cache = <<>> /\ log = <<>>
Request(s, p) ==
    LET k == Key(s, p)
        known == IF k \in DOMAIN cache THEN cache[k] ELSE <<Pattern(p), Values(p)>>
        used == IF KeyMode = "numbers" THEN known ELSE <<known[1], Values(p)>>
    IN  /\ log' = Append(log, <<s, p, used>>)
        /\ cache' = (k :> used) @@ cache
Next == Len(log) < MaxRequests /\ \E s \in Solvers, p \in 1..Len(Problems) : Request(s, p)
Spec == Init /\ [][Next]_<<cache, log>>

\* the answer to every request is what a fresh process would give
HistoryFree == \A i \in 1..Len(log) : log[i][3] = <<Pattern(log[i][2]), Values(log[i][2])>>
EmitProgram == (Emit /\ Len(log) = MaxRequests) =>
    PrintT("PROGRAM " \o ToJson([requests |-> [i \in 1..Len(log) |-> <<log[i][1], log[i][2]>>]]))
=============================================================================
