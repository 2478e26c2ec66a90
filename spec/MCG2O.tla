------------------------------- MODULE MCG2O -------------------------------
(***************************************************************************)
(* Design check for the reader of pose graph files (C21): what is loaded   *)
(* line by line is what the whole file says.                               *)
(***************************************************************************)
EXTENDS G2O, TLC, Json

CONSTANTS MaxLines, Variant, Emit
VARIABLES file, st, told
vars == <<file, st, told>>

\* distinct lines carry distinct numbers: the position in the file
Line(kind, at) == [kind |-> kind, at |-> at, nums |-> <<Len(file) + 1>>, info |-> <<Len(file) + 1>>]
NV(f) == Cardinality({k \in 1..Len(f) : f[k].kind = "vertex"})
\* an edge connects poses stated before it
Lines == {Line("vertex", <<i>>) : i \in 0..(MinI(MaxLines, NV(file) + 1))}
         \cup {Line("edge", <<i, j>>) : i \in 0..(NV(file) - 1), j \in 0..(NV(file) - 1)}
         \cup {Line("other", <<0>>)}
Take(line) ==
    CASE Variant = "lenient" /\ line.kind = "vertex" -> [st EXCEPT !.poses = Append(@, line.nums)]
      [] Variant = "skips" /\ line.kind = "other" -> st
      [] OTHER -> Read(st, line)
Init == file = <<>> /\ st = Start /\ told = FALSE
Step == /\ Len(file) < MaxLines
        /\ \E line \in Lines : file' = Append(file, line) /\ st' = Take(line)
        /\ UNCHANGED told
Tell == /\ Emit /\ ~told /\ Len(file) = MaxLines /\ NV(file) > 0 /\ told' = TRUE
        /\ PrintT("PROGRAM " \o ToJson([lines |-> [k \in 1..Len(file) |-> [kind |-> file[k].kind, at |-> file[k].at]]]))
        /\ UNCHANGED <<file, st>>
Next == Step \/ Tell
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the whole file says
VertexLines == {k \in 1..Len(file) : file[k].kind = "vertex"}
EdgeLines == {k \in 1..Len(file) : file[k].kind = "edge"}
Before(k) == Cardinality({i \in VertexLines : i < k})
WellFormed == /\ VertexLines \cup EdgeLines = 1..Len(file)
              /\ \A k \in VertexLines : file[k].at[1] = Before(k)
RefusedIff == st.refused = ~WellFormed
Loaded == ~st.refused =>
    /\ Len(st.poses) = Cardinality(VertexLines)
    /\ \A k \in VertexLines : st.poses[file[k].at[1] + 1] = file[k].nums
    /\ Len(st.edges) = Cardinality(EdgeLines)
    /\ \A k \in EdgeLines : \E e \in Range(st.edges) : e = [from |-> file[k].at[1], to |-> file[k].at[2], nums |-> file[k].nums, info |-> file[k].info]
    /\ \A e \in Range(st.edges) : e.from < Len(st.poses) /\ e.to < Len(st.poses)
ReadAgrees == Variant = "ok" => st = ReadAll(file)
\* triangles: symmetric, and reading the upper triangle gives the numbers back
UpperOf(n, m) == Flatten([i \in 1..n |-> SubSeq(m[i], i, n)])
Triangles == \A n \in {1, 2, 3, 6} :
    LET m == FromUpper(n, [k \in 1..TriLen(n) |-> k])
    IN  m = Transpose(m) /\ UpperOf(n, m) = [k \in 1..TriLen(n) |-> k]
=============================================================================
