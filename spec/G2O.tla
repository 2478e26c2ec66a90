-------------------------------- MODULE G2O --------------------------------
(***************************************************************************)
(* Pose graph files: a reader that takes one line at a time.               *)
(* A line is a record [kind, at, nums, info]: kind is "vertex", "edge" or  *)
(* anything else; at = <<index>> of a vertex and <<from, to>> of an edge,  *)
(* counted from zero; nums are the numbers of its pose and info the upper  *)
(* triangle of an information matrix, row by row.                          *)
(***************************************************************************)
EXTENDS Pose

\* n x n symmetric matrix from its upper triangle, row by row
RowStart(n, i) == (i - 1) * n - ((i - 1) * (i - 2)) \div 2
TriIndex(n, i, j) == RowStart(n, i) + j - i + 1                  \* for i <= j
FromUpper(n, c) == [i \in 1..n |-> [j \in 1..n |-> c[TriIndex(n, MinI(i, j), MaxI(i, j))]]]
TriLen(n) == (n * (n + 1)) \div 2

\* reader state
Start == [refused |-> FALSE, poses |-> <<>>, edges |-> <<>>]
Refuse(st) == [st EXCEPT !.refused = TRUE]
Read(st, line) ==
    IF st.refused THEN st
    ELSE CASE line.kind = "vertex" ->
                IF line.at[1] = Len(st.poses) THEN [st EXCEPT !.poses = Append(@, line.nums)] ELSE Refuse(st)
           [] line.kind = "edge" ->
                [st EXCEPT !.edges = Append(@, [from |-> line.at[1], to |-> line.at[2], nums |-> line.nums, info |-> line.info])]
           [] OTHER -> Refuse(st)
RECURSIVE ReadTo(_, _)
ReadTo(lines, k) == IF k = 0 THEN Start ELSE Read(ReadTo(lines, k - 1), lines[k])
ReadAll(lines) == ReadTo(lines, Len(lines))

----------------------------------------------------------------------------
(* The poses that lines state.  Numbers are thousandths, except for the    *)
(* entries of quaternions, which are scaled by FS already.                 *)
Th(x) == (FS \div 1000) * x
FromFile(t, nums) ==
    IF t = "SE2" THEN FCompose(PoseOf(FIdentity, <<Th(nums[1]), Th(nums[2]), 0>>), FExp(<<0, 0, 0, 0, 0, Th(nums[3])>>))
    ELSE PoseOf(FQuat(<<nums[7], nums[4], nums[5], nums[6]>>), <<Th(nums[1]), Th(nums[2]), Th(nums[3])>>)
=============================================================================
