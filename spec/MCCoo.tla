------------------------------- MODULE MCCoo -------------------------------
(***************************************************************************)
(* Design check of coordinate matrices (C10, C11): for all short entry     *)
(* lists, scattered products agree with the dense matrix, also transposed, *)
(* in any order; and column sums of squares are the diagonal of the Gram   *)
(* matrix exactly if no position is repeated.                              *)
(***************************************************************************)
EXTENDS Coo, TLC, Json
CONSTANTS MaxEntries, Variant, Emit

Rows == 2
Cols == 3
X == <<2, -1, 5>>
Y == <<3, -4>>
VARIABLE es
Init == es = <<>>
Next == /\ Len(es) < MaxEntries
        /\ \E i \in 1..Rows, j \in 1..Cols, v \in {-1, 2} : es' = Append(es, <<i, j, v>>)
Spec == Init /\ [][Next]_es

M == Dense(es, Rows, Cols)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Product == CooMatVec(es, Rows, X, Variant) = MatVec(M, X)
TransposedProduct == CooMatVec(CooT(es), Cols, Y, Variant) = MatVec(TransposeN(M, Cols), Y)
TransposeTwice == CooT(CooT(es)) = es /\ Dense(CooT(es), Cols, Rows) = TransposeN(M, Cols)
OrderFree == CooMatVec(Rev(es), Rows, X, Variant) = CooMatVec(es, Rows, X, Variant)
Diagonal == RepeatFree(es) => EntryDiag(es, Cols) = GramDiag(M)
\* violated: this is how the finding about iterative solvers shows up
DiagonalAlways == EntryDiag(es, Cols) = GramDiag(M)

EmitProgram == Emit => PrintT("PROGRAM " \o ToJson([rows |-> Rows, cols |-> Cols, entries |-> es]))
=============================================================================
