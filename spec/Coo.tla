-------------------------------- MODULE Coo --------------------------------
(***************************************************************************)
(* Sparse matrices in coordinate form, what they denote, and the damped    *)
(* normal equations built from them.  An entry is <<row, column, value>>   *)
(* (counted from 1); a matrix is a sequence of entries and a shape.        *)
(***************************************************************************)
EXTENDS Arith

RECURSIVE EntrySum(_, _, _, _)
EntrySum(es, i, j, k) ==
    IF k = 0 THEN 0
    ELSE (IF es[k][1] = i /\ es[k][2] = j THEN es[k][3] ELSE 0) + EntrySum(es, i, j, k - 1)

\* entries given more than once are summed, entries not given are zero
Dense(es, rows, cols) == [i \in 1..rows |-> [j \in 1..cols |-> EntrySum(es, i, j, Len(es))]]
CooT(es) == [k \in 1..Len(es) |-> <<es[k][2], es[k][1], es[k][3]>>]

\* products the way they are computed: scatter the contribution of each entry.
\* In the broken variant the last entry of a row or position wins.
RECURSIVE Scatter(_, _, _, _, _)
Scatter(acc, es, x, k, variant) ==
    IF k > Len(es) THEN acc
    ELSE LET i == es[k][1]
             c == es[k][3] * x[es[k][2]]
         IN  Scatter([acc EXCEPT ![i] = IF variant = "set" THEN c ELSE @ + c], es, x, k + 1, variant)
CooMatVec(es, rows, x, variant) == Scatter(Zeros(rows), es, x, 1, variant)

RepeatFree(es) == \A a, b \in 1..Len(es) : (es[a][1] = es[b][1] /\ es[a][2] = es[b][2]) => a = b

\* diag(AT A), and how the iterative solvers compute it: column by column
\* sums of squared entries
GramDiag(m) == [j \in 1..NumCols(m) |-> SumSq([i \in 1..Len(m) |-> m[i][j]])]
EntryDiag(es, cols) ==
    [j \in 1..cols |-> SumTo([k \in 1..Len(es) |-> IF es[k][2] = j THEN es[k][3] * es[k][3] ELSE 0], Len(es))]

Gram(m) == MatMul(Transpose(m), m)
=============================================================================
