-------------------------------- MODULE Cov --------------------------------
(***************************************************************************)
(* Marginal covariances: blocks of the inverse of the information matrix,  *)
(* and how they are recovered from a sparse factor, one value at a time.   *)
(*                                                                         *)
(* The factor is U D U^T with U unit lower triangular, of the information  *)
(* matrix whose rows and columns have been reordered: scalar a is at place *)
(* pos[a].  With integers in U and 1 or 4 in D, four times the covariance  *)
(* is an integer matrix.                                                   *)
(***************************************************************************)
EXTENDS Graph

ScaleS == 4

\* inverse of a unit lower triangular matrix, by forward substitution
RECURSIVE UInvEntry(_, _, _)
UInvEntry(u, i, j) ==
    IF i < j THEN 0 ELSE IF i = j THEN 1
    ELSE -SumTo([k \in 1..(i - 1) |-> IF k < j THEN 0 ELSE u[i][k] * UInvEntry(u, k, j)], i - 1)
UInv(u) == [i \in 1..Len(u) |-> [j \in 1..Len(u) |-> UInvEntry(u, i, j)]]

\* reordered information, and four times its inverse
InfoP(u, d) == [i \in 1..Len(u) |-> [j \in 1..Len(u) |->
                  SumTo([k \in 1..Len(u) |-> u[i][k] * d[k] * u[j][k]], Len(u))]]
SigmaP(u, d) == LET w == UInv(u)
                IN  [i \in 1..Len(u) |-> [j \in 1..Len(u) |->
                       SumTo([k \in 1..Len(u) |-> w[k][i] * (ScaleS \div d[k]) * w[k][j]], Len(u))]]
\* in the order of the scalars
Reorder(m, pos) == [a \in 1..Len(m) |-> [b \in 1..Len(m) |-> m[pos[a]][pos[b]]]]

\* the recovery of one value, given those it depends on
Below(u, i) == {k \in (i + 1)..Len(u) : u[k][i] # 0}
Key(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
Needed(u, key) == {Key(k, key[2]) : k \in Below(u, key[1])}
RECURSIVE SumOver(_, _, _, _)
SumOver(u, cache, key, ks) ==
    IF ks = {} THEN 0
    ELSE LET k == CHOOSE k \in ks : TRUE
             c == Key(k, key[2])
         IN  u[k][key[1]] * (IF c \in DOMAIN cache THEN cache[c] ELSE 0) + SumOver(u, cache, key, ks \ {k})
ValueOf(u, d, cache, key) ==
    LET s == SumOver(u, cache, key, Below(u, key[1]))
    IN  IF key[1] = key[2] THEN (ScaleS \div d[key[1]]) - s ELSE -s

----------------------------------------------------------------------------
(* Information matrix of a bag of factors; scalars are <<variable, coordinate>> *)
ScalarsOf(types, vseq) ==
    Flatten([i \in 1..Len(vseq) |-> [k \in 1..LDim(types[vseq[i]]) |-> <<vseq[i], k>>]])
InfoOf(types, fs, val, vseq) ==
    LET rows == GraphRows(types, fs, val)
        ss == ScalarsOf(types, vseq)
    IN  [a \in 1..Len(ss) |-> [b \in 1..Len(ss) |->
            SumTo([i \in 1..Len(rows) |->
                    (rows[i].jac[ss[a][1]][ss[a][2]] \div K) * (rows[i].jac[ss[b][1]][ss[b][2]] \div K)], Len(rows))]]

\* Trees: every node but the first is connected to an earlier one, the first
\* has a prior.  4 / weight^2 is the variance that a connection adds; the
\* covariance of two nodes is what their paths to the root have in common.
RECURSIVE Meet(_, _, _)
Meet(parent, a, b) == IF a = b THEN a ELSE IF a > b THEN Meet(parent, parent[a], b) ELSE Meet(parent, a, parent[b])
RECURSIVE PathTo(_, _, _)
PathTo(parent, var4, a) == var4[a] + (IF a = 1 THEN 0 ELSE PathTo(parent, var4, parent[a]))
TreeCov4(parent, var4, a, b) == PathTo(parent, var4, Meet(parent, a, b))
=============================================================================
