----------------------------- MODULE TraceBatch -----------------------------
(***************************************************************************)
(* Validates recorded batched, compiled and differentiated evaluations and *)
(* solves (C19).                                                           *)
(*                                                                         *)
(* Kind "runs": table problems as in Solver (S.lanes), with S.refs where   *)
(*   the solver ended by itself; S.outs are records [way, lane, ok, pos]   *)
(*   of where it ended in a batch, in a compiled function or after other   *)
(*   calls.  Each has to be Alone(lane).                                   *)
(* Kind "eval": S.direct[e] is what evaluating graph and assignments e     *)
(*   directly gives; S.outs are [way, entry, ok, v] of the same numbers    *)
(*   obtained otherwise.                                                   *)
(* Kind "solve": the same for whole solves; numbers are thousandths.       *)
(* Kind "deriv": each of S.cases is a least squares problem whose integer  *)
(*   minimizer the specification verifies, with outs [way, by, which, ok,  *)
(*   g], derivatives of the solution times GS: rows are parameters of the  *)
(*   solution, columns those of what is differentiated by: "c" / "d" /     *)
(*   "w" constant part / diagonal of the square root precision / lower     *)
(*   half of its matrix of a factor, "x0" initial values.                  *)
(***************************************************************************)
EXTENDS Graph, Batch, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]

----------------------------------------------------------------------------
(* runs *)
RunTol(lane) == IF lane.cfg.kind = "dogleg" THEN 60 ELSE 1
\* If the solver by itself does not end where it should, then that is not
\* about batches: they still have to end like it
RunClauses ==
    LET clear == [i \in 1..Len(S.lanes) |-> S.refs[i] # <<>> /\ Clear(S.lanes[i])]
        near(p, q, i) == IsVec(p, 2) /\ VNear(p, q, RunTol(S.lanes[i]))
        expected == [i \in 1..Len(S.lanes) |->
                        IF ~clear[i] THEN <<>>
                        ELSE LET a == Alone(S.lanes[i]).pos
                             IN  IF near(S.refs[i], a, i) THEN a ELSE S.refs[i]]
    IN  UNION {LET o == S.outs[k]
               IN  IF o.ok # (S.refs[o.lane] # <<>>) THEN {"C19.completes_" \o o.way}
                   ELSE IF ~clear[o.lane] THEN {}
                   ELSE Clause("C19.alone_" \o o.way, near(o.pos, expected[o.lane], o.lane))
               : k \in 1..Len(S.outs)}

----------------------------------------------------------------------------
(* the same numbers as directly *)
CloseTo(a, b) == a = b \/ (a # Bad /\ b # Bad /\ Abs(a - b) <= S.tol + Abs(b) \div S.rel)
CloseVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CloseTo(a[i], b[i])
SameClauses ==
    UNION {LET o == S.outs[k]
               d == S.direct[o.entry]
           IN  IF o.ok # d.ok THEN {"C19.completes_" \o o.way}
               ELSE Clause("C19.same_" \o o.way, CloseVec(o.v, d.v))
           : k \in 1..Len(S.outs)}

----------------------------------------------------------------------------
(* derivatives *)
GS == 10000
\* parameters of the solution, in order: <<variable, coordinate>>
Cols == Flatten([v \in 1..Len(S.types) |-> [k \in 1..Dim(S.types[v]) |-> <<v, k>>]])
\* rows of the whitened Jacobian, in the order of the columns (no Huber: divide by K)
RowVec(row) == [j \in 1..Len(Cols) |-> row.jac[Cols[j][1]][Cols[j][2]] \div K]
RowsBefore(fs, f) == SumTo([i \in 1..(f - 1) |-> ResDim(fs[i])], f - 1)
WhitenEntry(nm, r, i) == IF nm.kind = "diag" THEN (IF r = i THEN nm.d[i] ELSE 0) ELSE nm.w[r][i]
\* entries of the lower half of a matrix, row by row
Lower(dim) == Flatten([r \in 1..dim |-> [q \in 1..r |-> <<r, q>>]])
\* derivative of the gradient's entry j by entry i, negated
Pull(c, d, rows, i, j) ==
    LET f == c.factors[d.which]
        b == RowsBefore(c.factors, d.which)
    IN  IF d.by = "x0" THEN 0
        ELSE IF d.by = "c"
        THEN -SumTo([r \in 1..ResDim(f) |-> rows[b + r][j] * WhitenEntry(f.noise, r, i) * Sign(f) * f.gain], ResDim(f))
        ELSE IF d.by = "d" THEN -2 * rows[b + i][j] * RawRes(f, c.truth)[i]
        ELSE LET e == Lower(ResDim(f))[i]
                 plain == RowOf(S.types, [f EXCEPT !.noise.kind = "diag", !.noise.d = [x \in 1..ResDim(f) |-> 1]],
                                c.truth, 1..Len(S.types), e[2])
             IN  -(RowVec(plain)[j] * Dot(f.noise.w[e[1]], RawRes(f, c.truth))
                   + rows[b + e[1]][j] * RawRes(f, c.truth)[e[2]])
DerivClauses(c) ==
    LET raw == GraphRows(S.types, c.factors, c.truth)
        rows == [i \in 1..Len(raw) |-> RowVec(raw[i])]
        m == Len(Cols)
        info == [a \in 1..m |-> [b \in 1..m |-> SumTo([i \in 1..Len(rows) |-> rows[i][a] * rows[i][b]], Len(rows))]]
        grad(a) == SumTo([i \in 1..Len(rows) |-> rows[i][a] * (raw[i].res \div K)], Len(rows))
        ncol(d) == IF d.by = "x0" THEN m
                   ELSE LET k == ResDim(c.factors[d.which]) IN IF d.by = "w" THEN Len(Lower(k)) ELSE k
        well == /\ \A i \in 1..Len(c.factors) : c.factors[i].noise.kind \in {"diag", "gauss"} /\ c.factors[i].cls # "ana"
                /\ \A k \in 1..Len(c.outs) : LET kind == c.factors[c.outs[k].which].noise.kind
                                              IN  (c.outs[k].by = "d" => kind = "diag") /\ (c.outs[k].by = "w" => kind = "gauss")
                /\ \A a \in 1..m : grad(a) = 0
                \* where the residual is not linear it has to vanish
                /\ (\E i \in 1..Len(c.factors) : c.factors[i].b # <<>>) => \A i \in 1..Len(raw) : raw[i].res = 0
    IN  IF ~well THEN {"scenario.malformed"}
        ELSE UNION {LET d == c.outs[k]
                    IN  IF ~d.ok THEN {"C19.completes_" \o d.way}
                        ELSE IF ~IsMat(d.g, m, ncol(d)) THEN {"C19.shape_" \o d.way}
                        ELSE IF ~MWithin(d.g, 20 * GS) THEN {"C19.finite_" \o d.way}
                        ELSE Clause("C19.derivative_" \o d.way \o "_" \o d.by,
                               \A i \in 1..ncol(d) : \A a \in 1..m :
                                  Near(Dot(info[a], [b \in 1..m |-> d.g[b][i]]), GS * Pull(c, d, rows, i, a),
                                       10 + S.slack * Norm1(info[a])))
                    : k \in 1..Len(c.outs)}

Clauses == CASE S.kind = "runs" -> RunClauses
             [] S.kind \in {"eval", "solve"} -> SameClauses
             [] S.kind = "deriv" -> UNION {DerivClauses(S.cases[i]) : i \in 1..Len(S.cases)}

Init == n \in 1..Len(Log) /\ done = FALSE
Events == IF S.kind = "deriv" THEN SumTo([i \in 1..Len(S.cases) |-> Len(S.cases[i].outs)], Len(S.cases))
          ELSE Len(S.outs)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, Events, Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
