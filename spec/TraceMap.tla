------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Validates recorded solves of whole graphs (C16; relative ones for C03   *)
(* and C07).  A scenario is a problem whose minimizer is the integer point *)
(* S.truth: the specification itself checks that the gradient vanishes     *)
(* there and that every variable is anchored.  Recorded are, per run, the  *)
(* solution in thousandths, the same after solving again from it, storage  *)
(* orders, and whether inputs changed.                                     *)
(*                                                                         *)
(* S.factors: polynomial factors as in Graph.  S.poses: pose factors       *)
(* [kind: "prior" / "between", vs, m: mean or measurement].                *)
(***************************************************************************)
EXTENDS Graph, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]
P(name) == S.prop \o "." \o name

Types == S.types
Truth == S.truth
Fs == S.factors
Used == VarsOf(Fs) \cup UNION {Range(S.poses[i].vs) : i \in 1..Len(S.poses)}

----------------------------------------------------------------------------
(* The scenario is what it claims to be *)
\* polynomial factors: gradient of the cost at the truth
Rows == GraphRows(Types, Fs, Truth)
Grad(rows, v, k) == SumTo([i \in 1..Len(rows) |-> (rows[i].res \div K) * (rows[i].jac[v][k] \div K)], Len(rows))
Stationary ==
    LET rows == Rows
    IN  \A v \in VarsOf(Fs) : \A k \in 1..LDim(Types[v]) : Grad(rows, v, k) = 0
\* pose factors: zero residual at the truth
PoseWell(f) ==
    IF f.kind = "prior" THEN f.m = Truth[f.vs[1]]
    ELSE LET t == Types[f.vs[1]]
         IN  f.m = GMul(t, GInv(t, Truth[f.vs[1]]), Truth[f.vs[2]])
\* every variable has a factor that sees each of its parameters, or is a pose
\* connected to an anchored pose
Diagonal(q) == \A i \in 1..Len(q) : q[i][i] # 0 /\ \A j \in 1..Len(q[i]) : i # j => q[i][j] = 0
SelfAnchored(v) ==
    \/ \E i \in 1..Len(Fs) : /\ Fs[i].vs = <<v>> /\ Fs[i].b = <<>> /\ Len(Fs[i].q) = Dim(Types[v])
                             /\ Diagonal(Fs[i].q)
    \/ \E i \in 1..Len(S.poses) : S.poses[i].kind = "prior" /\ S.poses[i].vs = <<v>>
RECURSIVE Reachable(_, _)
Reachable(set, k) ==
    IF k = 0 THEN set
    ELSE Reachable(set \cup UNION {IF S.poses[i].kind = "between" /\ Range(S.poses[i].vs) \cap set # {}
                                   THEN Range(S.poses[i].vs) ELSE {} : i \in 1..Len(S.poses)}, k - 1)
Anchored == LET a == {v \in Used : SelfAnchored(v)}
            IN  Reachable(a, Cardinality(Used)) = Used
Well == /\ Stationary /\ Anchored /\ \A i \in 1..Len(S.poses) : PoseWell(S.poses[i])
        /\ \A r \in 1..Len(S.runs) : Range(S.runs[r].order) = Used

----------------------------------------------------------------------------
NegQuat(x) == [i \in 1..Len(x) |-> IF i <= 4 THEN -x[i] ELSE x[i]]
\* the same value, up to tol thousandths (a rotation has two quaternions)
Same(t, x, y, tol) == VNear(x, y, tol) \/ (t \in {"SO3", "SE3"} /\ Len(x) >= 4 /\ VNear(NegQuat(x), y, tol))
Expected(v) == VScale(1000, Truth[v])
Solved(r, sol, tol) == /\ {sol[i][1] : i \in 1..Len(sol)} = Used /\ Len(sol) = Cardinality(Used)
                       /\ \A i \in 1..Len(sol) : Same(Types[sol[i][1]], sol[i][2], Expected(sol[i][1]), tol)
Stayed(r, tol) == /\ Len(r.again) = Len(r.sol)
                  /\ \A i \in 1..Len(r.sol) :
                        /\ r.again[i][1] = r.sol[i][1]
                        /\ Same(Types[r.sol[i][1]], r.again[i][2], r.sol[i][2], tol)

C16Clauses(r) ==
    IF ~r.ok THEN {P("completes")}
    ELSE Clause(P("minimizer"), Solved(r, r.sol, S.tol))
         \cup Clause(P("order"), r.sameorder /\ Len(r.sol) = Len(r.order)
                                 /\ \A i \in 1..Len(r.sol) : r.sol[i][1] = r.order[i])
         \cup Clause(P("initial_unchanged"), r.initial_same)
         \cup Clause(P("graph_unchanged"), r.graph_same)
         \cup Clause(P("stays"), Stayed(r, S.tol))

\* the same solution, whatever the order
ValueIn(sol, v) == sol[CHOOSE i \in 1..Len(sol) : sol[i][1] = v][2]
Has(sol) == {sol[i][1] : i \in 1..Len(sol)}
Agree(a, b) == /\ Has(a.sol) = Has(b.sol)
               /\ \A v \in Has(a.sol) : Same(Types[v], ValueIn(a.sol, v), ValueIn(b.sol, v), 2 * S.tol)
Relative ==
    UNION {Clause(P("accepted"), S.runs[i].ok = S.runs[1].ok)
           \cup Clause(P("solve"), (S.runs[1].ok /\ S.runs[i].ok) => Agree(S.runs[1], S.runs[i]))
           : i \in 2..Len(S.runs)}

Clauses == IF ~Well THEN {"scenario.malformed"}
           ELSE IF S.prop = "C16" THEN UNION {C16Clauses(S.runs[i]) : i \in 1..Len(S.runs)}
           ELSE Relative

Init == n \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, Len(S.runs), Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
