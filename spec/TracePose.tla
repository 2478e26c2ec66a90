----------------------------- MODULE TracePose -----------------------------
(***************************************************************************)
(* Validates recorded pose operations (C18).                               *)
(* kind "pose": poses a, b, measurement m, and delta d (parameters and     *)
(*   deltas times FS), and what was observed:                              *)
(*   moved      parameters of a retracted by d                             *)
(*   prior      residual of a prior mu on a;   between   of m from a to b  *)
(*   pjac, ajac, bjac   their Jacobians (times JS), and for each column    *)
(*   pdiff, adiff, bdiff   the residuals after moving by +STEP and -STEP   *)
(*   rjac, rdiff   the same for the parameters of a                        *)
(*   gprior, gbetween, gpjac, gajac, gbjac   as evaluated in a graph       *)
(*   exact      if poses are on the discrete subgroup, as integers, before *)
(*              pose `who` was moved by d                                  *)
(* kind "match": attempts to connect pose variables of several groups.     *)
(* kind "facts": constants of a variable type.                             *)
(***************************************************************************)
EXTENDS Pose, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]
T == S.t

JS == 10000
\* residuals for derivatives are recorded times JS, for moves by 1 / 20
Half == 10
Tol == 24
Most == 12 * FS
Pm(p) == Len(p) = Dim(T) /\ Within(p, Most)
Dl(d) == Len(d) = LDim(T) /\ Within(d, Most)

A == FPose(T, S.a)
B == FPose(T, S.b)
M == FPose(T, S.m)
FPriorE == FCompose(FInverse(A), FPose(T, S.mu))
FRel == FCompose(FInverse(A), B)
FBetweenE == FCompose(FInverse(FRel), M)

\* principal logarithm: rotation by at most half a turn (pi^2 = 9.87)
ISq(x) == RDiv(x * x, FS)
Principal(d) == LET w == SubSeq(FDelta(T, d), 4, 6)
                IN  ISq(w[1]) + ISq(w[2]) + ISq(w[3]) <= (FS * 987) \div 100 + FS \div 20
IsLog(d, e) == Dl(d) /\ Principal(d) /\ PNear(FExp(FDelta(T, d)), e, Tol)

\* column k of a Jacobian is the symmetric difference quotient
JTol == 120
ColOk(jac, pair, k, rows) ==
    /\ Len(pair[1]) = rows /\ Len(pair[2]) = rows
    /\ \A i \in 1..rows : Near(jac[i][k], Half * (pair[1][i] - pair[2][i]), JTol)
Mat(j, rows, cols) == IsMat(j, rows, cols) /\ MWithin(j, 100 * JS)
Exact(jac, diffs, rows) ==
    /\ Mat(jac, rows, LDim(T)) /\ Len(diffs) = LDim(T)
    /\ \A k \in 1..LDim(T) : ColOk(jac, diffs[k], k, rows)
\* to first order in the residual
ToJ(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> RDiv(m[i][j] * 10, 3)]]
MinusI == MatScale(-JS, Identity(LDim(T)))
AdjJ == ToJ(Restrict(T, FAdjoint(FInverse(FRel))))
First(jac, m) == Mat(jac, LDim(T), LDim(T)) /\ MNear(jac, m, 60)
Away(d) == Dl(d) /\ NormInf(d) >= FS \div 100

Jac(name, jac, diffs, first, res) ==
    IF Exact(jac, diffs, LDim(T)) THEN {}
    ELSE IF First(jac, first) /\ Away(res) THEN {"C18.jacobian_first_order"}
    ELSE {"C18." \o name}

\* exact cases
Scale(p) == IF T \in {"SO3", "SE3"}
            THEN [i \in 1..Len(p) |-> IF i <= 4 THEN (FS \div 2) * p[i] ELSE FS * p[i]] ELSE VScale(FS, p)
XPose(x) == FPose(T, Scale(x))
X == S.exact
XA == IF X.who = "a" THEN Retract(T, X.a, X.d) ELSE X.a
XB == IF X.who = "b" THEN Retract(T, X.b, X.d) ELSE X.b
XMu == IF X.who = "a" THEN X.a ELSE X.b
XClauses ==
    IF ~X.is THEN {}
    ELSE Clause("C18.retract_exact", Pm(S.moved) /\ PNear(FPose(T, S.moved), XPose(Retract(T, XA, X.d)), Tol))
         \cup Clause("C18.prior_exact", IsLog(S.prior, XPose(PriorE(T, XA, XMu))))
         \cup Clause("C18.between_exact", IsLog(S.between, XPose(BetweenE(T, XA, XB, X.m))))
\* the moved pose, if it moved as it should
XWell == ~X.is \/ (/\ ValidDelta(T, X.d)
                   /\ X.who # "a" => PNear(XPose(X.a), A, Tol)
                   /\ X.who # "b" => PNear(XPose(X.b), B, Tol)
                   /\ PNear(XPose(X.m), M, Tol))

Same(m1, m2) == MNear(m1, m2, 30)
PoseClauses ==
    IF ~S.ok THEN {"C18.completes"}
    ELSE IF ~(Pm(S.a) /\ Pm(S.b) /\ Pm(S.m) /\ Pm(S.mu) /\ Dl(S.d) /\ XWell) THEN {"scenario.malformed"}
    ELSE Clause("C18.retract", Pm(S.moved) /\ PNear(FPose(T, S.moved), FCompose(A, FExp(FDelta(T, S.d))), Tol))
         \cup Clause("C18.prior_residual", IsLog(S.prior, FPriorE))
         \cup Clause("C18.between_residual", IsLog(S.between, FBetweenE))
         \cup XClauses
         \cup (IF ~S.jac THEN {}
               ELSE Jac("prior_jacobian", S.pjac, S.pdiff, MinusI, S.prior)
                    \cup Jac("between_jacobian", S.ajac, S.adiff, AdjJ, S.between)
                    \cup Jac("between_jacobian", S.bjac, S.bdiff, MinusI, S.between)
                    \cup Clause("C18.retract_jacobian", Exact(S.rjac, S.rdiff, Dim(T))))
         \cup Clause("C18.graph_residual", /\ VNear(S.gprior, S.prior, 6) /\ VNear(S.gbetween, S.between, 6))
         \cup Clause("C18.graph_jacobian", S.jac => /\ Same(S.gpjac, S.pjac) /\ Same(S.gajac, S.ajac) /\ Same(S.gbjac, S.bjac))

MatchClauses == UNION {Clause("C18.match", S.tries[i].made = (S.tries[i].a = S.tries[i].b /\ S.tries[i].b = S.tries[i].m))
                       : i \in 1..Len(S.tries)}

FactClauses == Clause("C18.identity", S.default = Scale(Default(T)))
               \cup Clause("C18.dimensions", S.dim = Dim(T) /\ S.ldim = LDim(T))

Clauses == CASE S.kind = "pose" -> PoseClauses [] S.kind = "match" -> MatchClauses [] OTHER -> FactClauses

Init == n \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, 1, Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
