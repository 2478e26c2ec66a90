------------------------------ MODULE MCNoise ------------------------------
(***************************************************************************)
(* Design check of the noise models (C08, C09), in two dimensions.         *)
(*                                                                         *)
(* Part "gauss": a covariance l lT, a residual l u and a Jacobian column   *)
(* l v.  What is computed is scaled by det(l), so that inverses are        *)
(* integer; what is meant is defined by the inverse of the covariance.     *)
(*                                                                         *)
(* Part "huber": a residual u of integer norm (already whitened) and a     *)
(* threshold num / den.  Scale factors are square roots, so their squares  *)
(* are compared, as fractions <<p, q>>.  The Jacobian is scaled by looking *)
(* at the residual that was scaled already.                                *)
(***************************************************************************)
EXTENDS Arith, TLC, Json
CONSTANTS Part, Variant, Reach, Emit

VARIABLE c
Box == (-Reach)..Reach
Cases ==
    IF Part = "gauss"
    THEN {[l |-> <<<<a, 0>>, <<b, d>>>>, u |-> <<x, y>>, v |-> <<p, q>>] :
            a \in 1..3, b \in -2..2, d \in 1..3, x \in Box, y \in Box, p \in -1..1, q \in -1..1}
    ELSE {[u |-> <<x, y>>, num |-> n, den |-> d] :
            x \in Box, y \in Box, n \in 1..Reach, d \in 1..3}

Init == c \in Cases /\ (Part = "huber" => IsSquare(SumSq(c.u)))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

----------------------------------------------------------------------------
Adj(m) == <<<<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>>>>
Det(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
Cov == MatMul(c.l, Transpose(c.l))
R == MatVec(c.l, c.u)
J == MatVec(c.l, c.v)
\* the inverse of the lower factor; its transpose in the broken variant
Sqrt == IF Variant = "upper" THEN Transpose(Adj(c.l)) ELSE Adj(c.l)
White(x) == MatVec(Sqrt, x)
\* both sides times det(cov) = det(l)^2
Mahalanobis(x, y) == Dot(x, MatVec(Adj(Cov), y))
DistanceRight == Part = "gauss" => SumSq(White(R)) = Mahalanobis(R, R)
SameMap == Part = "gauss" => Dot(White(J), White(R)) = Mahalanobis(J, R)
\* log determinants: of the covariance, and of the square root precision times det(l)
DetRight == Part = "gauss" => (Det(Cov) = Det(c.l) * Det(c.l) /\ Abs(Det(Sqrt)) = Det(c.l))

----------------------------------------------------------------------------
Norm(u) == ISqrt(SumSq(u))
Inlier(u) == c.den * Norm(u) <= c.num
Eq(f, g) == f[1] * g[2] = g[1] * f[2]
One == <<1, 1>>
\* square of the factor of the residual: threshold / norm
ResFactor == IF Inlier(c.u) THEN One ELSE <<c.num, c.den * Norm(c.u)>>
\* square of the norm of the scaled residual, times den
GivenSq == IF Inlier(c.u) THEN c.den * SumSq(c.u) ELSE c.num * Norm(c.u)
GivenInlier == c.den * GivenSq <= c.num * c.num
\* square of the factor of the Jacobian: (threshold / norm of what is given)^2;
\* the broken variant forgets that it has been scaled, as if its norm were the
\* original one
JacFactor == IF GivenInlier THEN One
             ELSE IF Variant = "unscaled" THEN <<c.num * c.num, c.den * c.den * SumSq(c.u)>>
             ELSE <<c.num * c.num, c.den * GivenSq>>

SameFactor == Part = "huber" => Eq(ResFactor, JacFactor)
InliersAlone == (Part = "huber" /\ Inlier(c.u)) => (ResFactor = One /\ JacFactor = One)

\* den^2 times the Huber loss (on the scale of the squared norm)
Loss(u) == IF Inlier(u) THEN c.den * c.den * SumSq(u) ELSE 2 * c.num * c.den * Norm(u) - c.num * c.num
\* The loss is convex: g is its gradient at u exactly if it supports the loss
\* everywhere.  g = 2 * factor * u, the factor being that of the linearization.
\* times den * norm for outliers
Supports(u, y) ==
    IF Inlier(u)
    THEN Loss(y) - Loss(u) >= 2 * c.den * c.den * Dot(u, VSub(y, u))
    ELSE Norm(u) * (Loss(y) - Loss(u)) >= 2 * c.num * c.den * Dot(u, VSub(y, u))
Points == {<<x, y>> : x \in Box, y \in Box}
\* product of both factors, squared: (threshold / norm)^2
ProductRight == Eq(<<ResFactor[1] * JacFactor[1], ResFactor[2] * JacFactor[2]>>,
                   IF Inlier(c.u) THEN One ELSE <<c.num * c.num, c.den * c.den * SumSq(c.u)>>)
GradientOfLoss == Part = "huber" =>
    /\ ProductRight
    /\ \A y \in Points : IsSquare(SumSq(y)) => Supports(c.u, y)

----------------------------------------------------------------------------
\* residuals for which the factor is a multiple of 1/12
OnGrid == Inlier(c.u) \/ \E h \in 1..12 : h * h * c.den * Norm(c.u) = 144 * c.num
EmitProgram == Emit =>
    IF Part = "gauss" THEN (c.v # <<0, 0>>) => PrintT("PROGRAM " \o ToJson(c))
    ELSE OnGrid => PrintT("PROGRAM " \o ToJson(c))
=============================================================================
