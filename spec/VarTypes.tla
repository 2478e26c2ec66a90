------------------------------ MODULE VarTypes ------------------------------
(***************************************************************************)
(* The catalogue of variable types used by the conformance harness: plain  *)
(* vectors, scalars, nested values, two custom manifolds whose local       *)
(* dimension is below / above the global one, and the four Lie groups that *)
(* ship with the library, restricted to discrete subgroups on which all    *)
(* group operations are exact in integers:                                 *)
(*   SO2  quarter turns, stored (cos, sin)                                 *)
(*   SE2  quarter turns and integer translations, stored (cos, sin, x, y)  *)
(*   SO3  Hurwitz unit quaternions, stored 2 * (w, x, y, z)                *)
(*   SE3  the same with integer translations, stored (2 * wxyz, xyz)       *)
(* A value is a sequence of Dim(t) integers, a delta one of LDim(t).       *)
(***************************************************************************)
EXTENDS Arith

AllTypes == {"R1", "R2", "R3", "S0", "S5", "T1", "P3", "D5", "O2", "M31", "M23",
             "SO2", "SE2", "SO3", "SE3"}
EuclideanTypes == {"R1", "R2", "R3", "S0", "S5", "T1", "P3", "D5", "O2"}
LieTypes == {"SO2", "SE2", "SO3", "SE3"}
PolynomialTypes == AllTypes \ {"SO3", "SE3"}

Dim(t) == CASE t = "R1" -> 1 [] t = "R2" -> 2 [] t = "R3" -> 3
            [] t = "S0" -> 1 [] t = "S5" -> 1 [] t = "T1" -> 2
            [] t = "P3" -> 3 [] t = "D5" -> 5 [] t = "O2" -> 2
            [] t = "M31" -> 3 [] t = "M23" -> 2
            [] t = "SO2" -> 2 [] t = "SE2" -> 4
            [] t = "SO3" -> 4 [] t = "SE3" -> 7

LDim(t) == CASE t = "M31" -> 1 [] t = "M23" -> 3
             [] t = "SO2" -> 1 [] t = "SE2" -> 3
             [] t = "SO3" -> 3 [] t = "SE3" -> 6
             [] OTHER -> Dim(t)

BlockDim(t, local) == IF local THEN LDim(t) ELSE Dim(t)

Default(t) == CASE t = "S0" -> <<1>> [] t = "S5" -> <<5>>
                [] t = "T1" -> <<7, 0>>
                [] t = "P3" -> <<4, -1, 2>> [] t = "D5" -> <<1, 2, 3, 8, 9>>
                [] t = "M31" -> <<1, 2, 3>> [] t = "M23" -> <<6, -2>>
                [] t = "SO2" -> <<1, 0>> [] t = "SE2" -> <<1, 0, 0, 0>>
                [] t = "SO3" -> <<2, 0, 0, 0>>
                [] t = "SE3" -> <<2, 0, 0, 0, 0, 0, 0>>
                [] OTHER -> Zeros(Dim(t))

----------------------------------------------------------------------------
(* Planar rotations: complex numbers *)
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
Quarter(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>>
                [] k % 4 = 2 -> <<-1, 0>> [] k % 4 = 3 -> <<0, -1>>
\* the quarter turn count in -1..2 of a unit complex number
QuarterOf(c) == IF c = <<1, 0>> THEN 0 ELSE IF c = <<0, 1>> THEN 1
                ELSE IF c = <<-1, 0>> THEN 2 ELSE -1

SE2Mul(a, b) == LET r == CMul(SubSeq(a, 1, 2), SubSeq(b, 1, 2))
                    t == CMul(SubSeq(a, 1, 2), SubSeq(b, 3, 4))
                IN  <<r[1], r[2], a[3] + t[1], a[4] + t[2]>>
SE2Inv(a) == LET c == CConj(SubSeq(a, 1, 2))
                 t == CMul(c, SubSeq(a, 3, 4))
             IN  <<c[1], c[2], -t[1], -t[2]>>
\* exp of the delta (kx, ky, q): rotation by q quarter turns; translational
\* velocity (kx, ky) if q = 0 and (pi / 2) * (kx, ky) otherwise, so that the
\* displacement is an integer vector. |q| <= 2.
SE2Exp(d) == LET kx == d[1]  ky == d[2]  q == d[3]
                 r == Quarter(q)
                 t == CASE q = 0 -> <<kx, ky>>
                        [] q = 1 -> <<kx - ky, kx + ky>>
                        [] q = -1 -> <<kx + ky, ky - kx>>
                        [] OTHER -> \* half turns: V = (2 / theta) J
                             IF q > 0 THEN <<-ky, kx>> ELSE <<ky, -kx>>
             IN  <<r[1], r[2], t[1], t[2]>>

----------------------------------------------------------------------------
(* Spatial rotations: quaternions, scaled by two *)
\* product of two scaled quaternions, again scaled by two
QMul(a, b) ==
    LET w == a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4]
        x == a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3]
        y == a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2]
        z == a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1]
    IN  <<w \div 2, x \div 2, y \div 2, z \div 2>>
QConj(a) == <<a[1], -a[2], -a[3], -a[4]>>
\* q and -q are the same rotation: the first nonzero entry is made positive
QCanon(a) == LET nz == {i \in 1..4 : a[i] # 0}
             IN  IF nz = {} THEN a
                 ELSE LET f == CHOOSE i \in nz : \A j \in nz : i <= j
                      IN  IF a[f] < 0 THEN VScale(-1, a) ELSE a
\* rotation matrix of a scaled unit quaternion (integers for Hurwitz units)
QMatrix(a) ==
    LET w == a[1]  x == a[2]  y == a[3]  z == a[4]
    IN  << <<(w*w + x*x - y*y - z*z) \div 4, (2*x*y - 2*w*z) \div 4, (2*x*z + 2*w*y) \div 4>>,
           <<(2*x*y + 2*w*z) \div 4, (w*w - x*x + y*y - z*z) \div 4, (2*y*z - 2*w*x) \div 4>>,
           <<(2*x*z - 2*w*y) \div 4, (2*y*z + 2*w*x) \div 4, (w*w - x*x - y*y + z*z) \div 4>> >>
\* A rotation delta is an axis with entries in -1..1: none nonzero is the
\* identity, one is a half turn, three are a third of a turn.
QExp(d) == LET n == Cardinality({i \in 1..3 : d[i] # 0})
           IN  CASE n = 0 -> <<2, 0, 0, 0>>
                 [] n = 1 -> <<0, 2 * d[1], 2 * d[2], 2 * d[3]>>
                 [] OTHER -> <<1, d[1], d[2], d[3]>>

SE3Mul(a, b) == LET qa == SubSeq(a, 1, 4)
                    q == QMul(qa, SubSeq(b, 1, 4))
                    t == VAdd(SubSeq(a, 5, 7), MatVec(QMatrix(qa), SubSeq(b, 5, 7)))
                IN  q \o t
SE3Inv(a) == LET c == QConj(SubSeq(a, 1, 4))
             IN  c \o VScale(-1, MatVec(QMatrix(c), SubSeq(a, 5, 7)))
SE3Canon(a) == QCanon(SubSeq(a, 1, 4)) \o SubSeq(a, 5, 7)
\* deltas are (v, axis) with v = 0 or axis = 0
SE3Exp(d) == QExp(SubSeq(d, 4, 6)) \o SubSeq(d, 1, 3)

----------------------------------------------------------------------------
(* Group structure, uniformly *)
GMul(t, a, b) == CASE t = "SO2" -> CMul(a, b) [] t = "SE2" -> SE2Mul(a, b)
                   [] t = "SO3" -> QCanon(QMul(a, b)) [] t = "SE3" -> SE3Canon(SE3Mul(a, b))
GInv(t, a) == CASE t = "SO2" -> CConj(a) [] t = "SE2" -> SE2Inv(a)
                [] t = "SO3" -> QCanon(QConj(a)) [] t = "SE3" -> SE3Canon(SE3Inv(a))
GExp(t, d) == CASE t = "SO2" -> Quarter(d[1]) [] t = "SE2" -> SE2Exp(d)
                [] t = "SO3" -> QCanon(QExp(d)) [] t = "SE3" -> SE3Canon(SE3Exp(d))

ValidDelta(t, d) ==
    /\ Len(d) = LDim(t)
    /\ t = "SE2" => Abs(d[3]) <= 2
    /\ t = "SO3" => \A i \in 1..3 : Abs(d[i]) <= 1
    /\ t = "SO3" => Cardinality({i \in 1..3 : d[i] # 0}) # 2
    /\ t = "SE3" => \A i \in 4..6 : Abs(d[i]) <= 1
    /\ t = "SE3" => Cardinality({i \in 4..6 : d[i] # 0}) # 2
    /\ t = "SE3" => (SubSeq(d, 1, 3) = Zeros(3) \/ SubSeq(d, 4, 6) = Zeros(3))

\* The retraction of each type
Retract(t, x, d) ==
    CASE t \in EuclideanTypes -> VAdd(x, d)
      [] t = "M31" -> <<x[1] + x[2] * d[1], x[2] - d[1], x[3] + 2 * d[1]>>
      [] t = "M23" -> <<x[1] + d[1] * x[2], x[2] + d[2] - d[3]>>
      [] OTHER -> GMul(t, x, GExp(t, d))

\* Derivative of the retraction at zero: Dim(t) rows, LDim(t) columns.  Type O2
\* supplies its own retraction Jacobian (three times the identity), which has
\* to be used as given.  Not for quaternion based groups.
RetractJac(t, x) ==
    CASE t = "O2" -> MatScale(3, Identity(2))
      [] t \in EuclideanTypes -> Identity(Dim(t))
      [] t = "M31" -> << <<x[2]>>, <<-1>>, <<2>> >>
      [] t = "M23" -> << <<x[2], 0, 0>>, <<0, 1, -1>> >>
      [] t = "SO2" -> << <<-x[2]>>, <<x[1]>> >>
      [] t = "SE2" -> << <<0, 0, -x[2]>>, <<0, 0, x[1]>>,
                         <<x[1], -x[2], 0>>, <<x[2], x[1], 0>> >>

\* Local dimension never matters for values, but both must be positive
ASSUME \A t \in AllTypes : Dim(t) > 0 /\ LDim(t) > 0 /\ Len(Default(t)) = Dim(t)
ASSUME \A t \in AllTypes : Retract(t, Default(t), Zeros(LDim(t))) = Default(t)
=============================================================================
