-------------------------------- MODULE Pose --------------------------------
(***************************************************************************)
(* Pose variables and pose factors.                                        *)
(*                                                                         *)
(* First part: exact, on the discrete subgroups of VarTypes.  The prior    *)
(* residual is the logarithm of PriorE, the between residual that of       *)
(* BetweenE.                                                               *)
(* Second part: any pose, in fixed point.  All groups are seen as groups   *)
(* of spatial rigid transforms: a pose is a rotation matrix and a          *)
(* translation, a delta is (v, w) with translational part v first.         *)
(***************************************************************************)
EXTENDS VarTypes

GIdentity(t) == Default(t)
Rel(t, a, b) == GMul(t, GInv(t, a), b)
PriorE(t, x, mu) == GMul(t, GInv(t, x), mu)
BetweenE(t, a, b, m) == GMul(t, GInv(t, Rel(t, a, b)), m)
Conj(t, x, y) == GMul(t, x, GMul(t, y, GInv(t, x)))

Small == -1..1
Axes == {d \in Small \X Small \X Small : Cardinality({i \in 1..3 : d[i] # 0}) # 2}
\* deltas short of half a turn, for which the logarithm is unique
Deltas(t, reach) ==
    LET r == (-reach)..reach
    IN  CASE t = "SO2" -> {<<q>> : q \in Small}
          [] t = "SE2" -> {<<x, y, q>> : x \in r, y \in r, q \in Small}
          [] t = "SO3" -> {<<d[1], d[2], d[3]>> : d \in {d \in Axes : Cardinality({i \in 1..3 : d[i] # 0}) # 1}}
          [] t = "SE3" -> {<<x, y, z, 0, 0, 0>> : x \in r, y \in r, z \in r}
                          \cup {<<0, 0, 0, d[1], d[2], d[3]>> : d \in {d \in Axes : Cardinality({i \in 1..3 : d[i] # 0}) # 1}}
Logs(t, x, reach) == {d \in Deltas(t, reach) : GExp(t, d) = x}

----------------------------------------------------------------------------
(* Fixed point: FS is one *)
FS == 3000
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
FMul(a, b) == RDiv(a * b, FS)
\* Tuples written out are evaluated once, function constructors whenever used
Three(f(_)) == <<f(1), f(2), f(3)>>
Mat3(f(_, _)) == << <<f(1, 1), f(1, 2), f(1, 3)>>, <<f(2, 1), f(2, 2), f(2, 3)>>, <<f(3, 1), f(3, 2), f(3, 3)>> >>
MatT(m) == Mat3(LAMBDA i, j : m[j][i])
Col3(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
FDot(a, b) == RDiv(Dot3(a, b), FS)
FMatMul(a, b) == Mat3(LAMBDA i, j : FDot(a[i], Col3(b, j)))
FMatVec(m, x) == Three(LAMBDA i : FDot(m[i], x))
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
MAdd(a, b) == <<Add3(a[1], b[1]), Add3(a[2], b[2]), Add3(a[3], b[3])>>

PoseOf(r, t) == [r |-> r, t |-> t]
FIdentity == << <<FS, 0, 0>>, <<0, FS, 0>>, <<0, 0, FS>> >>
Zero3 == <<0, 0, 0>>
\* from parameters (scaled by FS) of each group
FQuat(q) ==
    LET w == q[1]  x == q[2]  y == q[3]  z == q[4]
        s(a, b) == FMul(a, b)
    IN  << <<FS - 2 * (s(y, y) + s(z, z)), 2 * (s(x, y) - s(w, z)), 2 * (s(x, z) + s(w, y))>>,
           <<2 * (s(x, y) + s(w, z)), FS - 2 * (s(x, x) + s(z, z)), 2 * (s(y, z) - s(w, x))>>,
           <<2 * (s(x, z) - s(w, y)), 2 * (s(y, z) + s(w, x)), FS - 2 * (s(x, x) + s(y, y))>> >>
FPlanar(c) == << <<c[1], -c[2], 0>>, <<c[2], c[1], 0>>, <<0, 0, FS>> >>
FPose(t, p) == CASE t = "SO2" -> PoseOf(FPlanar(p), Zero3)
                 [] t = "SE2" -> PoseOf(FPlanar(p), <<p[3], p[4], 0>>)
                 [] t = "SO3" -> PoseOf(FQuat(p), Zero3)
                 [] t = "SE3" -> PoseOf(FQuat(p), <<p[5], p[6], p[7]>>)
FDelta(t, d) == CASE t = "SO2" -> <<0, 0, 0, 0, 0, d[1]>>
                  [] t = "SE2" -> <<d[1], d[2], 0, 0, 0, d[3]>>
                  [] t = "SO3" -> <<0, 0, 0, d[1], d[2], d[3]>>
                  [] t = "SE3" -> d
\* the coordinates of (v, w) that a group has
Coords(t) == CASE t = "SO2" -> <<6>> [] t = "SE2" -> <<1, 2, 6>>
               [] t = "SO3" -> <<4, 5, 6>> [] t = "SE3" -> <<1, 2, 3, 4, 5, 6>>

FCompose(a, b) == PoseOf(FMatMul(a.r, b.r), Add3(a.t, FMatVec(a.r, b.t)))
FInverse(a) == LET rt == MatT(a.r) IN PoseOf(rt, Three(LAMBDA i : -FDot(rt[i], a.t)))
Hat(w) == << <<0, -w[3], w[2]>>, <<w[3], 0, -w[1]>>, <<-w[2], w[1], 0>> >>

\* exponential series of the homogeneous matrix: rotation and translation parts
RECURSIVE ExpSeries(_, _, _, _, _)
ExpSeries(h, v, k, term, acc) ==
    \* term: k-th term as [r, t]; acc: sum up to it
    IF k = 24 THEN acc
    ELSE LET r == Mat3(LAMBDA i, j : RDiv(FDot(term.r[i], Col3(h, j)), k + 1))
             t == Three(LAMBDA i : RDiv(FDot(term.r[i], v), k + 1))
         IN  ExpSeries(h, v, k + 1, PoseOf(r, t), PoseOf(MAdd(acc.r, r), Add3(acc.t, t)))
FExp(d) == ExpSeries(Hat(<<d[4], d[5], d[6]>>), <<d[1], d[2], d[3]>>, 0, PoseOf(FIdentity, Zero3), PoseOf(FIdentity, Zero3))
PNear(a, b, tol) == MNear(a.r, b.r, tol) /\ VNear(a.t, b.t, tol)

\* adjoint of a pose on (v, w)
FAdjoint(a) ==
    LET tr == FMatMul(Hat(a.t), a.r)
    IN  [i \in 1..6 |-> [j \in 1..6 |->
            IF i <= 3 /\ j <= 3 THEN a.r[i][j]
            ELSE IF i <= 3 THEN tr[i][j - 3]
            ELSE IF j <= 3 THEN 0 ELSE a.r[i - 3][j - 3]]]
Restrict(t, m) == LET c == Coords(t) IN [i \in 1..Len(c) |-> [j \in 1..Len(c) |-> m[c[i]][c[j]]]]
=============================================================================
