------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* The nonlinear solvers as a state machine (C13, C14, C15).               *)
(*                                                                         *)
(* The landscape is a table: the residual r (two entries) and its Jacobian *)
(* jac (2 x 2) are constant on the cells of an N x N grid over two scalar  *)
(* variables.  Positions, steps and radii are in thousandths (F).          *)
(* Gauss-Newton, Levenberg-Marquardt and the fixed-iteration solver get    *)
(* their steps from a script indexed by iteration, so that decisions are   *)
(* exact; dogleg computes its step from the landscape.                     *)
(* Steps are in local coordinates: a step of s moves a variable by sc * s. *)
(* There may be holes in the landscape, where the residual is infinite or  *)
(* not a number: going there is never a gain.                              *)
(*                                                                         *)
(* Configuration:                                                          *)
(*   kind     "gn", "lm", "dogleg", "fixed"                                *)
(*   maxit    maximum number of iterations / number of iterations          *)
(*   qn, qd   minimum step quality qn / qd                                 *)
(*   lam0, lfac, lmin, lmax   exponents of two: initial damping, factor,   *)
(*            bounds                                                       *)
(*   rad0     initial radius, thousandths                                  *)
(*   ctn, ctd cost tolerance; gt gradient tolerance, checked once gs       *)
(*            iterations are over; ptn, ptd parameter tolerance            *)
(*   sc       by how much variables move per unit of a local step          *)
(* State: pos, it (steps made), lam (exponent of two), rad, done, and      *)
(*   res, the residual that the next linearization will be based on.       *)
(***************************************************************************)
EXTENDS Arith

F == 1000
N == 6

Clip(x) == IF x < 0 THEN 0 ELSE IF x > N - 1 THEN N - 1 ELSE x
RoundF(p) == (p + F \div 2) \div F
CellIndex(c) == c[1] * N + c[2] + 1
Cell(pos) == CellIndex(<<Clip(RoundF(pos[1])), Clip(RoundF(pos[2]))>>)
\* too close to the edge of a cell to tell which one it is
OnEdge(p) == LET m == (p + F \div 2) % F IN m < 15 \/ m > F - 15
Undecided(pos) == OnEdge(pos[1]) \/ OnEdge(pos[2])

Res(land, pos) == land.r[Cell(pos)]
Jac(land, pos) == land.jac[Cell(pos)]
Infinite == <<1000000, 0>>
NotANumber == <<0, 1000000>>
Hole(r) == r \in {Infinite, NotANumber}
\* more than any cost, and small enough to be computed with
CostOf(r) == IF Hole(r) THEN 700 ELSE SumSq(r)
Cost(land, pos) == CostOf(Res(land, pos))
Moved(cfg, pos, step) == [i \in 1..2 |-> pos[i] + cfg.sc[i] * step[i]]

\* negative gradient, given the residual the solver holds
NegGrad(jac, r) == VScale(-1, MatVec(Transpose(jac), r))

NormF(v) == ISqrt(SatSumSq2(v))

----------------------------------------------------------------------------
(* Dogleg path *)
Cauchy(jac, g) ==
    LET gg == SumSq(g)
        jg == SumSq(MatVec(jac, g))
    IN  [i \in 1..2 |-> (F * g[i] * gg) \div jg]
Det2(j) == j[1][1] * j[2][2] - j[1][2] * j[2][1]
DivSigned(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Newton(jac, r) ==       \* - jac^-1 r
    LET d == Det2(jac)
    IN  << DivSigned(-F * (jac[2][2] * r[1] - jac[1][2] * r[2]), d),
           DivSigned(-F * (jac[1][1] * r[2] - jac[2][1] * r[1]), d) >>
\* a + (k / 8192) (b - a)
Blend(a, b, k) == [i \in 1..2 |-> a[i] + (k * (b[i] - a[i])) \div 8192]
RECURSIVE BlendBis(_, _, _, _, _)
BlendBis(a, b, rad, lo, hi) ==      \* norm at lo is below rad, at hi it is not
    IF hi - lo <= 1 THEN Blend(a, b, hi)
    ELSE LET mid == (lo + hi) \div 2
         IN  IF NormF(Blend(a, b, mid)) < rad THEN BlendBis(a, b, rad, mid, hi)
             ELSE BlendBis(a, b, rad, lo, mid)
DoglegStep(jac, r, g, rad) ==
    LET a == Cauchy(jac, g)
        b == Newton(jac, r)
        na == NormF(a)
    IN  IF NormF(b) <= rad THEN b
        ELSE IF na >= rad THEN [i \in 1..2 |-> (a[i] * rad) \div na]
        ELSE BlendBis(a, b, rad, 0, 8192)

----------------------------------------------------------------------------
(* One iteration *)
\* 2500 times the cost predicted by the linearized model
Model2500(jac, r, step) ==
    LET js == MatVec(jac, step)
    IN  SumSq([i \in 1..2 |-> (js[i] + F * r[i]) \div 20])

TrustRegion(cfg) == cfg.kind \in {"lm", "dogleg"}

CostTol(cfg, cost, costP) == Abs(costP - cost) * cfg.ctd < cfg.ctn * cost
\* how far the variables would move along the gradient
GradTol(cfg, it, g) == it >= cfg.gs /\ NormInf(Moved(cfg, <<0, 0>>, g)) < cfg.gt
\* norm(step) < (norm(pos) + t) * t, times ptd
ParamLhs(cfg, step) == NormF(step) * cfg.ptd
ParamRhs(cfg, pos) == (NormF(pos) + (F * cfg.ptn) \div cfg.ptd) * cfg.ptn
ParamTol(cfg, pos, step) == cfg.ptn > 0 /\ ParamLhs(cfg, step) < ParamRhs(cfg, pos)
Converged(cfg, land, st, g, step, costP) ==
    \/ CostTol(cfg, CostOf(st.res), costP)
    \/ GradTol(cfg, st.it, g)
    \/ ParamTol(cfg, st.pos, step)

\* Everything that one iteration decides.  `script` gives the steps of all
\* solvers but dogleg.
Look(cfg, land, script, st) ==
    LET r == st.res
        jac == Jac(land, st.pos)
        g == NegGrad(jac, r)
        step == IF cfg.kind = "dogleg" THEN DoglegStep(jac, r, g, st.rad)
                ELSE VScale(F, script[st.it + 1])
        posP == Moved(cfg, st.pos, step)
        cost == CostOf(r)
        costP == Cost(land, posP)
        gain2500 == (cost - costP) * 2500
        pred2500 == cost * 2500 - Model2500(jac, r, step)
    IN  [g |-> g, jac |-> jac, step |-> step, posP |-> posP, cost |-> cost, costP |-> costP,
         gain |-> gain2500, pred |-> pred2500,
         accept |-> ~TrustRegion(cfg) \/ gain2500 * cfg.qd >= cfg.qn * pred2500,
         poor |-> gain2500 * 4 < pred2500, excellent |-> gain2500 * 4 > 3 * pred2500]

\* predicted reduction is positive, as for every sensible linear solver
Sensible(cfg, l) == TrustRegion(cfg) => l.pred > 0
\* fixed point cannot tell
NearRatio(a, b) == Abs(a - b) <= MaxI(Abs(a), Abs(b)) \div 50 + 1
\* except for Gauss-Newton steps that are integers: the model is then exactly
\* zero, and all ratios are exact
Exact(st, l) == /\ Abs(Det2(l.jac)) = 1
                /\ NormF(Newton(l.jac, st.res)) + 5 < st.rad
Tie(cfg, l) == \/ l.gain * cfg.qd = cfg.qn * l.pred
               \/ l.gain * 4 = l.pred
               \/ l.gain * 4 = 3 * l.pred
Unclear(cfg, st, l) ==
    \/ cfg.kind = "dogleg" /\ (\/ Undecided(l.posP)
                               \/ /\ ~Exact(st, l)
                                  /\ \/ NearRatio(l.gain * cfg.qd, cfg.qn * l.pred)
                                     \/ NearRatio(l.gain * 4, l.pred)
                                     \/ NearRatio(l.gain * 4, 3 * l.pred))
    \/ cfg.ptn > 0 /\ Abs(ParamLhs(cfg, l.step) - ParamRhs(cfg, st.pos)) <= 20 * cfg.ptd

LamNext(cfg, lam, accept) ==
    IF cfg.kind # "lm" THEN lam
    ELSE IF accept THEN lam - cfg.lfac
    ELSE MaxI(cfg.lmin, MinI(lam + cfg.lfac, cfg.lmax))
RadNext(cfg, rad, l) ==
    IF cfg.kind # "dogleg" THEN rad
    ELSE IF l.poor THEN rad \div 2
    ELSE IF l.excellent THEN MaxI(rad, 3 * NormF(l.step))
    ELSE rad

\* variant "stale": residual of the proposal is kept even if it is rejected,
\* "holes": steps into holes are adopted, "raw": gradient in local coordinates,
\* "anystep": rejected steps signal convergence too
Start(cfg, land, pos) ==
    [pos |-> pos, it |-> 0, lam |-> cfg.lam0, rad |-> cfg.rad0, done |-> cfg.maxit <= 0,
     res |-> Res(land, pos)]
After(cfg, land, st, l, variant) ==
    LET accept == l.accept \/ (variant = "holes" /\ Hole(Res(land, l.posP)))
        c == IF variant = "raw" THEN [cfg EXCEPT !.sc = <<1, 1>>] ELSE cfg
    IN  [pos |-> IF accept THEN l.posP ELSE st.pos,
         it |-> st.it + 1,
         lam |-> LamNext(cfg, st.lam, accept),
         rad |-> RadNext(cfg, st.rad, l),
         res |-> IF accept \/ variant = "stale" THEN Res(land, l.posP) ELSE st.res,
         done |-> \/ st.it + 1 >= cfg.maxit
                  \/ /\ cfg.kind # "fixed"
                     /\ accept \/ variant = "anystep"
                     /\ Converged(c, land, st, l.g, l.step, l.costP)]
=============================================================================
