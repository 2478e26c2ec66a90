------------------------------ MODULE MCSolver ------------------------------
(***************************************************************************)
(* Design check of the solver state machine (C13, C14, C15).  The          *)
(* landscape is chosen lazily: cells get their residual and Jacobian when  *)
(* they are first looked at; so does the script.  Finished runs are        *)
(* printed as test programs.                                               *)
(***************************************************************************)
EXTENDS Solver, TLC, Json, Randomization
CONSTANTS Kind, Variant, MaxIt, Emit, Richness

\* the radius after a step to where there is no quality is not specified
Holes == IF Kind = "lm" THEN {Infinite, NotANumber} ELSE {Infinite}
Residuals == CASE Richness \in {"tiny", "scaled"} -> {<<4, 0>>, <<3, 1>>, <<1, -1>>}
               [] Richness = "keep" -> {<<9, 2>>, <<-6, 7>>, <<4, 0>>, <<3, 1>>, <<0, 1>>}
               [] Richness = "late" -> {<<5, 4>>, <<2, 6>>, <<1, -1>>}
               [] Richness = "holes" -> {<<4, 0>>, <<3, 1>>} \cup Holes
               [] Richness = "tie" -> {<<2, 6>>, <<-2, -4>>, <<3, 1>>, <<1, -3>>}
               [] OTHER -> {<<4, 0>>, <<3, 1>>, <<1, -1>>, <<-5, 2>>, <<7, -3>>, <<2, 6>>, <<0, 1>>, <<9, 4>>,
                            <<6, -1>>, <<5, 4>>, <<3, -3>>, <<-2, -4>>, <<7, 1>>, <<-8, 2>>}
Jacobians == CASE Richness \in {"tiny", "scaled", "holes"} -> {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<0, 1>>>>}
               [] Richness = "keep" -> {<<<<1, 0>>, <<0, 1>>>>, <<<<8, 0>>, <<0, 8>>>>, <<<<1, 1>>, <<1, 2>>>>}
               [] Richness = "late" -> {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<0, 1>>>>}
               [] Richness = "tie" -> {<<<<1, 0>>, <<0, 1>>>>, <<<<1, 2>>, <<2, 5>>>>}
               [] OTHER -> {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<0, 1>>>>, <<<<1, -1>>, <<1, 1>>>>,
                            <<<<3, 0>>, <<1, 1>>>>, <<<<0, 1>>, <<-2, 1>>>>,
                            <<<<8, 0>>, <<0, 8>>>>, <<<<1, 1>>, <<1, 2>>>>}
Steps == CASE Richness \in {"tiny", "scaled", "holes"} -> {<<-1, 0>>, <<1, 0>>, <<0, 1>>}
           [] OTHER -> {<<x, y>> : x \in -2..2, y \in -2..2} \ {<<0, 0>>}
\* "tiny" for exhaustive exploration, "keep" for radii that are larger than three steps,
\* "tie" for qualities that are exactly at a threshold,
\* "late" for steps that are rejected although they meet a tolerance, and better ones later,
\* "holes" for steps to where there is no cost, "scaled" for variables that move twice as far
\* as the step says
Exhaustive == Richness \in {"tiny", "keep", "tie", "late", "holes", "scaled"}
Starts == CASE Exhaustive -> {<<2, 2>>} [] OTHER -> {<<2, 3>>, <<4, 1>>, <<0, 5>>}

Base == [kind |-> Kind, maxit |-> MaxIt, qn |-> 1, qd |-> 1000, lam0 |-> 0, lfac |-> 1, lmin |-> -3,
         lmax |-> 2, rad0 |-> 1000, ctn |-> 0, ctd |-> 1, gt |-> 0, gs |-> 0, ptn |-> 0, ptd |-> 1, sc |-> <<1, 1>>]
Configs ==
    LET quality == IF Kind \in {"lm", "dogleg"} THEN {<<1, 1000>>, <<1, 2>>} ELSE {<<1, 1000>>}
        none == {<<0, 1, 0, 0, 0, 1>>}
        tols == IF Richness \in {"keep", "tie", "holes"} THEN none
                ELSE IF Richness = "scaled" THEN {<<0, 1, 6, 0, 0, 1>>}
                ELSE IF Richness = "late" THEN {<<1, 4, 0, 0, 0, 1>>, <<0, 1, 30, 0, 0, 1>>, <<0, 1, 0, 0, 1, 1>>} ELSE none \cup {<<1, 4, 0, 0, 0, 1>>, <<0, 1, 6, 1, 0, 1>>, <<0, 1, 0, 0, 1, 2>>, <<1, 10, 9, 2, 0, 1>>}
                \cup (IF Richness = "tiny" THEN {}
                      ELSE {<<1, 3, 0, 0, 0, 1>>, <<0, 1, 5, 0, 0, 1>>, <<0, 1, 8, 3, 0, 1>>, <<0, 1, 0, 0, 1, 4>>,
                            <<1, 20, 4, 1, 1, 8>>})
        maxits == IF Exhaustive THEN {MaxIt} ELSE {0, 1, 3, MaxIt - 1, MaxIt}
        scales == IF Richness = "scaled" THEN {<<2, 1>>, <<1, 2>>}
                  ELSE IF Exhaustive THEN {<<1, 1>>} ELSE {<<1, 1>>, <<2, 1>>}
        rads == IF Kind = "dogleg" THEN (IF Richness \in {"tiny", "scaled", "holes"} THEN {500, 1500, 4000}
                                           ELSE IF Richness = "keep" THEN {12000}
                                           ELSE IF Richness = "tie" THEN {7000, 20000}
                                           ELSE IF Richness = "late" THEN {2200, 4500} ELSE {500, 1500, 4000, 12000}) ELSE {1000}
        lams == IF Kind = "lm" THEN {<<0, 1, -3, 2>>, <<-1, 2, -1, 1>>}
                  \cup (IF Richness \in {"tiny", "scaled", "holes"} THEN {} ELSE {<<4, 1, -3, 2>>, <<-5, 1, -3, 2>>}) ELSE {<<0, 1, -3, 2>>}
        all == {[Base EXCEPT !.qn = q[1], !.qd = q[2], !.ctn = t[1], !.ctd = t[2], !.gt = t[3], !.gs = t[4],
                          !.ptn = t[5], !.ptd = t[6], !.maxit = m, !.rad0 = r,
                          !.lam0 = l[1], !.lfac = l[2], !.lmin = l[3], !.lmax = l[4], !.sc = s]
                 : q \in quality, t \in tols, m \in maxits, r \in rads, l \in lams, s \in scales}
    \* nothing else matters to runs without iterations
    IN  {c \in all : c.maxit = 0 => <<c.ctn, c.gt, c.ptn>> = <<0, 0, 0>>}

\* what kind of step it was, for picking test programs
Tag(l, conv) ==
    (IF l.accept THEN "a" ELSE "r") \o (IF l.poor THEN "p" ELSE IF l.excellent THEN "e" ELSE "m")
      \o (IF conv THEN "c" ELSE "") \o (IF l.costP > l.cost THEN "u" ELSE "d")
\* the previous step kept a radius of more than three step lengths, which matters now
Kept(c, s, l, h) ==
    /\ Len(h) > 0 /\ h[Len(h)].kept
    /\ NormF(Newton(l.jac, s.res)) > 3 * h[Len(h)].len
PathTag(c, s, l) ==
    IF c.kind # "dogleg" THEN ""
    ELSE LET nb == NormF(Newton(l.jac, s.res))
             na == NormF(Cauchy(l.jac, l.g))
         IN  (IF nb <= s.rad THEN "N" ELSE IF na >= s.rad THEN "C" ELSE "B")
               \o (IF 3 * NormF(l.step) < s.rad THEN "k" ELSE "")
               \o (IF Tie(c, l) THEN (IF l.gain * 2 = l.pred THEN "=" ELSE "~") ELSE "")
Unknown == <<>>
Far == <<9, 9>>     \* residual of cells that are never visited
VARIABLES cfg, land, script, st, start, hist, told
vars == <<cfg, land, script, st, start, hist, told>>
Cells == 1..(N * N)
Init ==
    /\ cfg \in Configs
    /\ start \in {VScale(F, s) : s \in Starts}
    /\ \E r \in Residuals \ Holes, j \in Jacobians :
          land = [r |-> [c \in Cells |-> IF c = Cell(start) THEN r ELSE Unknown],
                  jac |-> [c \in Cells |-> IF c = Cell(start) THEN j ELSE Unknown]]
    /\ script = <<>>
    /\ st = Start(cfg, land, start)
    /\ hist = <<>>
    /\ told = FALSE

\* random walks do not have to look at all successors
PickN(k, set) == IF Exhaustive THEN set ELSE RandomSubset(MinI(k, Cardinality(set)), set)
Pick(set) == PickN(2, set)
\* where the next step leads, before its cell has been chosen
Target(sc) ==
    IF cfg.kind = "dogleg"
    THEN LET jac == Jac(land, st.pos)
         IN  Moved(cfg, st.pos, DoglegStep(jac, st.res, NegGrad(jac, st.res), st.rad))
    ELSE Moved(cfg, st.pos, VScale(F, sc[st.it + 1]))
Step ==
    /\ ~st.done
    /\ \E s \in (IF cfg.kind = "dogleg" THEN {<<0, 0>>} ELSE PickN(7, Steps)) :
       LET sc == Append(script, s)
           c == Cell(Target(sc))
       IN  \E r \in (IF land.r[c] = Unknown THEN Pick(Residuals) ELSE {land.r[c]}),
              j \in (IF land.r[c] = Unknown THEN Pick(Jacobians) ELSE {land.jac[c]}) :
            LET lnd == [land EXCEPT !.r[c] = r, !.jac[c] = j]
                l == Look(cfg, lnd, sc, st)
            IN  /\ Sensible(cfg, l) \/ Variant # "ok"
                /\ l.pred # 0
                /\ ~Unclear(cfg, st, l)
                /\ SumSq(l.g) > 0
                /\ st' = After(cfg, lnd, st, l, Variant)
                /\ land' = lnd
                /\ script' = sc
                /\ hist' = Append(hist, [cost |-> Cost(lnd, st'.pos), lam |-> st.lam, rad |-> st.rad,
                                         accept |-> l.accept, 
                                         tag |-> Tag(l, Converged(cfg, lnd, st, l.g, l.step, l.costP)) \o PathTag(cfg, st, l)
                                                    \o (IF Hole(Res(lnd, l.posP)) THEN "o" ELSE "")
                                                    \o (IF GradTol(cfg, st.it, l.g) # GradTol([cfg EXCEPT !.sc = <<1, 1>>], st.it, l.g)
                                                         THEN "G" ELSE "")
                                                    \o (IF cfg.kind = "dogleg" /\ Kept(cfg, st, l, hist) THEN "x" ELSE ""),
                                         len |-> NormF(l.step), kept |-> l.excellent /\ 3 * NormF(l.step) < st.rad,

                                         meets |-> Converged(cfg, lnd, st, l.g, l.step, l.costP)])
    /\ UNCHANGED <<cfg, start, told>>
Tell == /\ Emit /\ st.done /\ ~told /\ told' = TRUE
        /\ UNCHANGED <<cfg, land, script, st, start, hist>>
Next == Step \/ Tell
Spec == Init /\ [][Next]_vars

\* C13
ResidualInSync == st.res = Res(land, st.pos)
CostNeverRises == TrustRegion(cfg) =>
    \A i \in 1..Len(hist) :
        hist[i].cost <= (IF i = 1 THEN Cost(land, start) ELSE hist[i - 1].cost)
RejectedStays == [][(st' # st /\ TrustRegion(cfg) /\ ~hist'[Len(hist')].accept) => st'.pos = st.pos]_vars
\* C14
DampingBounds == cfg.kind = "lm" =>
    \A i \in 2..Len(hist) :
        /\ hist[i - 1].accept => hist[i].lam = hist[i - 1].lam - cfg.lfac
        /\ ~hist[i - 1].accept => (cfg.lmin <= hist[i].lam /\ hist[i].lam <= cfg.lmax)
RadiusPositive == st.rad > 0
\* C15
StopsInTime == st.it <= cfg.maxit /\ (st.it = cfg.maxit => st.done)
StopsRightly == st.done =>
    \/ st.it = cfg.maxit
    \/ cfg.kind # "fixed" /\ hist[st.it].accept /\ hist[st.it].meets
NeverLate == \A i \in 1..(Len(hist) - 1) : cfg.kind = "fixed" \/ ~(hist[i].accept /\ hist[i].meets)

Filled == [r |-> [c \in Cells |-> IF land.r[c] = Unknown THEN Far ELSE land.r[c]],
           jac |-> [c \in Cells |-> IF land.r[c] = Unknown THEN Identity(2) ELSE land.jac[c]]]
EmitProgram == told =>
    PrintT("PROGRAM " \o ToJson([cfg |-> cfg, land |-> Filled, script |-> script, start |-> start,
                                 tags |-> [i \in 1..Len(hist) |-> hist[i].tag]]))
=============================================================================
