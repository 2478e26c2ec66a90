---------------------------- MODULE TraceSolver ----------------------------
(***************************************************************************)
(* Validates recorded runs of the nonlinear solvers against Solver.tla     *)
(* (C13, C14, C15).                                                        *)
(*                                                                         *)
(* Kind "scripted": one run over a table landscape.  Recorded are the      *)
(* values after at most k = 1..maxit iterations (thousandths) and every    *)
(* linear subproblem posed during the full run: iteration number, Jacobian,*)
(* right-hand side and damping (exponent of two).  The recording is        *)
(* consumed iteration by iteration; the first deviation names the clause.  *)
(* If no iteration was asked for, `zero` is what came back.                *)
(* Kind "real": a run on a smooth problem with a real linear solver;       *)
(* recorded are costs and an identification of the values after at most k  *)
(* iterations.                                                             *)
(***************************************************************************)
EXTENDS Solver, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, st, last, fails, done
vars == <<n, st, last, fails, done>>
S == Log[n]
Cfg == S.cfg
Land == S.land

Tol == IF Cfg.kind = "dogleg" THEN 25 * MaxI(Cfg.sc[1], Cfg.sc[2]) ELSE 1
Observed(k) == S.iters[k]
Calls(it) == {i \in 1..Len(S.calls) : S.calls[i].it = it}

\* Which property a deviation of values or linearization is about
Who(name) == (IF TrustRegion(Cfg) THEN "C13." ELSE "C15.") \o name

CallClauses(l) ==
    LET cs == Calls(st.it)
        first == S.calls[CHOOSE i \in cs : TRUE]
        \* dogleg may reuse what it knows after a rejected step
        mayskip == Cfg.kind = "dogleg" /\ ~last
    IN  IF cs = {} THEN Clause("C15.stops_early", mayskip)
        ELSE Clause(Who(IF last THEN "linearization" ELSE "linearization_after_rejection"),
                    \A i \in cs : S.calls[i].jac = l.jac /\ S.calls[i].rhs = l.g)
             \cup Clause("C14.damping", Cfg.kind = "lm" => \A i \in cs : S.calls[i].lam = st.lam)
             \cup Clause("C14.undamped", Cfg.kind # "lm" => \A i \in cs : S.calls[i].lam = Bad)
             \cup Clause("C15.once_per_iteration", Cardinality(cs) = 1)

\* values after this iteration
ValueClauses(l, nxt) ==
    LET x == Observed(st.it + 1)
        other == IF l.accept THEN st.pos ELSE l.posP
        ok == IsVec(x, 2) /\ VNear(x, nxt.pos, Tol)
        over == \A i \in 1..Len(S.calls) : S.calls[i].it < st.it
        proposed == \E i \in 1..Len(S.points) : VNear(S.points[i], l.posP, Tol)
        \* a step that is not adopted has been looked at all the same
    IN  IF ok THEN Clause("C14.path", Cfg.kind = "dogleg" => proposed)
        ELSE IF ~IsVec(x, 2) \/ ~Within(x, 1000000) THEN {Who("finite")}
        ELSE IF over /\ VNear(x, st.pos, Tol) THEN {"C15.stops_early"}
        ELSE IF Cfg.kind = "dogleg" /\ ~proposed THEN {"C14.path"}
        ELSE IF TrustRegion(Cfg) /\ VNear(x, other, Tol)
             THEN {IF l.accept THEN "C13.rejects_improvement" ELSE "C13.accepts_regression"}
        ELSE {Who("values")}

\* after the last iteration: no later subproblem, and values stay
EndClauses(nxt) ==
    IF ~nxt.done THEN {}
    ELSE Clause("C15.stops_late",
           /\ \A i \in 1..Len(S.calls) : S.calls[i].it < nxt.it
           /\ \A k \in (nxt.it + 1)..Cfg.maxit : S.iters[k] = S.iters[nxt.it])

Shape == /\ S.ok
         /\ Len(S.iters) = Cfg.maxit

\* smooth problems: costs in the unit chosen by the harness, one more than ids
RealClauses ==
    IF ~S.ok THEN {"C13.completes"}
    ELSE UNION {Clause("C13.cost_rises", S.costs[k + 1] <= S.costs[k] + S.slack)
                \cup Clause("C13.moves_without_gain",
                       S.ids[k + 1] # S.ids[k] => S.gains[k] >= 0)
                : k \in 1..(Len(S.costs) - 1)}

Init == /\ n \in 1..Len(Log)
        /\ st = IF S.kind = "scripted" THEN Start(Cfg, Land, S.start) ELSE <<>>
        /\ last = TRUE /\ fails = {} /\ done = FALSE
Report(events, f) == PrintT(<<"VERDICT", S.id, events, f>>)
Next ==
    /\ ~done
    /\ UNCHANGED n
    /\ IF S.kind = "real"
       THEN /\ Report(Len(S.costs), RealClauses) /\ done' = TRUE
            /\ UNCHANGED <<st, last, fails>>
       ELSE IF ~Shape
       THEN /\ Report(0, {"C15.completes", "C13.completes", "C14.completes"}) /\ done' = TRUE
            /\ UNCHANGED <<st, last, fails>>
       ELSE IF st.done
       THEN /\ Report(1, Clause("C15.stops_late", S.calls = <<>> /\ S.zero = S.start)) /\ done' = TRUE
            /\ UNCHANGED <<st, last, fails>>
       ELSE LET l == Look(Cfg, Land, S.script, st)
                nxt == After(Cfg, Land, st, l, "ok")
                f == CallClauses(l) \cup ValueClauses(l, nxt)
                     \cup EndClauses(nxt)
            IN  IF ~Sensible(Cfg, l) \/ Unclear(Cfg, st, l)
                THEN \* nothing to say about the rest
                     /\ Report(st.it, IF Cfg.kind = "dogleg" \/ Cfg.ptn > 0 THEN {} ELSE {"scenario.unclear"})
                     /\ done' = TRUE /\ UNCHANGED <<st, last, fails>>
                ELSE /\ fails' = f
                     /\ last' = l.accept
                     \* rounding does not build up
                     /\ st' = [nxt EXCEPT !.pos = IF f = {} THEN Observed(nxt.it) ELSE @]
                     /\ done' = (nxt.done \/ f # {})
                     /\ done' => Report(nxt.it, f)
Spec == Init /\ [][Next]_vars
=============================================================================
