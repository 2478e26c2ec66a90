------------------------------ MODULE MCBatch ------------------------------
(***************************************************************************)
(* Design check of the batched loop (C19): all batches of Width lanes      *)
(* taken from a table of small problems that need different numbers of     *)
(* iterations.                                                             *)
(***************************************************************************)
EXTENDS Batch, TLC
CONSTANTS Kind, Variant, Width, Emit

Residuals == <<<<4, 0>>, <<3, 1>>, <<1, -1>>, <<-5, 2>>, <<0, 1>>>>
Jacobians == <<<<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<0, 1>>>>, <<<<1, -1>>, <<1, 1>>>>>>
Steps == <<<<-1, 0>>, <<1, 0>>, <<0, 1>>, <<-1, -1>>>>
\* landscapes and scripts picked by a number
LandOf(s) == [r |-> [c \in 1..(N * N) |-> Residuals[((c * s + c \div 5 + s) % 5) + 1]],
              jac |-> [c \in 1..(N * N) |-> Jacobians[((c + s) % 3) + 1]]]
ScriptOf(s) == [i \in 1..6 |-> Steps[((i * s + i \div 2) % 4) + 1]]
Base == [kind |-> Kind, maxit |-> 4, qn |-> 1, qd |-> 1000, lam0 |-> 0, lfac |-> 1, lmin |-> -3,
         lmax |-> 2, rad0 |-> 1500, ctn |-> 0, ctd |-> 1, gt |-> 0, gs |-> 0, ptn |-> 0, ptd |-> 1,
         sc |-> <<1, 1>>]
Cfgs == {[Base EXCEPT !.maxit = m, !.ctn = t[1], !.ctd = 4, !.gt = t[2], !.gs = t[3]]
            : m \in {1, 4}, t \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 6, 1>>}}
\* dogleg needs a direction
RECURSIVE ProperFrom(_, _)
ProperFrom(lane, st) ==
    \/ st.done
    \/ /\ SumSq(NegGrad(Jac(lane.land, st.pos), st.res)) > 0
       /\ ProperFrom(lane, LaneNext(lane, st))
Lanes == {l \in {[cfg |-> c, land |-> LandOf(s), script |-> ScriptOf(t), start |-> <<2 * F, 3 * F>>]
                    : c \in Cfgs, s \in 1..4, t \in (IF Kind = "dogleg" THEN {1} ELSE 1..2)}
          : ProperFrom(l, LaneStart(l))}

VARIABLES lanes, sts, steps
vars == <<lanes, sts, steps>>
Init == /\ lanes \in [1..Width -> Lanes]
        /\ sts = [i \in 1..Width |-> LaneStart(lanes[i])]
        /\ steps = 0
Next == /\ steps < 6
        /\ Going(sts, Variant)
        /\ sts' = BatchNext(lanes, sts, Variant)
        /\ steps' = steps + 1
        /\ UNCHANGED lanes
Spec == Init /\ [][Next]_vars

AsAlone == ~Going(sts, Variant) => \A i \in 1..Width : sts[i] = Alone(lanes[i])
\* on the way: a prefix of the run alone
NotAhead == \A i \in 1..Width : sts[i].it = MinI(steps, Alone(lanes[i]).it)
Frozen == [][\A i \in 1..Width : sts[i].done => sts'[i] = sts[i]]_vars
=============================================================================
