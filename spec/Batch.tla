------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Solving many problems at once (C19).                                    *)
(*                                                                         *)
(* A lane is a problem of its own: [cfg, land, script, start] as in        *)
(* Solver.  Alone(lane) is where it ends when it is solved by itself.  A   *)
(* batch makes steps for all lanes together until all of them are done;    *)
(* lanes that are done are frozen.                                         *)
(***************************************************************************)
EXTENDS Solver

LaneLook(lane, st) == Look(lane.cfg, lane.land, lane.script, st)
LaneStart(lane) == Start(lane.cfg, lane.land, lane.start)
LaneNext(lane, st) == After(lane.cfg, lane.land, st, LaneLook(lane, st), "ok")

RECURSIVE RunFrom(_, _)
RunFrom(lane, st) == IF st.done THEN st ELSE RunFrom(lane, LaneNext(lane, st))
Alone(lane) == RunFrom(lane, LaneStart(lane))

\* nothing on the way is too close to call
RECURSIVE ClearFrom(_, _)
ClearFrom(lane, st) ==
    \/ st.done
    \/ LET l == LaneLook(lane, st)
       IN  /\ SumSq(l.g) > 0 /\ Sensible(lane.cfg, l) /\ ~Unclear(lane.cfg, st, l)
           /\ ClearFrom(lane, LaneNext(lane, st))
Clear(lane) == ClearFrom(lane, LaneStart(lane))

----------------------------------------------------------------------------
(* The batched loop.  Broken variants: "running" lanes go on when they are *)
(* done, "first" the loop ends with the first lane, "leader" the first     *)
(* lane decides when everyone is done.                                     *)
Going(sts, variant) ==
    IF variant = "first" THEN \A i \in 1..Len(sts) : ~sts[i].done
    ELSE IF variant = "leader" THEN ~sts[1].done
    ELSE \E i \in 1..Len(sts) : ~sts[i].done
BatchNext(lanes, sts, variant) ==
    [i \in 1..Len(sts) |->
        IF sts[i].done /\ variant # "running" THEN sts[i] ELSE LaneNext(lanes[i], sts[i])]
=============================================================================
