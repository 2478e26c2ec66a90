------------------------------- MODULE MCMap -------------------------------
(***************************************************************************)
(* Design check for whole solves (C16, and the solving part of C03): the   *)
(* initial values come in any storage order, the graph stores variables in *)
(* the order in which its factors mention them, the linear solver answers  *)
(* in the graph's local layout.  Whatever the orders, the result holds the *)
(* minimizer for every variable, in the order of the initial values.       *)
(* Mechanism "converted" brings the initial values to the graph's order    *)
(* and the result back; "inplace" keeps the initial order throughout, and  *)
(* relies on evaluation and retraction to reconcile the orders.            *)
(***************************************************************************)
EXTENDS Storage, TLC, Json

CONSTANTS TypeSet,
          Mechanism,   \* "converted", "inplace"
          Variant,     \* "ok", "noback", "noconvert", "positional"
          Reach,       \* largest movement per coordinate and step
          Emit

Types == CASE TypeSet = "small" -> <<"R2", "S0", "R2">>
           [] TypeSet = "mixed" -> <<"R2", "SE2", "R2", "SE2">>
           [] TypeSet = "nested" -> <<"D5", "P3", "SO2", "P3">>
Vars == 1..Len(Types)
RECURSIVE PermsOf(_)
PermsOf(S) == IF S = {} THEN {<<>>}
              ELSE UNION {{Append(p, v) : p \in PermsOf(S \ {v})} : v \in S}

Turn(k) == Quarter(k)
Truth(v) == LET t == Types[v]
            IN  CASE t = "SO2" -> Turn(v)
                  [] t = "SE2" -> Turn(v) \o <<2 * v, -v>>
                  [] OTHER -> [i \in 1..Dim(t) |-> 3 * v - 2 * i]
StartOf(v, far) ==
    LET t == Types[v]
    IN  IF t \in LieTypes
        THEN Retract(t, Truth(v), IF t = "SO2" THEN <<1>> ELSE <<far, 0, v % 2>>)
        ELSE [i \in 1..Dim(t) |-> Truth(v)[i] + (IF i % 2 = 0 THEN far ELSE -v)]

Clip(x) == MaxI(-Reach, MinI(Reach, x))
VClip(x) == [i \in 1..Len(x) |-> Clip(x[i])]
\* a step from x towards y: rotations first, one quarter turn at a time
Towards(t, x, y) ==
    CASE t = "SO2" -> <<MaxI(-1, MinI(1, QuarterOf(CMul(CConj(x), y))))>>
      [] t = "SE2" -> LET q == QuarterOf(CMul(CConj(SubSeq(x, 1, 2)), SubSeq(y, 1, 2)))
                      IN  IF q # 0 THEN <<0, 0, MaxI(-1, MinI(1, q))>>
                          ELSE VClip(CMul(CConj(SubSeq(x, 1, 2)), VSub(SubSeq(y, 3, 4), SubSeq(x, 3, 4)))) \o <<0>>
      [] OTHER -> VClip(VSub(y, x))

VARIABLES init, glay, cur, it, pc, told
vars == <<init, glay, cur, it, pc, told>>

Given(far) == [v \in Vars |-> <<v, StartOf(v, far)>>]
InitialOf(order, far) == CPartial(Types, order, Given(far))

Init == /\ \E order \in PermsOf(Vars), gorder \in PermsOf(Vars), far \in {1, 5} :
             /\ init = InitialOf(order, far)
             /\ glay = MakeLayout(Types, gorder, FALSE)
        /\ cur = <<>> /\ it = 0 /\ pc = "start" /\ told = FALSE

Begin == /\ pc = "start" /\ pc' = "loop"
         /\ cur' = CASE Variant = "noconvert" -> CObj(glay, init.vec)
                     [] Mechanism = "converted" -> CRelayout(Types, init, glay)
                     [] OTHER -> init
         /\ UNCHANGED <<init, glay, it, told>>

At(o) == Denote(Types, o).val
\* what the linear solver returns, in the graph's local layout
StepOf(o) ==
    LET x == At(o)
    IN  CDeltas(Types, glay.order, [i \in 1..Len(glay.order) |->
            LET v == glay.order[i] IN <<v, Towards(Types[v], x[v], Truth(v))>>])
Still(o) == \A v \in Vars : Towards(Types[v], At(o)[v], Truth(v)) = Zeros(LDim(Types[v]))

Step == /\ pc = "loop" /\ ~Still(cur)
        /\ it < 12
        /\ cur' = CRetract(Types, cur, StepOf(cur), Variant # "positional")
        /\ it' = it + 1
        /\ UNCHANGED <<init, glay, pc, told>>
Finish == /\ pc = "loop" /\ (Still(cur) \/ it = 12) /\ pc' = "done"
          /\ cur' = IF Mechanism = "converted" /\ Variant # "noback"
                    THEN CRelayout(Types, cur, init.lay) ELSE cur
          /\ UNCHANGED <<init, glay, it, told>>
Tell == /\ pc = "done" /\ Emit /\ ~told /\ told' = TRUE
        /\ PrintT("PROGRAM " \o ToJson([types |-> Types, order |-> init.lay.order, gorder |-> glay.order,
                                        truth |-> [v \in Vars |-> Truth(v)],
                                        start |-> At(init), steps |-> it]))
        /\ UNCHANGED <<init, glay, cur, it, pc>>
Next == Begin \/ Step \/ Finish \/ Tell
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C16: the minimizer, for every variable
Reached == pc = "done" => \A v \in Vars : At(cur)[v] = Truth(v)
\* C16: the storage order of the initial values
OrderKept == pc = "done" => cur.lay = init.lay
\* C03: the path does not depend on the orders: values after `it` steps are
\* those of a solve in which every order is 1, 2, ...
RECURSIVE Plain(_, _)
Plain(x, k) == IF k = 0 THEN x
               ELSE Plain([v \in Vars |-> Retract(Types[v], x[v], Towards(Types[v], x[v], Truth(v)))], k - 1)
PathFree == pc # "start" => At(cur) = Plain(At(init), it)
\* C16: the initial values are not touched
InitialKept == [][init' = init]_vars
=============================================================================
