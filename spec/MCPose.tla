------------------------------- MODULE MCPose -------------------------------
(***************************************************************************)
(* Design check for pose factors (C18), exact on discrete subgroups.  Two  *)
(* poses and a consistent measurement; one of them is retracted.  Then the *)
(* between residual is the negated delta (second pose) or the delta seen   *)
(* from the other frame (first pose), and no frame of reference matters.   *)
(***************************************************************************)
EXTENDS Pose, TLC, Json

CONSTANTS T, Reach, Variant, Emit
VARIABLES a, b, m, frame, moved, told
vars == <<a, b, m, frame, moved, told>>

Box == IF T = "SE3" THEN {<<0, 0, 0>>, <<1, 0, -1>>, <<2, 1, 0>>} ELSE {}
Turns == {QCanon(<<2, 0, 0, 0>>)} \cup {QCanon(QExp(d)) : d \in Axes}
Elements == CASE T = "SO2" -> {Quarter(k) : k \in 0..3}
              [] T = "SE2" -> {Quarter(k) \o <<x, y>> : k \in 0..3, x \in Small, y \in Small}
              [] T = "SO3" -> Turns
              [] T = "SE3" -> {q \o x : q \in Turns, x \in Box}
Frames == CASE T = "SO2" -> {Quarter(1)} [] T = "SE2" -> {Quarter(1) \o <<2, -1>>}
            [] T = "SO3" -> {<<1, 1, -1, 1>>} [] T = "SE3" -> {<<1, 1, -1, 1, 0, 3, 1>>}

Init == /\ a \in Elements /\ b \in Elements /\ frame \in Frames
        /\ m = Rel(T, a, b) /\ moved = <<>> /\ told = FALSE
Move(who, d) ==
    /\ moved = <<>> /\ moved' = <<who, d>>
    /\ UNCHANGED <<a, b, m, frame, told>>
Tell == /\ Emit /\ moved # <<>> /\ ~told /\ told' = TRUE
        /\ PrintT("PROGRAM " \o ToJson([t |-> T, a |-> a, b |-> b, m |-> m, who |-> moved[1], delta |-> moved[2]]))
        /\ UNCHANGED <<a, b, m, frame, moved>>
Next == (\E who \in {"a", "b"} : \E d \in Deltas(T, Reach) : Move(who, d)) \/ Tell
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* after the move
A == IF moved # <<>> /\ moved[1] = "a" THEN Retract(T, a, moved[2]) ELSE a
B == IF moved # <<>> /\ moved[1] = "b" THEN Retract(T, b, moved[2]) ELSE b
E == CASE Variant = "swapped" -> GMul(T, GInv(T, m), Rel(T, A, B))
       [] Variant = "world" -> GMul(T, m, GInv(T, Rel(T, A, B)))
       [] OTHER -> BetweenE(T, A, B, m)
Neg(d) == VScale(-1, d)
Residual ==
    CASE moved = <<>> -> E = GIdentity(T)
      [] moved # <<>> /\ moved[1] = "b" -> E = GExp(T, Neg(moved[2]))
      [] OTHER -> E = Conj(T, GInv(T, m), GExp(T, moved[2]))
PriorResidual == moved # <<>> /\ moved[1] = "b" => PriorE(T, B, b) = GExp(T, Neg(moved[2]))
\* the same from any frame of reference
FrameFree == BetweenE(T, GMul(T, frame, A), GMul(T, frame, B), m) = BetweenE(T, A, B, m)
PriorFree == PriorE(T, GMul(T, frame, A), GMul(T, frame, B)) = PriorE(T, A, B)
\* a prior is a measurement from the origin
PriorBetween == PriorE(T, B, m) = BetweenE(T, GIdentity(T), B, m)
\* logarithms are unique
LogUnique == moved # <<>> => Logs(T, GExp(T, moved[2]), Reach) = {moved[2]}
GroupLaws == /\ GMul(T, A, GInv(T, A)) = GIdentity(T)
             /\ GMul(T, GMul(T, A, B), m) = GMul(T, A, GMul(T, B, m))
             /\ Retract(T, a, Zeros(LDim(T))) = a
=============================================================================
