----------------------------- MODULE MCStorage -----------------------------
(***************************************************************************)
(* Design check for assignments (C01-C04): the concrete heap, built with   *)
(* the implementation's layouts, gathers and batched retraction, always    *)
(* denotes the abstract heap.  Every behaviour is also a test program:     *)
(* with Emit = TRUE complete programs are printed for replay on the code.  *)
(***************************************************************************)
EXTENDS Storage, TLC, Json

CONSTANTS TypeSet,     \* which list of variable types to use
          MaxOps,      \* length of programs
          Emit,        \* print programs of length MaxOps
          Variant,     \* "ok", "positional" (retraction pairs by position),
                       \* "alias" (updates write through to the old object)
          OrderSet     \* storage orders that programs may ask for

Types == CASE TypeSet = "tiny" -> <<"R2", "R2">>
           [] TypeSet = "small" -> <<"R2", "M31", "R2">>
           [] TypeSet = "mixed" -> <<"R2", "S0", "R2", "M31">>
           [] TypeSet = "lie" -> <<"SE2", "R1", "SE2", "SO2">>
           [] TypeSet = "lie3" -> <<"SE3", "SO3", "SE3", "M23">>
           [] TypeSet = "nested" -> <<"P3", "D5", "S5", "S0", "P3">>
           [] TypeSet = "many" -> <<"R2", "R3", "R2", "S0", "T1", "M23", "R3", "SO2">>

VARIABLES cheap, aheap, prog
vars == <<cheap, aheap, prog>>

Vars == 1..Len(Types)
\* Sequences of distinct variables that contain all of the set S
RECURSIVE PermsOf(_)
PermsOf(S) == IF S = {} THEN {<<>>}
              ELSE UNION {{Append(p, v) : p \in PermsOf(S \ {v})} : v \in S}
Orders == IF OrderSet = "all" THEN PermsOf(Vars)
          ELSE {[i \in Vars |-> i], [i \in Vars |-> Len(Types) + 1 - i]}

\* sample values and deltas: distinct per variable, so that mix-ups show
Val(v, k) == LET t == Types[v]
             IN  CASE t \in LieTypes -> Retract(t, Default(t), [i \in 1..LDim(t) |->
                                IF t = "SE2" /\ i < 3 THEN v + k ELSE IF t = "SE3" THEN (IF i < 4 THEN v + k + i ELSE 0)
                                ELSE 1])
                   [] OTHER -> [i \in 1..Dim(t) |-> 10 * v + k + i]
Delta(v, k) == LET t == Types[v]
               IN  [i \in 1..LDim(t) |-> CASE t = "SO2" -> v + k
                                           [] t = "SE2" -> IF i = 3 THEN ((v + k) % 5) - 2 ELSE v + i + k
                                           [] t = "SO3" -> IF k % 2 = 0 THEN 1 ELSE 0
                                           [] t = "SE3" -> IF i < 4 THEN v + k + i ELSE 0
                                           [] OTHER -> 3 * v + k + i]

\* C02: global and local layouts of the same variables are aligned
ASSUME \A vs \in Orders :
           MakeLayout(Types, vs, TRUE).order = MakeLayout(Types, vs, FALSE).order

Init == cheap = <<>> /\ aheap = <<>> /\ prog = <<>>

New(op, c, a) == /\ cheap' = Append(cheap, c)
                 /\ aheap' = Append(aheap, a)
                 /\ prog' = Append(prog, op)
Refused(op) == /\ UNCHANGED <<cheap, aheap>>
               /\ prog' = Append(prog, op)

DoDefaults == \E vs \in Orders :
    New([op |-> "defaults", vs |-> vs], CDefaults(Types, vs), ADefaults(Types, vs))
DoPartial == \E vs \in Orders, skip \in Vars :
    LET given == SelectSeq([i \in 1..Len(vs) |-> <<vs[i], Val(vs[i], Len(prog))>>],
                           LAMBDA g : g[1] # skip)
    IN  New([op |-> "partial", vs |-> vs, given |-> given],
            CPartial(Types, vs, given), APartial(Types, vs, given))
DoDeltas == \E vs \in Orders :
    LET given == [i \in 1..Len(vs) |-> <<vs[i], Delta(vs[i], Len(prog))>>]
    IN  New([op |-> "deltas", vs |-> vs, given |-> given],
            CDeltas(Types, vs, given), ADeltas(vs, given))
DoSet == \E o \in 1..Len(cheap), v \in Vars :
    /\ ~aheap[o].local
    /\ LET x == Val(v, Len(prog) + 40)
           op == [op |-> "set", o |-> o, v |-> v, x |-> x]
           c == CSet(Types, cheap[o], v, x)
       IN  IF Variant = "alias"
           THEN /\ cheap' = Append([cheap EXCEPT ![o] = c], c)
                /\ aheap' = Append(aheap, ASet(aheap[o], v, x))
                /\ prog' = Append(prog, op)
           ELSE New(op, c, ASet(aheap[o], v, x))
DoRelayout == \E o \in 1..Len(cheap), vs \in Orders, local \in BOOLEAN :
    LET op == [op |-> "relayout", o |-> o, vs |-> vs, local |-> local]
        lay == MakeLayout(Types, vs, local)
    IN  IF ARelayoutOk(aheap[o], vs, local)
        THEN New(op, CRelayout(Types, cheap[o], lay), ARelayout(aheap[o], lay.order))
        ELSE Refused(op)
DoRetract == \E o \in 1..Len(cheap), d \in 1..Len(cheap) :
    LET op == [op |-> "retract", o |-> o, d |-> d]
    IN  IF ARetractOk(aheap[o], aheap[d])
        THEN New(op, CRetract(Types, cheap[o], cheap[d], Variant # "positional"),
                     ARetract(Types, aheap[o], aheap[d]))
        ELSE Refused(op)

Next == /\ Len(prog) < MaxOps
        /\ (DoDefaults \/ DoPartial \/ DoDeltas \/ DoSet \/ DoRelayout \/ DoRetract)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C01, C03, C04: the concrete heap denotes the abstract one
Denotes == \A i \in 1..Len(cheap) :
              LET d == Denote(Types, cheap[i])
              IN  d.local = aheap[i].local /\ d.val = aheap[i].val
\* C02: every layout in use is well-formed
LayoutsOk == \A i \in 1..Len(cheap) :
              WellFormed(Types, cheap[i].lay, aheap[i].order)
\* C01: objects never change
Immutable == [][\A i \in 1..Len(cheap) : cheap'[i] = cheap[i]]_vars
\* Non-vacuity: these are expected to be violated when checked
NeverRetracted == \A i \in 1..Len(prog) : prog[i].op # "retract"

\* Simulation only needs the programs
EmitProgram == (Emit /\ Len(prog) = MaxOps) =>
                   PrintT("PROGRAM " \o ToJson([types |-> Types, ops |-> prog]))
=============================================================================
