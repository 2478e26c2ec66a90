---------------------------- MODULE TraceStorage ----------------------------
(***************************************************************************)
(* Validates recorded programs over real assignment objects and layouts    *)
(* against Storage / Layout.  Every recorded scenario is an initial state; *)
(* one step consumes one recorded operation.  The verdict is total: it     *)
(* names the failing clauses of the first operation that went wrong.       *)
(***************************************************************************)
EXTENDS Storage, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n,        \* index of the scenario
          k,        \* operations consumed
          heap,     \* abstract heap
          fails,    \* failing clauses
          done
vars == <<n, k, heap, fails, done>>

S == Log[n]
NumSteps == IF S.kind = "heap" THEN Len(S.ops) ELSE 1

----------------------------------------------------------------------------
(* Clauses about one recorded object `b`, given its abstract object `a` *)
LayOf(b) == b.lay
ReadsAgree(types, a, b) ==
    IF a.local THEN TRUE
    ELSE /\ b.gets = b.vals
         /\ b.raw = b.vals
         /\ \A i \in 1..Len(b.stacked) :
               b.stacked[i].rows =
                 LET pos == SelectSeq([j \in 1..Len(b.lay.order) |-> j],
                                      LAMBDA j : types[b.lay.order[j]] = b.stacked[i].t)
                 IN  [j \in 1..Len(pos) |-> b.vals[pos[j]]]
         /\ {b.stacked[i].t : i \in 1..Len(b.stacked)} = {types[v] : v \in AVars(a)}
ValuesMatch(a, b) ==
    /\ Len(b.vals) = Len(b.lay.order)
    /\ Range(b.lay.order) = AVars(a)
    /\ \A i \in 1..Len(b.vals) : b.vals[i] = a.val[b.lay.order[i]]
LayoutMatch(types, a, b) ==
    /\ b.lay.local = a.local
    /\ WellFormed(types, b.lay, a.order)

\* a recorded object against its abstract counterpart; `wrong` is the clause
\* to blame for wrong values
ObjClauses(types, a, b, wrong) ==
    IF ~b.ok THEN {"C01.readable"}
    ELSE Clause("C02.wellformed", LayoutMatch(types, a, b))
         \cup Clause(wrong, ValuesMatch(a, b))
         \cup Clause("C01.reads_agree", ReadsAgree(types, a, b))

----------------------------------------------------------------------------
(* One recorded operation *)
Types == S.types
Op == S.ops[k + 1]

Allowed(e) == CASE e.op = "relayout" -> ARelayoutOk(heap[e.o], e.vs, e.local)
                [] e.op = "retract" -> ARetractOk(heap[e.o], heap[e.d])
                [] OTHER -> TRUE

Result(e) == CASE e.op = "defaults" -> ADefaults(Types, e.vs)
               [] e.op = "partial" -> APartial(Types, e.vs, e.given)
               [] e.op = "dict" -> ADict(e.given)
               [] e.op = "deltas" -> ADeltas(e.vs, e.given)
               [] e.op = "set" -> ASet(heap[e.o], e.v, e.x)
               [] e.op = "relayout" -> ARelayout(heap[e.o], e.vs)
               [] e.op = "retract" -> ARetract(Types, heap[e.o], heap[e.d])
               [] e.op = "pass" -> heap[e.o]   \* through a compiled identity

Blame(e) == CASE e.op = "relayout" -> "C03.values_kept"
              [] e.op = "retract" -> "C04.own_delta"
              [] e.op = "pass" -> "C19.pass_through"
              [] OTHER -> "C01.value"
BlameTotal(e) == CASE e.op = "relayout" -> "C03.accepted"
                   [] e.op = "retract" -> "C04.accepted"
                   [] e.op = "pass" -> "C19.accepted"
                   [] OTHER -> "C01.accepted"

\* storage order: updates and retraction keep it, conversion adopts the other's
OrderClauses(e, a, b) ==
    IF e.op = "retract" /\ b.ok
    THEN Clause("C04.order_kept", b.lay.order = S.ops[k + 1].before)
    ELSE IF e.op = "set" /\ b.ok
    THEN Clause("C01.order_kept", b.lay.order = S.ops[k + 1].before)
    ELSE IF e.op = "relayout" /\ b.ok
    THEN Clause("C03.layout_adopted", b.lay = S.ops[k + 1].target)
    ELSE {}

OldClauses(e) ==
    UNION {ObjClauses(Types, heap[i], e.objs[i], "C01.immutable") : i \in 1..Len(heap)}

OpClauses(e) ==
    IF ~Allowed(e) THEN Clause("C03.refused", ~e.ok)
    ELSE IF ~e.ok THEN {BlameTotal(e)}
    ELSE IF Len(e.objs) # Len(heap) + 1 THEN {"C01.accepted"}
    ELSE LET a == Result(e)
             b == e.objs[Len(heap) + 1]
         IN  ObjClauses(Types, a, b, Blame(e)) \cup OrderClauses(e, a, b) \cup OldClauses(e)

HeapStep ==
    /\ k < Len(S.ops)
    /\ LET f == OpClauses(Op)
       IN  /\ fails' = f
           /\ heap' = IF f = {} /\ Allowed(Op) THEN Append(heap, Result(Op)) ELSE heap
           /\ k' = k + 1
           /\ done' = (f # {} \/ k + 1 = Len(S.ops))
    /\ UNCHANGED n

----------------------------------------------------------------------------
(* Two recorded layouts and how they compare *)
Placement(l) == {<<l.order[i], l.start[i]>> : i \in 1..Len(l.order)}
LayoutClauses ==
    IF ~S.ok THEN {"C02.accepted"}
    ELSE Clause("C02.wellformed", WellFormed(Types, S.a, S.avs) /\ S.a.local = S.alocal)
         \cup Clause("C02.wellformed", WellFormed(Types, S.b, S.bvs) /\ S.b.local = S.blocal)
         \cup Clause("C02.aligned", S.avs = S.bvs => S.a.order = S.b.order)
         \cup Clause("C02.aligned_types", S.avs = S.bvs => S.a.torder = S.b.torder)
         \cup Clause("C02.equal", (S.avs = S.bvs /\ S.alocal = S.blocal) => (S.eq /\ S.hasheq))
         \cup Clause("C02.different_unequal", (Placement(S.a) # Placement(S.b)) => ~S.eq)
         \cup Clause("C02.hash_consistent", S.eq => S.hasheq)
LayoutStep == /\ S.kind = "layout"
              /\ fails' = LayoutClauses
              /\ done' = TRUE /\ k' = 1
              /\ UNCHANGED <<n, heap>>

----------------------------------------------------------------------------
Init == /\ n \in 1..Len(Log)
        /\ k = 0 /\ heap = <<>> /\ fails = {} /\ done = FALSE
Next == /\ ~done
        /\ IF S.kind = "heap" THEN HeapStep ELSE LayoutStep
        /\ done' => PrintT(<<"VERDICT", S.id, k', fails'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
