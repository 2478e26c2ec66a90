------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Storage layouts.  Variables are positive integers, `types[v]` is the    *)
(* type of variable v.  A layout is a record                               *)
(*   [local : BOOLEAN, dim : Nat, order : Seq(variable),                   *)
(*    start : Seq(Nat)  (0-based, same positions as `order`),              *)
(*    torder : Seq(type), tstart : Seq(Nat), tcount : Seq(Nat)]            *)
(* WellFormed is what a layout has to satisfy; MakeLayout is how one is    *)
(* built.  The former is checked on layouts recorded from the real code,   *)
(* so it does not prescribe which of the well-formed layouts is chosen.    *)
(***************************************************************************)
EXTENDS VarTypes

\* distinct elements of a sequence, in order of first appearance
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET front == SubSeq(s, 1, Len(s) - 1)
                        d == Distinct(front)
                    IN  IF s[Len(s)] \in Range(front) THEN d ELSE Append(d, s[Len(s)])

TypeSeq(types, vs) == [i \in 1..Len(vs) |-> types[vs[i]]]

\* variables bucketed by type, types in order of first appearance
Bucketed(types, vs) ==
    LET ts == Distinct(TypeSeq(types, vs))
    IN  Flatten([k \in 1..Len(ts) |-> SelectSeq(vs, LAMBDA v : types[v] = ts[k])])

Starts(types, order, local) ==
    [i \in 1..Len(order) |->
        SumTo([j \in 1..(i - 1) |-> BlockDim(types[order[j]], local)], i - 1)]

MakeLayout(types, vs, local) ==
    LET order == Bucketed(types, vs)
        ts == Distinct(TypeSeq(types, order))
        starts == Starts(types, order, local)
        first(t) == CHOOSE i \in 1..Len(order) :
                        types[order[i]] = t /\ \A j \in 1..(i - 1) : types[order[j]] # t
    IN  [local |-> local,
         dim |-> SumTo([i \in 1..Len(order) |-> BlockDim(types[order[i]], local)], Len(order)),
         order |-> order, start |-> starts,
         torder |-> ts,
         tstart |-> [k \in 1..Len(ts) |-> starts[first(ts[k])]],
         tcount |-> [k \in 1..Len(ts) |-> Cardinality({i \in 1..Len(order) : types[order[i]] = ts[k]})]]

LStart(lay, v) == lay.start[IndexOf(lay.order, v)]
LVars(lay) == Range(lay.order)

----------------------------------------------------------------------------
(* The clauses of well-formedness *)
SameVariables(lay, vs) == Len(lay.order) = Len(vs) /\ Range(lay.order) = Range(vs)
ShapesOk(lay) == /\ Len(lay.start) = Len(lay.order)
                 /\ Len(lay.tstart) = Len(lay.torder)
                 /\ Len(lay.tcount) = Len(lay.torder)
\* ascending, gap-free, disjoint and exhaustive, all at once: block i+1 starts
\* where block i ends, the first at 0 and the last ends at dim
Tiles(types, lay) ==
    \A i \in 1..Len(lay.order) :
        lay.start[i] + BlockDim(types[lay.order[i]], lay.local)
            = IF i = Len(lay.order) THEN lay.dim ELSE lay.start[i + 1]
FirstAtZero(lay) == Len(lay.order) > 0 => lay.start[1] = 0
TypesTogether(types, lay) ==
    \A i, j \in 1..Len(lay.order) :
        (i < j /\ types[lay.order[i]] = types[lay.order[j]]) =>
            \A k \in i..j : types[lay.order[k]] = types[lay.order[i]]
TypeTables(types, lay) ==
    /\ IsInjective(lay.torder)
    /\ Range(lay.torder) = {types[v] : v \in Range(lay.order)}
    /\ \A k \in 1..Len(lay.torder) :
          LET pos == {i \in 1..Len(lay.order) : types[lay.order[i]] = lay.torder[k]}
          IN  /\ lay.tcount[k] = Cardinality(pos)
              /\ \E i \in pos : lay.start[i] = lay.tstart[k] /\ \A j \in pos : i <= j
    /\ \A k \in 1..(Len(lay.torder) - 1) : lay.tstart[k] <= lay.tstart[k + 1]

WellFormed(types, lay, vs) ==
    /\ SameVariables(lay, vs) /\ ShapesOk(lay) /\ Tiles(types, lay)
    /\ FirstAtZero(lay) /\ TypesTogether(types, lay) /\ TypeTables(types, lay)
=============================================================================
