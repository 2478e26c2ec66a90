------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Assignment objects.                                                     *)
(*                                                                         *)
(* The abstract state is a heap (a sequence, objects are never dropped) of *)
(* objects [kind, order, val]: a map `val` from variables to values (or to *)
(* deltas, if kind is "local") and the order in which the variables are    *)
(* stored.  Every operation either appends one object or is refused and    *)
(* leaves the heap as it is; no operation changes an existing object.      *)
(*                                                                         *)
(* The concrete state mirrors the implementation: a flat vector plus a     *)
(* layout.  Denote maps a concrete object to an abstract one.  Model       *)
(* checking (MCStorage) establishes that every concrete operation commutes *)
(* with Denote; traces of the real code are validated against the abstract *)
(* operations (TraceStorage).                                              *)
(***************************************************************************)
EXTENDS Layout

----------------------------------------------------------------------------
(* Abstract operations *)
AObj(local, order, val) == [local |-> local, order |-> order, val |-> val]
AVars(o) == Range(o.order)

ADefaults(types, vs) == AObj(FALSE, vs, [v \in Range(vs) |-> Default(types[v])])

\* `given` is a sequence of <<variable, value>> pairs
GivenVars(given) == {given[i][1] : i \in 1..Len(given)}
GivenVal(given, v) == given[CHOOSE i \in 1..Len(given) : given[i][1] = v][2]
APartial(types, vs, given) ==
    AObj(FALSE, vs, [v \in Range(vs) |->
            IF v \in GivenVars(given) THEN GivenVal(given, v) ELSE Default(types[v])])
ADict(given) == AObj(FALSE, [i \in 1..Len(given) |-> given[i][1]],
                     [v \in GivenVars(given) |-> GivenVal(given, v)])
ADeltas(vs, given) == AObj(TRUE, vs, [v \in Range(vs) |-> GivenVal(given, v)])

ASet(o, v, x) == [o EXCEPT !.val[v] = x]

\* `vs` are the variables, in storage order, of the layout asked for
ARelayoutOk(o, vs, local) == o.local = local /\ AVars(o) = Range(vs)
ARelayout(o, vs) == [o EXCEPT !.order = vs]

ARetractOk(o, d) == ~o.local /\ d.local /\ AVars(o) = AVars(d)
ARetract(types, o, d) ==
    [o EXCEPT !.val = [v \in AVars(o) |-> Retract(types[v], o.val[v], d.val[v])]]

----------------------------------------------------------------------------
(* Concrete operations, structured like the implementation *)
CObj(lay, vec) == [lay |-> lay, vec |-> vec]

Block(o, types, v) ==
    SubSeqAt(o.vec, LStart(o.lay, v) + 1, BlockDim(types[v], o.lay.local))
Denote(types, o) ==
    AObj(o.lay.local, o.lay.order, [v \in LVars(o.lay) |-> Block(o, types, v)])

CDefaults(types, vs) ==
    LET lay == MakeLayout(types, vs, FALSE)
    IN  CObj(lay, Flatten([k \in 1..Len(lay.torder) |->
                Flatten([i \in 1..lay.tcount[k] |-> Default(lay.torder[k])])]))

CPartial(types, vs, given) ==
    LET lay == MakeLayout(types, vs, FALSE)
    IN  CObj(lay, Flatten([i \in 1..Len(lay.order) |->
                LET v == lay.order[i]
                IN  IF v \in GivenVars(given) THEN GivenVal(given, v)
                    ELSE Default(types[v])]))

CDeltas(types, vs, given) ==
    LET lay == MakeLayout(types, vs, TRUE)
    IN  CObj(lay, Flatten([i \in 1..Len(lay.order) |-> GivenVal(given, lay.order[i])]))

CSet(types, o, v, x) ==
    LET s == LStart(o.lay, v)
    IN  CObj(o.lay, [i \in 1..Len(o.vec) |->
            IF i > s /\ i <= s + Dim(types[v]) THEN x[i - s] ELSE o.vec[i]])

\* one gather through a table of source indices
CRelayout(types, o, lay) ==
    IF o.lay = lay THEN o
    ELSE LET blk(v) == BlockDim(types[v], lay.local)
             owner(i) == CHOOSE v \in LVars(lay) :
                            i > LStart(lay, v) /\ i <= LStart(lay, v) + blk(v)
             src == [i \in 1..lay.dim |->
                        LET v == owner(i) IN LStart(o.lay, v) + i - LStart(lay, v)]
         IN  CObj(lay, [i \in 1..lay.dim |-> o.vec[src[i]]])

\* deltas brought into the order of the values, then one type at a time
\* (`aligned` is FALSE only in the deliberately broken variant)
CRetract(types, o, d, aligned) ==
    LET dd == IF aligned
              THEN CRelayout(types, d, MakeLayout(types, o.lay.order, TRUE)) ELSE d
        dk(t) == IndexOf(dd.lay.torder, t)
    IN  CObj(o.lay, Flatten([k \in 1..Len(o.lay.torder) |->
            LET t == o.lay.torder[k]
            IN  Flatten([i \in 1..o.lay.tcount[k] |->
                    Retract(t, SubSeqAt(o.vec, o.lay.tstart[k] + (i - 1) * Dim(t) + 1, Dim(t)),
                               SubSeqAt(dd.vec, dd.lay.tstart[dk(t)] + (i - 1) * LDim(t) + 1, LDim(t)))])]))

\* values of one type, in storage order
StackedRows(types, o, t) ==
    LET vs == SelectSeq(o.order, LAMBDA v : types[v] = t)
    IN  [i \in 1..Len(vs) |-> o.val[vs[i]]]
=============================================================================
