------------------------------ MODULE TraceCov ------------------------------
(***************************************************************************)
(* Validates recorded covariances (C17; relative ones for C03 and C07).    *)
(* Matrices are recorded in fixed point, times S.scale.                    *)
(*                                                                         *)
(* kind "cov": a graph at integer values.  Per object (graph and values in *)
(* some order): full, the marginal of all variables S.vseq; lay, the local *)
(* layout; dense and recovered, the full matrix in that layout, by either  *)
(* method; queries <<variables, marginal>>; entries <<i, j, value>>, by     *)
(* index in the layout.  All are asked on one object, in a random order.   *)
(* kind "tree": a tree of independent increments, only some queries.       *)
(***************************************************************************)
EXTENDS Cov, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]
P(name) == S.prop \o "." \o name

Most == 2000000
Fine(m, size) == IsMat(m, size, size) /\ MWithin(m, Most)

Types == S.types
SS == ScalarsOf(Types, S.vseq)
Info == InfoOf(Types, S.factors, S.values, S.vseq)

\* Info * full = identity
InverseOf(info, full) ==
    /\ Fine(full, Len(SS))
    /\ \A i \in 1..Len(SS) : \A j \in 1..Len(SS) :
          Near(SumTo([k \in 1..Len(SS) |-> info[i][k] * full[k][j]], Len(SS)),
               IF i = j THEN S.scale ELSE 0, Norm1(info[i]) + S.scale \div 200)

Close(x, y) == Near(x, y, 2 + Abs(y) \div 2000)
MClose(a, b, size) == Fine(a, size) /\ \A i, j \in 1..size : Close(a[i][j], b[i][j])

IndexIn(s) == IndexOf(SS, s)
\* the blocks of full for a list of variables
BlocksOf(full, vs) ==
    LET ss == ScalarsOf(Types, vs)
    IN  [i \in 1..Len(ss) |-> [j \in 1..Len(ss) |-> full[IndexIn(ss[i])][IndexIn(ss[j])]]]

\* scalars in the order of the local layout; <<>> if that makes no sense
LayScalars(lay) ==
    LET at(p) == {s \in Range(SS) : \E i \in 1..Len(lay.order) :
                     lay.order[i] = s[1] /\ lay.start[i] + s[2] = p}
    IN  IF \A p \in 1..Len(SS) : Cardinality(at(p)) = 1
        THEN [p \in 1..Len(SS) |-> CHOOSE s \in at(p) : TRUE] ELSE <<>>

ObjClauses(o, info) ==
    IF ~o.ok THEN {P("completes")}
    ELSE IF ~InverseOf(info, o.full) THEN {P("inverse")}
    ELSE LET ls == LayScalars(o.lay)
             ordered == [i \in 1..Len(ls) |-> [j \in 1..Len(ls) |-> o.full[IndexIn(ls[i])][IndexIn(ls[j])]]]
         IN  Clause(P("symmetric"), \A i, j \in 1..Len(SS) : Close(o.full[i][j], o.full[j][i]))
             \cup Clause(P("layout"), Len(ls) = Len(SS))
             \cup Clause(P("dense"), Len(ls) = Len(SS) => MClose(o.dense, ordered, Len(SS)))
             \cup Clause(P("recovered"), Len(ls) = Len(SS) => MClose(o.recovered, ordered, Len(SS)))
             \cup Clause(P("entries"), Len(ls) = Len(SS) =>
                    \A i \in 1..Len(o.entries) : Close(o.entries[i][3], ordered[o.entries[i][1]][o.entries[i][2]]))
             \cup Clause(P("marginals"), \A i \in 1..Len(o.queries) :
                    MClose(o.queries[i][2], BlocksOf(o.full, o.queries[i][1]), Len(ScalarsOf(Types, o.queries[i][1]))))

\* behaviours of the specification: entries it predicts (four times the value)
Replayed == \A i \in 1..Len(S.expect) :
               Close(4 * S.objs[1].full[S.expect[i][1]][S.expect[i][2]], S.scale * S.expect[i][3])

Relative == UNION {Clause(P("accepted"), S.objs[i].ok = S.objs[1].ok)
                   \cup Clause(P("covariance"),
                      (S.objs[1].ok /\ S.objs[i].ok /\ Fine(S.objs[1].full, Len(SS))) =>
                         MClose(S.objs[i].full, S.objs[1].full, Len(SS)))
                   : i \in 2..Len(S.objs)}

CovClauses ==
    IF S.prop # "C17" THEN Relative
    ELSE LET info == Info
             mine == UNION {ObjClauses(S.objs[i], info) : i \in 1..Len(S.objs)}
         IN  IF mine # {} THEN mine ELSE Clause(P("replayed"), Replayed)

\* trees: S.dim independent copies
TreeExpected(vs) ==
    LET size == Len(vs) * S.dim
        node(i) == vs[((i - 1) \div S.dim) + 1]
        coord(i) == (i - 1) % S.dim
        cov == [a \in 1..Len(vs) |-> [b \in 1..Len(vs) |-> TreeCov4(S.parent, S.var4, vs[a], vs[b])]]
    IN  [i \in 1..size |-> [j \in 1..size |->
            IF coord(i) # coord(j) THEN 0
            ELSE (cov[((i - 1) \div S.dim) + 1][((j - 1) \div S.dim) + 1] * S.scale) \div 4]]
TreeClauses ==
    IF ~S.ok THEN {P("completes")}
    ELSE UNION {Clause(P("marginals"),
                   MClose(S.queries[i][2], TreeExpected(S.queries[i][1]), Len(S.queries[i][1]) * S.dim))
                : i \in 1..Len(S.queries)}

Clauses == IF S.kind = "tree" THEN TreeClauses ELSE CovClauses
Events == IF S.kind = "tree" THEN Len(S.queries) ELSE Len(S.objs)

Init == n \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, Events, Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
