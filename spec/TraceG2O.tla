------------------------------ MODULE TraceG2O ------------------------------
(***************************************************************************)
(* Validates loaded pose graph files (C21).                                *)
(* lines: what was written to the file.  Observed:                         *)
(*   refused, or else in the order of insertion                            *)
(*   poses  [t, p]  type and parameters (times FS) of the initial poses    *)
(*   edges  [from, to, p, info, res]  connected poses by position in       *)
(*          poses, measurement, information matrix (times IS), residual at *)
(*          the initial poses (times RS)                                   *)
(*   priors [at, p, info]   others  number of factors of other kinds       *)
(*   cost   of the whole graph at the initial poses (times CS)             *)
(***************************************************************************)
EXTENDS G2O, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]
T == S.t

IS == 100
RS == 400
CS == 100
Tol == 12
Most == 12 * FS
N == LDim(T)

Pm(p) == Len(p) = Dim(T) /\ Within(p, Most)
SamePose(p, nums) == Pm(p) /\ PNear(FPose(T, p), FromFile(T, nums), Tol)
\* entries of information matrices to half a percent of the largest
InfoTol(m) == 2 + SeqMax([i \in 1..Len(m) |-> NormInf(m[i])]) \div 200
SameInfo(obs, info) == LET m == FromUpper(N, info) IN IsMat(obs, N, N) /\ MWithin(obs, 1000000) /\ MNear(obs, m, InfoTol(m))

Expected == ReadAll(S.lines)
SameEdge(o, e) == /\ o.from = e.from /\ o.to = e.to /\ SamePose(o.p, e.nums) /\ SameInfo(o.info, e.info)
EqualEdges(e, f) == e.from = f.from /\ e.to = f.to /\ e.nums = f.nums /\ e.info = f.info

\* rows of the matrix applied to r, then r again; all within 32 bits
Quad(m, r) == SumTo([i \in 1..Len(r) |-> RDiv(r[i] * RDiv(Dot(m[i], r), RS), RS)], Len(r))
CostOf(edges) == SumTo([k \in 1..Len(edges) |-> Quad(edges[k].info, edges[k].res)], Len(edges))
CostWell == \A k \in 1..Len(S.edges) : IsMat(S.edges[k].info, N, N) /\ MWithin(S.edges[k].info, 20000)
                                       /\ Len(S.edges[k].res) = N /\ Within(S.edges[k].res, 3 * RS)

Counts(x) ==
    LET obs == S.edges
    IN  /\ Len(obs) = Len(x.edges)
        /\ \A k \in 1..Len(x.edges) :
              Cardinality({i \in 1..Len(obs) : SameEdge(obs[i], x.edges[k])})
              = Cardinality({i \in 1..Len(x.edges) : EqualEdges(x.edges[i], x.edges[k])})
Connects(x) == \A k \in 1..Len(x.edges) : \E i \in 1..Len(S.edges) : S.edges[i].from = x.edges[k].from /\ S.edges[i].to = x.edges[k].to
Measures(x) == \A k \in 1..Len(x.edges) : \E i \in 1..Len(S.edges) : SamePose(S.edges[i].p, x.edges[k].nums)
Informs(x) == \A k \in 1..Len(x.edges) : \E i \in 1..Len(S.edges) : SameInfo(S.edges[i].info, x.edges[k].info)

Anchored(x) ==
    /\ Len(S.priors) = 1 /\ S.others = 0
    /\ LET p == S.priors[1]
       IN  /\ p.at = 0 /\ SamePose(p.p, x.poses[1])
           /\ IsMat(p.info, N, N)
           /\ \A i \in 1..N : p.info[i][i] >= IS /\ \A j \in 1..N : i # j => p.info[i][j] = 0
CostTol == 60 + 8 * Len(S.edges) + Abs(S.cost) \div 50
Clauses ==
    LET x == Expected
    IN  IF x.refused THEN Clause("C21.refuses", S.refused)
        ELSE IF Len(x.poses) = 0 THEN {"scenario.malformed"}
        ELSE IF S.refused THEN {"C21.loads"}
        ELSE Clause("C21.vertices", /\ Len(S.poses) = Len(x.poses)
                                    /\ \A k \in 1..Len(x.poses) : S.poses[k].t = T)
             \cup Clause("C21.initial_poses", \A k \in 1..MinI(Len(S.poses), Len(x.poses)) : SamePose(S.poses[k].p, x.poses[k]))
             \cup Clause("C21.connects", Connects(x))
             \cup Clause("C21.measurements", Measures(x))
             \cup Clause("C21.information", Informs(x))
             \cup Clause("C21.constraints", Counts(x))
             \cup Clause("C21.anchor", Anchored(x))
             \cup Clause("C21.cost", CostWell => Near(S.cost, CostOf(S.edges), CostTol))

Init == n \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, Len(S.lines), Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
