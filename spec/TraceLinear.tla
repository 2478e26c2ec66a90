---------------------------- MODULE TraceLinear ----------------------------
(***************************************************************************)
(* Validates recorded sparse matrix operations (C10), linear solves (C11)  *)
(* and histories of requests (C12).                                        *)
(***************************************************************************)
EXTENDS Coo, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]

----------------------------------------------------------------------------
(* C10.  Entries, vectors and products are multiples of 1 / unit each, so  *)
(* products are multiples of 1 / unit^2.                                   *)
M == Dense(S.entries, S.rows, S.cols)
C10Clauses ==
    LET mt == TransposeN(M, S.cols)
        obs(name, ok) == Clause("C10." \o name, ok)
        prod == MatVec(M, S.x)
        tprod == MatVec(mt, S.y)
    IN  obs("accepted", \A i \in 1..Len(S.errs) : S.errs[i] = "")
        \cup obs("product", S.Ax = prod)
        \cup obs("product_compiled", S.Axjit = prod)
        \cup obs("transpose_product", S.ATy = tprod)
        \cup obs("transpose_shape", S.Tshape = <<S.cols, S.rows>> /\ S.TTshape = <<S.rows, S.cols>>)
        \cup obs("transpose_twice", S.TTx = prod)
        \cup obs("dense", S.dense = M)
        \cup obs("dense_transposed", S.Tdense = mt)
        \cup obs("to_scipy", S.scipy = M /\ S.Tscipy = mt)
        \cup obs("from_scipy", S.back = M /\ S.backx = prod)
        \cup obs("refused", \A i \in 1..Len(S.refused) : S.refused[i])

----------------------------------------------------------------------------
(* C11.  lam4 is 4 * damping; x is recorded in thousandths, or finer.      *)
ScaleX == S.sx
LhsM(diag) == LET g == Gram(M)
              IN  [i \in 1..S.cols |-> [j \in 1..S.cols |->
                     4 * g[i][j] + (IF i = j THEN S.lam4 * diag[i] ELSE 0)]]
XOk(x) == Len(x) = S.cols /\ Within(x, IF ScaleX > 1000 THEN 4000000 ELSE 200000)
\* 4000 * (M x - b)
Defect(m, x) == VSub(MatVec(m, x), VScale(4 * ScaleX, S.atb))
\* rounding of x, and single precision of the solver
Slack(m, i) == Norm1(m[i]) + (Norm1(m[i]) * NormInf(S.atb)) \div 200 + 4
Solved(m, x) == \A i \in 1..S.cols : Abs(Defect(m, x)[i]) <= Slack(m, i)
Damping == IF S.solver = "cholmod" THEN [i \in 1..S.cols |-> 1] ELSE GramDiag(M)

\* inexact: norm of the defect at most eta / (iteration + 1) times norm of b.
\* norms in hundredths
NormC(v) == ISqrt(SatSumSq(v))
InexactDefect(d, norms) ==
    LET round == SeqSum([i \in 1..S.cols |-> norms[i] \div 80 + 1])    \* of the recorded x
        dn == NormC([i \in 1..S.cols |-> d[i] \div 40])     \* hundredths
        bn == NormC(VScale(100, S.atb))
    IN  dn * 100 * (S.iteration + 1) <= S.eta100 * bn + 100 * (S.iteration + 1) * (2 + round + bn \div 500)
InexactOk(m, x) == InexactDefect(Defect(m, x), [i \in 1..S.cols |-> Norm1(m[i])])

C11One(r) ==
    IF ~r.ok THEN {"C11.accepted"}
    ELSE IF ~XOk(r.x) THEN {"C11.finite"}
    ELSE LET m == LhsM(Damping)
             good == IF S.solver = "inexact" THEN InexactOk(m, r.x) ELSE Solved(m, r.x)
             \* what is documented, except that squares are taken before repeated
             \* entries are summed
             me == LhsM(EntryDiag(S.entries, S.cols))
             known == /\ S.solver # "cholmod" /\ S.lam4 # 0 /\ ~RepeatFree(S.entries)
                      /\ IF S.solver = "inexact" THEN InexactOk(me, r.x) ELSE Solved(me, r.x)
         IN  IF good THEN {} ELSE IF known THEN {"C11.damping_of_repeated_entries"}
             ELSE {"C11." \o S.solver}

\* Long chains: without repeated entries, and products computed entry by entry.
\* Conjugate gradients stop when the defect is 1 / 100000 of the right-hand side;
\* three times that to be safe from rounding.
ChainSlack(norm) ==
    IF S.solver = "cg" THEN norm + (12 * ScaleX * (ISqrt(SatSumSq(S.atb)) + 1)) \div 100000
    ELSE norm + (norm * NormInf(S.atb)) \div 200 + 4
AbsEntries == [k \in 1..Len(S.entries) |-> <<S.entries[k][1], S.entries[k][2], Abs(S.entries[k][3])>>]
Lhs(es, diag, x) ==
    LET p == CooMatVec(CooT(es), S.cols, CooMatVec(es, S.rows, x, "ok"), "ok")
    IN  [i \in 1..S.cols |-> 4 * p[i] + S.lam4 * diag[i] * x[i]]
C11Chain(r, diag, norms) ==
    IF ~r.ok THEN {"C11.accepted"}
    ELSE IF ~XOk(r.x) THEN {"C11.finite"}
    ELSE LET d == VSub(Lhs(S.entries, diag, r.x), VScale(4 * ScaleX, S.atb))
             good == IF S.solver = "inexact" THEN InexactDefect(d, norms)
                     ELSE \A i \in 1..S.cols : Abs(d[i]) <= ChainSlack(norms[i])
         IN  Clause("C11." \o S.solver, good)
C11Chains ==
    LET diag == IF S.solver = "cholmod" THEN [i \in 1..S.cols |-> 1] ELSE EntryDiag(S.entries, S.cols)
        norms == Lhs(AbsEntries, diag, [i \in 1..S.cols |-> 1])
    IN  UNION {C11Chain(S.runs[i], diag, norms) : i \in 1..Len(S.runs)}

\* all variants (order of entries, compiled) give the same step
C11Clauses ==
    (IF S.chain THEN C11Chains ELSE UNION {C11One(S.runs[i]) : i \in 1..Len(S.runs)})
    \cup Clause("C11.entry_order",
           (S.solver # "inexact" /\ \A i \in 1..Len(S.runs) : S.runs[i].ok /\ XOk(S.runs[i].x)) =>
             \A i \in 2..Len(S.runs) : VNear(S.runs[1].x, S.runs[i].x, 3 + NormInf(S.runs[1].x) \div 2000))

----------------------------------------------------------------------------
(* C12.  Records of kind "fresh" say what a fresh process answers; those   *)
(* of kind "history" what a process with a history answers.                *)
Fresh(key) == Log[CHOOSE i \in 1..Len(Log) : Log[i].kind = "fresh" /\ Log[i].key = key]
HasFresh(key) == \E i \in 1..Len(Log) : Log[i].kind = "fresh" /\ Log[i].key = key
Answer(a) == LET f == Fresh(a.key)
             IN  /\ a.ok = f.ok
                 /\ a.ok => (Len(a.x) = Len(f.x) /\
                              \A i \in 1..Len(a.x) : Near(a.x[i], f.x[i], 3 + Abs(f.x[i]) \div 5000))
C12Clauses ==
    IF \E i \in 1..Len(S.answers) : ~HasFresh(S.answers[i].key) THEN {"scenario.malformed"}
    ELSE UNION {Clause("C12." \o S.answers[i].what, Answer(S.answers[i])) : i \in 1..Len(S.answers)}

Clauses == CASE S.kind = "coo" -> C10Clauses [] S.kind = "linear" -> C11Clauses
             [] S.kind = "history" -> C12Clauses [] S.kind = "fresh" -> {}
Events == CASE S.kind = "linear" -> Len(S.runs) [] S.kind = "history" -> Len(S.answers) [] OTHER -> 1

Init == n \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, Events, Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
