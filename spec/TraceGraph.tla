----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Validates recorded evaluations of real graphs and noise models against  *)
(* Graph and FactorInputs.  One initial state and one step per scenario;   *)
(* the verdict names all failing clauses.                                  *)
(***************************************************************************)
EXTENDS Graph, FactorInputs, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
S == Log[n]
P(name) == S.prop \o "." \o name

----------------------------------------------------------------------------
(* Graphs *)
Types == S.types
Val == S.values
Fs == S.factors
Permuted(perm) == [i \in 1..Len(perm) |-> Fs[perm[i]]]

RECURSIVE RowSum(_, _, _)
RowSum(row, col, m) == IF m = 0 THEN 0
                       ELSE (IF row[m][1] = col THEN row[m][2] ELSE 0) + RowSum(row, col, m - 1)
\* the rows that a recorded evaluation denotes, variable by variable
ObsRows(e) ==
    [i \in 1..Len(e.rows) |->
        [res |-> e.res[i],
         jac |-> [v \in Range(S.used) |->
                    [k \in 1..LDim(Types[v]) |->
                        RowSum(e.rows[i], LStart(e.lay, v) + k, Len(e.rows[i]))]]]]

\* everything needed to speak about rows
Regular(e) ==
    /\ WellFormed(Types, e.lay, S.used) /\ e.lay.local
    /\ Len(e.rows) = Len(e.res) /\ e.stray = 0
    /\ e.shape = <<Len(e.res), e.lay.dim>> /\ e.rdim = Len(e.res)
    \* no data of ours leads to larger numbers
    /\ \A i \in 1..Len(e.rows) : Len(e.rows[i]) <= 200 /\ \A j \in 1..Len(e.rows[i]) : Abs(e.rows[i][j][2]) <= 9000000

TotalRows == SumTo([i \in 1..Len(Fs) |-> ResDim(Fs[i])], Len(Fs))

\* K^2 * cost, allowing for single precision
CostNear(obs, c) == obs # Bad /\ Abs(obs - c) <= 2 + c \div 100000

\* -- C05
DirectRaw(i) == S.direct[i].ok /\ S.direct[i].raw = RawRes(Fs[i], Val)
ObsWhite == Flatten([i \in 1..Len(Fs) |-> S.direct[i].white])
C05Clauses(e) ==
    IF ~e.ok THEN {P("accepted")}
    ELSE Clause(P("dimension"), Len(e.res) = TotalRows /\ e.rdim = TotalRows)
         \cup Clause(P("residuals"), SameBag(e.res, ObsWhite))
         \cup Clause(P("cost_residuals"), e.costres = e.res)
         \cup Clause(P("cost"), CostNear(e.cost, SatSumSq(e.res)))
C05All == UNION {C05Clauses(S.evals[i]) : i \in 1..Len(S.evals)}
          \cup Clause(P("factor"), \A i \in 1..Len(Fs) : DirectRaw(i))

\* -- C06
DirectJac(i) ==
    /\ S.direct[i].ok
    /\ S.direct[i].jacs = [p \in 1..Len(Fs[i].vs) |-> RawJacAt(Types, Fs[i], Val, p)]
RowsRight(e) == Regular(e) /\ SameBag(ObsRows(e), GraphRows(Types, Fs, Val))
C06All == UNION {IF ~S.evals[i].ok THEN {P("accepted")}
                 ELSE Clause(P("rows"), RowsRight(S.evals[i])) : i \in 1..Len(S.evals)}
          \cup Clause(P("factor"), \A i \in 1..Len(S.direct) : DirectJac(i))

\* -- C03 and C07: relative to the first evaluation
SameMeaning(a, b) ==
    /\ Regular(a) = Regular(b)
    /\ Range(a.lay.order) = Range(b.lay.order)
    /\ Len(a.res) = Len(b.res)
    /\ Regular(a) => SameBag(ObsRows(a), ObsRows(b))
    /\ Abs(a.cost - b.cost) <= 4 + a.cost \div 100000
    /\ a.nllok = b.nllok
    /\ a.nllok => Abs(a.nll - b.nll) <= 20 + Abs(a.nll) \div 100000
RelativeAll(name) ==
    UNION {Clause(P("accepted"), S.evals[i].ok = S.evals[1].ok)
           \cup Clause(P(name), (S.evals[1].ok /\ S.evals[i].ok)
                                   => SameMeaning(S.evals[1], S.evals[i])) : i \in 2..Len(S.evals)}

\* -- C08: joint likelihood.  Logarithms, times 1000
RECURSIVE Ln1000(_)
Ln1000(x) == IF x % 2 = 0 THEN 693147 + Ln1000(x \div 2)       \* millionths
             ELSE IF x % 3 = 0 THEN 1098612 + Ln1000(x \div 3)
             ELSE IF x % 5 = 0 THEN 1609438 + Ln1000(x \div 5)
             ELSE IF x % 7 = 0 THEN 1945910 + Ln1000(x \div 7)
             ELSE 0
Minor(m, j) == [r \in 1..(Len(m) - 1) |-> [c \in 1..(Len(m) - 1) |-> m[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1
          ELSE SumTo([j \in 1..Len(m) |->
                 (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] *
                 (IF m[1][j] = 0 THEN 0 ELSE Det(Minor(m, j)))], Len(m))
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
SqrtPrecDet(nm) == IF nm.kind = "diag" THEN Abs(ProdTo(nm.d, Len(nm.d))) ELSE Abs(Det(nm.w))
IsGaussian(nm) == nm.kind \in {"diag", "gauss"}
Nll1000 == (GraphCost(Fs, Val) \div (K * K)) * 1000
           - (2 * SumTo([i \in 1..Len(Fs) |-> Ln1000(SqrtPrecDet(Fs[i].noise))], Len(Fs))) \div 1000
C08Clauses(e) ==
    IF ~e.ok THEN {P("accepted")}
    ELSE IF \A i \in 1..Len(Fs) : IsGaussian(Fs[i].noise)
    THEN Clause(P("nll"), e.nllok /\ Abs(e.nll - Nll1000) <= 20 + Abs(Nll1000) \div 50000)
         \cup Clause(P("rows"), RowsRight(e))
    ELSE Clause(P("nll_refused"), ~e.nllok)
C08All == UNION {C08Clauses(S.evals[i]) : i \in 1..Len(S.evals)}

\* -- C09
DirectWhite(i) ==
    /\ S.direct[i].ok
    /\ S.direct[i].white = WRes(Fs[i], Val)
DirectWJac(i) ==
    /\ S.direct[i].ok
    /\ S.direct[i].wjacs = [p \in 1..Len(Fs[i].vs) |-> WJacAt(Types, Fs[i], Val, p)]
InlierF(f) == f.noise.kind # "huber" \/ Inlier(f.noise, InnerWhiten(f.noise, RawRes(f, Val)))
C09All ==
    Clause(P("inlier_residual"), \A i \in 1..Len(Fs) : InlierF(Fs[i]) => DirectWhite(i))
    \cup Clause(P("inlier_jacobian"), \A i \in 1..Len(Fs) : InlierF(Fs[i]) => DirectWJac(i))
    \cup Clause(P("outlier_residual"), \A i \in 1..Len(Fs) : ~InlierF(Fs[i]) => DirectWhite(i))
    \cup Clause(P("outlier_jacobian"), \A i \in 1..Len(Fs) : ~InlierF(Fs[i]) => DirectWJac(i))
    \cup UNION {IF ~S.evals[i].ok THEN {P("accepted")}
                ELSE Clause(P("rows"), RowsRight(S.evals[i])) : i \in 1..Len(S.evals)}

\* -- C20: inputs by position, seen through the values of the residuals
C20Graph ==
    Clause(P("direct"), \A i \in 1..Len(Fs) : DirectRaw(i))
    \cup Clause(P("direct_jacobian"), \A i \in 1..Len(Fs) : DirectJac(i))
    \cup UNION {IF ~S.evals[i].ok THEN {P("accepted")}
                ELSE Clause(P("stacked"), RowsRight(S.evals[i])) : i \in 1..Len(S.evals)}

GraphClauses ==
    CASE ~(\A i \in 1..Len(Fs) : HuberOnGrid(Fs[i].noise, RawRes(Fs[i], Val))) -> {"scenario.malformed"}
      [] S.prop = "C05" -> C05All [] S.prop = "C06" -> C06All
      [] S.prop = "C03" -> RelativeAll("evaluation") [] S.prop = "C07" -> RelativeAll("meaning")
      [] S.prop = "C08" -> C08All [] S.prop = "C09" -> C09All [] S.prop = "C20" -> C20Graph

----------------------------------------------------------------------------
(* Gaussian noise given by covariance or square root precision, with a     *)
(* residual r and a Jacobian j.  The scenario comes with l, u and uj such  *)
(* that covariance = l lT, r = l u and j = l uj, for which the Mahalanobis *)
(* products are plain dot products.                                        *)
Fix(x) == x * S.scale
FixNear(obs, x) == obs # Bad /\ Abs(obs - Fix(x)) <= 2 + Abs(Fix(x)) \div 5000
WhiteWell == CASE S.how = "cov" -> S.cov = MatMul(S.l, Transpose(S.l)) /\ S.r = MatVec(S.l, S.u)
                                   /\ S.j = MatMul(S.l, S.uj)
               [] S.how = "diagcov" -> (\A i \in 1..Len(S.r) :
                                          /\ S.covdiag[i] = S.l[i][i] * S.l[i][i]
                                          /\ S.r[i] = S.l[i][i] * S.u[i])
                                       /\ S.j = MatMul(S.l, S.uj)
               [] S.how = "prec" -> S.u = MatVec(S.w, S.r) /\ S.uj = MatMul(S.w, S.j)
               [] S.how = "diagprec" -> (\A i \in 1..Len(S.r) : S.u[i] = S.d[i] * S.r[i])
                                        /\ S.uj = [i \in 1..Len(S.r) |-> VScale(S.d[i], S.j[i])]
Cols(m) == Transpose(m)
WhiteClauses ==
    IF ~WhiteWell THEN {"scenario.malformed"}
    ELSE IF ~S.ok THEN {P("accepted")}
    ELSE LET c == Cols(S.uj)
         IN  Clause(P("dimension"), S.dim = Len(S.r))
             \cup Clause(P("mahalanobis"), FixNear(S.ww, SumSq(S.u)))
             \cup Clause(P("same_map"), Len(S.jw) = Len(c) /\
                          \A a \in 1..Len(c) : Abs(S.jw[a] - Fix(Dot(c[a], S.u))) <=
                               2 + (S.scale * (SumSq(c[a]) + SumSq(S.u))) \div 5000)
             \cup Clause(P("jacobian"), Len(S.jj) = Len(c) /\
                          \A a, b \in 1..Len(c) : Abs(S.jj[a][b] - Fix(Dot(c[a], c[b]))) <=
                               2 + (S.scale * (SumSq(c[a]) + SumSq(c[b]))) \div 5000)

\* zero residuals, precision base^exp in n dimensions: -2 * n * exp * ln(base)
NllExpected == SumTo([i \in 1..Len(S.factors) |->
                  -2 * S.factors[i].n * S.factors[i].exp * (Ln1000(S.factors[i].base) \div 1000)],
                  Len(S.factors))
NllClauses == IF ~S.ok THEN {P("accepted")}
              ELSE Clause(P("nll_range"), S.nll # Bad /\ Abs(S.nll - NllExpected) <= 20 + Abs(NllExpected) \div 500)

----------------------------------------------------------------------------
(* Declared inputs *)
InputClauses ==
    IF Accepts(S.hint, S.types)
    THEN Clause(P("accepted"), S.graph_ok /\ \A i \in 1..Len(S.paths) : S.paths[i].ok)
         \cup UNION {IF ~S.paths[i].ok THEN {}
                     ELSE Clause(P("wrapped"), S.paths[i].calls > 0 => S.paths[i].wraps = <<Wrap(S.hint)>>)
                          \cup Clause(P("position"), S.paths[i].res = S.firsts) : i \in 1..Len(S.paths)}
    ELSE Clause(P("refused"), \A i \in 1..Len(S.paths) : ~S.paths[i].ok)
         \cup Clause(P("refused_before"), \A i \in 1..Len(S.paths) : S.paths[i].calls = 0)

Clauses == CASE S.kind = "graph" -> GraphClauses [] S.kind = "white" -> WhiteClauses
             [] S.kind = "nll" -> NllClauses [] S.kind = "inputs" -> InputClauses
Events == CASE S.kind = "graph" -> Len(S.evals) + Len(S.direct)
            [] S.kind = "inputs" -> Len(S.paths) [] OTHER -> 1

Init == n \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ PrintT(<<"VERDICT", S.id, Events, Clauses>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
