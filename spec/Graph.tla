------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* Factor graphs: what residual, Jacobian, cost and likelihood mean for a  *)
(* bag of factors, and the mechanism (grouping, stacking, coordinates) by  *)
(* which the implementation evaluates them.                                *)
(*                                                                         *)
(* A factor is a record                                                    *)
(*   cls    class: "poly", "neg", "named", "pair", "ana"                   *)
(*   vs     variables, in declared order (repetitions allowed)             *)
(*   c      R integers             constant part of the residual           *)
(*   q      R x n integers         linear part (n: parameters of all vs)   *)
(*   b      <<row, i, j, coef>>s   bilinear part coef * x[i] * x[j]        *)
(*   gain   integer, a static option of the factor                         *)
(*   pad    sequence of integers, a parameter of varying shape; its sum is *)
(*          added to every residual entry                                  *)
(*   bias   integer, a scalar parameter, added to every residual entry     *)
(*   js     given analytical Jacobian, R x local dims ("ana" only)         *)
(*   noise  [kind, d, w, inner, num, den]                                  *)
(*     "diag": d, square root precision diagonal                           *)
(*     "gauss": w, square root precision matrix                            *)
(*     "huber": threshold num / den around a "diag" or "gauss" model,      *)
(*              named by inner                                             *)
(* Whitened quantities are scaled by K, because Huber factors that are     *)
(* multiples of 1/12 are the only ones used here.                          *)
(***************************************************************************)
EXTENDS Layout

K == 12

XOf(f, val) == Flatten([p \in 1..Len(f.vs) |-> val[f.vs[p]]])
ResDim(f) == Len(f.c)
Sign(f) == IF f.cls = "neg" THEN -1 ELSE 1

BilTerm(t, x) == t[4] * x[t[2]] * x[t[3]]
BilRow(f, i, x) ==
    SumTo([k \in 1..Len(f.b) |-> IF f.b[k][1] = i THEN BilTerm(f.b[k], x) ELSE 0], Len(f.b))

RawRes(f, val) ==
    LET x == XOf(f, val)
        shift == SeqSum(f.pad) + f.bias
    IN  [i \in 1..ResDim(f) |->
            Sign(f) * f.gain * (f.c[i] + Dot(f.q[i], x) + BilRow(f, i, x) + shift)]

\* derivative with respect to all parameters
RawJacX(f, val) ==
    LET x == XOf(f, val)
    IN  [i \in 1..ResDim(f) |-> [j \in 1..Len(x) |->
            Sign(f) * f.gain *
              (f.q[i][j] +
               SumTo([k \in 1..Len(f.b) |->
                        IF f.b[k][1] # i THEN 0
                        ELSE (IF f.b[k][2] = j THEN f.b[k][4] * x[f.b[k][3]] ELSE 0)
                           + (IF f.b[k][3] = j THEN f.b[k][4] * x[f.b[k][2]] ELSE 0)],
                     Len(f.b)))]]

DimsBefore(types, f, p) == SumTo([i \in 1..(p - 1) |-> Dim(types[f.vs[i]])], p - 1)
LDimsBefore(types, f, p) == SumTo([i \in 1..(p - 1) |-> LDim(types[f.vs[i]])], p - 1)

ColSlice(m, start, n) == [i \in 1..Len(m) |-> SubSeqAt(m[i], start, n)]

\* derivative with respect to the local delta of the variable at position p
RawJacAt(types, f, val, p) ==
    LET t == types[f.vs[p]]
    IN  IF f.cls = "ana" THEN ColSlice(f.js, LDimsBefore(types, f, p) + 1, LDim(t))
        ELSE MatMul(ColSlice(RawJacX(f, val), DimsBefore(types, f, p) + 1, Dim(t)),
                    RetractJac(t, val[f.vs[p]]))

----------------------------------------------------------------------------
(* Noise models *)
InnerWhiten(nm, r) ==
    LET kind == IF nm.kind = "huber" THEN nm.inner ELSE nm.kind
    IN  IF kind = "diag" THEN [i \in 1..Len(r) |-> nm.d[i] * r[i]] ELSE MatVec(nm.w, r)
InnerWhitenJac(nm, m) ==
    LET kind == IF nm.kind = "huber" THEN nm.inner ELSE nm.kind
    IN  IF kind = "diag" THEN [i \in 1..Len(m) |-> VScale(nm.d[i], m[i])] ELSE MatMul(nm.w, m)

\* K times the factor sqrt(threshold / norm); K for inliers
Inlier(nm, u) == SumSq(u) * nm.den * nm.den <= nm.num * nm.num
HuberK(nm, r) ==
    LET u == InnerWhiten(nm, r)
        n == ISqrt(SumSq(u))
    IN  IF nm.kind # "huber" \/ Inlier(nm, u) THEN K
        ELSE CHOOSE h \in 1..K : h * h * nm.den * n = K * K * nm.num
\* scenarios have to stay on the grid
HuberOnGrid(nm, r) ==
    nm.kind = "huber" =>
        LET u == InnerWhiten(nm, r)
        IN  Inlier(nm, u) \/
              (/\ IsSquare(SumSq(u))
               /\ \E h \in 1..K : h * h * nm.den * ISqrt(SumSq(u)) = K * K * nm.num)

WRes(f, val) == LET r == RawRes(f, val)
                IN  VScale(HuberK(f.noise, r), InnerWhiten(f.noise, r))
WJacAt(types, f, val, p) ==
    MatScale(HuberK(f.noise, RawRes(f, val)), InnerWhitenJac(f.noise, RawJacAt(types, f, val, p)))

----------------------------------------------------------------------------
(* The meaning of a bag of factors, given as a sequence *)
VarsOf(fs) == UNION {Range(fs[i].vs) : i \in 1..Len(fs)}

\* Row i of factor f: K * residual and K * derivative for every variable
RowOf(types, f, val, vars, i) ==
    LET jac == [p \in 1..Len(f.vs) |-> WJacAt(types, f, val, p)]
    IN  [res |-> WRes(f, val)[i],
         jac |-> [v \in vars |->
                    LET ps == SelectSeq([p \in 1..Len(f.vs) |-> p], LAMBDA p : f.vs[p] = v)
                    IN  [k \in 1..LDim(types[v]) |->
                            SumTo([m \in 1..Len(ps) |-> jac[ps[m]][i][k]], Len(ps))]]]
FactorRows(types, f, val, vars) ==
    LET res == WRes(f, val)
        jac == [p \in 1..Len(f.vs) |-> WJacAt(types, f, val, p)]
    IN  [i \in 1..ResDim(f) |->
            [res |-> res[i],
             jac |-> [v \in vars |->
                        LET ps == SelectSeq([p \in 1..Len(f.vs) |-> p], LAMBDA p : f.vs[p] = v)
                        IN  [k \in 1..LDim(types[v]) |->
                                SumTo([m \in 1..Len(ps) |-> jac[ps[m]][i][k]], Len(ps))]]]]
GraphRows(types, fs, val) ==
    LET vars == VarsOf(fs)
    IN  Flatten([i \in 1..Len(fs) |-> FactorRows(types, fs[i], val, vars)])
GraphRes(fs, val) == Flatten([i \in 1..Len(fs) |-> WRes(fs[i], val)])
\* K^2 times the cost
GraphCost(fs, val) == SumSq(GraphRes(fs, val))

----------------------------------------------------------------------------
(* The mechanism: factors of equal structure are stacked, groups and       *)
(* variables are kept in order of first appearance                         *)
NoiseKey(nm) == <<nm.kind, IF nm.kind = "huber" THEN nm.inner ELSE "">>
GroupKey(types, f, variant) ==
    <<f.cls, f.gain, [p \in 1..Len(f.vs) |-> types[f.vs[p]]], NoiseKey(f.noise), ResDim(f)>>
      \o (IF variant = "noshape" THEN <<>> ELSE <<Len(f.pad), Len(f.b)>>)

GroupsOf(types, fs, variant) ==
    LET keys == [i \in 1..Len(fs) |-> GroupKey(types, fs[i], variant)]
        ks == Distinct(keys)
    IN  [g \in 1..Len(ks) |-> SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : keys[i] = ks[g])]

GraphVarSeq(fs) == Distinct(Flatten([i \in 1..Len(fs) |-> fs[i].vs]))

\* stacking takes static options and parameter shapes from the first factor
Stacked(fs, group, i, variant) ==
    IF variant = "noshape"
    THEN [fs[group[i]] EXCEPT !.pad = [j \in 1..Len(fs[group[1]].pad) |->
                IF j <= Len(fs[group[i]].pad) THEN fs[group[i]].pad[j] ELSE 0]]
    ELSE fs[group[i]]

MechRes(types, fs, val, variant) ==
    LET gs == GroupsOf(types, fs, variant)
    IN  Flatten([g \in 1..Len(gs) |->
            Flatten([i \in 1..Len(gs[g]) |-> WRes(Stacked(fs, gs[g], i, variant), val)])])

\* <<row, column, value>> triples in the order in which they are emitted:
\* group, then position, then factor, residual entry, local coordinate
MechCoo(types, fs, val, lay, variant) ==
    LET gs == GroupsOf(types, fs, variant)
        rd(g) == ResDim(fs[gs[g][1]])
        \* rows before group g; the broken variant counts factors, not rows
        off(g) == SumTo([h \in 1..(g - 1) |->
                    IF variant = "offset" THEN Len(gs[h]) ELSE Len(gs[h]) * rd(h)], g - 1)
    IN  Flatten([g \in 1..Len(gs) |->
          Flatten([p \in 1..Len(fs[gs[g][1]].vs) |->
            Flatten([i \in 1..Len(gs[g]) |->
                LET f == fs[gs[g][i]]
                    jac == WJacAt(types, f, val, p)
                    v == f.vs[p]
                    ld == LDim(types[v])
                IN  Flatten([r \in 1..rd(g) |-> [k \in 1..ld |->
                        <<off(g) + (i - 1) * rd(g) + r, LStart(lay, v) + k, jac[r][k]>>]])])])])

\* the rows that residual vector and coordinate list denote together
DenoteRows(types, res, coo, lay) ==
    [i \in 1..Len(res) |->
        LET mine == SelectSeq(coo, LAMBDA e : e[1] = i)
        IN  [res |-> res[i],
             jac |-> [v \in LVars(lay) |-> [k \in 1..LDim(types[v]) |->
                        SumTo([m \in 1..Len(mine) |->
                                IF mine[m][2] = LStart(lay, v) + k THEN mine[m][3] ELSE 0],
                              Len(mine))]]]]
=============================================================================
