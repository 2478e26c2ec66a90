------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Integer vectors, matrices and bags, shared by all other modules.        *)
(* Vectors are sequences of integers; matrices are sequences of rows.      *)
(* Real numbers observed on the implementation are integers here too:      *)
(* either exact (all test data is chosen so that results are integers) or  *)
(* in fixed point, with the scale and the tolerance stated where used.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* What the harness records instead of a number that is not finite or that is
\* not on the integer / fixed point grid.
Bad == 999999999

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SeqSum(s) == SumTo(s, Len(s))

RECURSIVE FlattenTo(_, _)
FlattenTo(ss, n) == IF n = 0 THEN <<>> ELSE FlattenTo(ss, n - 1) \o ss[n]
Flatten(ss) == FlattenTo(ss, Len(ss))

RECURSIVE MaxTo(_, _)
MaxTo(s, n) == IF n = 0 THEN 0 ELSE MaxI(s[n], MaxTo(s, n - 1))
SeqMax(s) == MaxTo(s, Len(s))       \* of non-negative numbers

Range(s) == {s[i] : i \in DOMAIN s}
IsInjective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Indices(s, x) == {i \in DOMAIN s : s[i] = x}
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

Zeros(n) == [i \in 1..n |-> 0]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Dot(a, b) == SumTo([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
SumSq(a) == Dot(a, a)
NormInf(a) == SeqMax([i \in 1..Len(a) |-> Abs(a[i])])
Norm1(a) == SumTo([i \in 1..Len(a) |-> Abs(a[i])], Len(a))

NumCols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
MatVec(m, x) == [i \in 1..Len(m) |-> Dot(m[i], x)]
TransposeN(m, cols) == [j \in 1..cols |-> [i \in 1..Len(m) |-> m[i][j]]]
Transpose(m) == TransposeN(m, NumCols(m))
MatMul(a, b) == LET bt == Transpose(b)
                IN  [i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> Dot(a[i], bt[j])]]
MatScale(k, m) == [i \in 1..Len(m) |-> VScale(k, m[i])]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

\* Rectangularity guards: verdicts must be total, whatever was recorded.
IsVec(x, n) == Len(x) = n
IsMat(m, r, c) == Len(m) = r /\ \A i \in 1..Len(m) : Len(m[i]) = c

SubSeqAt(s, start, n) == [i \in 1..n |-> s[start + i - 1]]

\* Bags of sequence elements.
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

Near(a, b, tol) == Abs(a - b) <= tol
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
MNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VNear(a[i], b[i], tol)

\* floor(sqrt(x)) for 0 <= x < 2^31, by bisection
RECURSIVE SqrtBis(_, _, _)
SqrtBis(x, lo, hi) == \* lo^2 <= x < hi^2
    IF hi - lo <= 1 THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN  IF mid * mid <= x THEN SqrtBis(x, mid, hi) ELSE SqrtBis(x, lo, mid)
ISqrt(x) == IF x <= 0 THEN 0 ELSE SqrtBis(x, 0, 46341)
IsSquare(x) == x >= 0 /\ ISqrt(x) * ISqrt(x) = x

\* Recorded numbers can be anything; these stay within 32 bits.
Big == 1000000000
SatSq(x) == IF Abs(x) > 30000 THEN Big ELSE x * x
RECURSIVE SatSumSqTo(_, _)
SatSumSqTo(s, n) == IF n = 0 THEN 0 ELSE MinI(Big, SatSq(s[n]) + SatSumSqTo(s, n - 1))
SatSumSq(s) == SatSumSqTo(s, Len(s))
\* two entries below 32000 each
SatSq2(x) == IF Abs(x) > 32000 THEN Big ELSE x * x
SatSumSq2(s) == LET t == SatSq2(s[1])
                    u == SatSq2(s[2])
                IN  t + u
Within(s, bound) == \A i \in 1..Len(s) : Abs(s[i]) <= bound
MWithin(m, bound) == \A i \in 1..Len(m) : Within(m[i], bound)

\* Failing clause names: Clause("C01.read", P) is {} if P holds.
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
