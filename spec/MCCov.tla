------------------------------- MODULE MCCov -------------------------------
(***************************************************************************)
(* Design check for covariance recovery (C17): whatever the factor, the    *)
(* elimination order and the queries so far, each query ends, and answers  *)
(* with the entry of the inverse information matrix.                       *)
(***************************************************************************)
EXTENDS Cov, TLC, Json, Randomization

CONSTANTS N, Reach, MaxQueries, Variant, Emit

VARIABLES u, d, pos, cache, stack, asked, log, told
vars == <<u, d, pos, cache, stack, asked, log, told>>
Values == (-1)..Reach
None == <<0, 0>>

Strict == {p \in (1..N) \X (1..N) : p[1] > p[2]}
FactorOf(f) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE IF i < j THEN 0 ELSE f[<<i, j>>]]]
Orders == {p \in [1..N -> 1..N] : \A i, j \in 1..N : p[i] = p[j] => i = j}
\* which weights: all for the smallest matrices
Weights == IF N <= 3 /\ ~Emit THEN [1..N -> {1, 4}] ELSE {[i \in 1..N |-> IF i % 2 = 0 THEN 4 ELSE 1], [i \in 1..N |-> 1]}

Init == /\ u \in (IF Emit THEN {FactorOf(f) : f \in RandomSubset(40, [Strict -> Values])}
                  ELSE {FactorOf(f) : f \in [Strict -> Values]})
        /\ d \in Weights
        /\ pos \in Orders
        /\ cache = <<>> /\ stack = <<>> /\ asked = None /\ log = <<>> /\ told = FALSE

Place(a) == CASE Variant = "noperm" -> a
              [] Variant = "forward" -> IndexOf(pos, a)
              [] OTHER -> pos[a]
KeyFor(a, b) == IF Variant = "unsorted" THEN <<Place(a), Place(b)>> ELSE Key(Place(a), Place(b))

Ask(a, b) == /\ asked = None /\ Len(log) < MaxQueries
             /\ asked' = <<a, b>>
             /\ stack' = <<KeyFor(a, b)>>
             /\ UNCHANGED <<u, d, pos, cache, log, told>>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Missing == Needed(u, Top) \ DOMAIN cache
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SeqOf(s \ {x})

Pop == /\ stack # <<>> /\ Top \in DOMAIN cache
       /\ stack' = Rest
       /\ IF Rest = <<>>
          THEN /\ log' = Append(log, <<asked[1], asked[2], cache[Top]>>) /\ asked' = None
          ELSE UNCHANGED <<log, asked>>
       /\ UNCHANGED <<u, d, pos, cache, told>>
Push == /\ stack # <<>> /\ Top \notin DOMAIN cache /\ Missing # {} /\ Variant # "eager"
        /\ stack' = stack \o SeqOf(Missing)
        /\ UNCHANGED <<u, d, pos, cache, asked, log, told>>
Compute == /\ stack # <<>> /\ Top \notin DOMAIN cache /\ (Missing = {} \/ Variant = "eager")
           /\ cache' = [k \in DOMAIN cache \cup {Top} |-> IF k = Top THEN ValueOf(u, d, cache, Top) ELSE cache[k]]
           /\ UNCHANGED <<u, d, pos, stack, asked, log, told>>
Tell == /\ Emit /\ ~told /\ Len(log) = MaxQueries /\ told' = TRUE
        /\ PrintT("PROGRAM " \o ToJson([u |-> u, d |-> d, pos |-> pos, queries |-> log]))
        /\ UNCHANGED <<u, d, pos, cache, stack, asked, log>>

Next == (\E a, b \in 1..N : Ask(a, b)) \/ Pop \/ Push \/ Compute \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Pop \/ Push \/ Compute)

----------------------------------------------------------------------------
Sigma == Reorder(SigmaP(u, d), pos)
Info == Reorder(InfoP(u, d), pos)
\* the oracle is the inverse (only depends on the initial choice)
Inverse == asked = None /\ log = <<>> => MatMul(Info, Sigma) = MatScale(ScaleS, Identity(N))
\* every answer is an entry of it
Answers == \A i \in 1..Len(log) : log[i][3] = Sigma[log[i][1]][log[i][2]]
\* values recovered on the way are final
CacheSound == \A k \in DOMAIN cache : cache[k] = SigmaP(u, d)[k[1]][k[2]]
\* never twice the same work in progress
StackBound == Len(stack) <= N * N * N
Monotone == [][DOMAIN cache \subseteq DOMAIN cache']_vars
Ends == (asked # None) ~> (asked = None)
=============================================================================
