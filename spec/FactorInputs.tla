---------------------------- MODULE FactorInputs ----------------------------
(***************************************************************************)
(* What a factor's residual function is called with (C20).  A declaration  *)
(* is a record [kind, toks]: "plain" (a tuple of types), "named" (a named  *)
(* tuple), "variadic" (any number of values of one type), or "missing".    *)
(* Types are tokens; every variable type has values of one most specific   *)
(* token, and some tokens cover others.                                    *)
(***************************************************************************)
EXTENDS VarTypes

TokenOf(t) == CASE t \in {"R1", "R2", "R3", "O2", "S0", "S5", "M23"} -> "arr"
                [] t = "T1" -> "tup" [] t = "D5" -> "dct"
                [] OTHER -> t       \* P3, M31 and the Lie groups
\* values of token b are accepted where a is declared
Covers(a, b) == \/ a = b \/ a = "any"
                \/ a = "tup" /\ b \in {"P3", "M31"}   \* named tuples are tuples
Tokens == {"any", "arr", "tup", "dct", "P3", "M31", "SO2", "SE2", "SO3", "SE3"}

\* The contract
Accepts(hint, types) ==
    /\ hint.kind # "missing"
    /\ hint.kind \in {"plain", "named"} => Len(hint.toks) = Len(types)
    /\ \A i \in 1..Len(types) :
          Covers(IF hint.kind = "variadic" THEN hint.toks[1] ELSE hint.toks[i], TokenOf(types[i]))
Wrap(hint) == IF hint.kind = "named" THEN "named" ELSE "plain"

\* The mechanism, as implemented: expand the declaration, compare lengths,
\* then check value by value.  The broken variants stop at the shorter of the
\* two, or look at the first value only.
Refused == [ok |-> FALSE, wrap |-> "", vals |-> <<>>]
Build(hint, types, variant) ==
    IF hint.kind = "missing" THEN Refused
    ELSE LET want == IF hint.kind = "variadic" THEN [i \in 1..Len(types) |-> hint.toks[1]] ELSE hint.toks
             upto == IF variant = "first" THEN MinI(1, MinI(Len(want), Len(types)))
                     ELSE MinI(Len(want), Len(types))
         IN  IF variant # "zip" /\ Len(want) # Len(types) THEN Refused
             ELSE IF \E i \in 1..upto : ~Covers(want[i], TokenOf(types[i])) THEN Refused
             ELSE [ok |-> TRUE, wrap |-> Wrap(hint), vals |-> [i \in 1..Len(types) |-> i]]
=============================================================================
