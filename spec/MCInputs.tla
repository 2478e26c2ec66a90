------------------------------ MODULE MCInputs ------------------------------
(***************************************************************************)
(* All declarations and variable lists up to MaxLen over a few types: the  *)
(* mechanism accepts exactly what the contract accepts (C20).  Every case  *)
(* is printed as a test program.                                           *)
(***************************************************************************)
EXTENDS FactorInputs, TLC, Json

CONSTANTS MaxLen, Variant, Emit

MCTypes == {"R2", "P3", "SE2"}
MCTokens == {"any", "arr", "tup", "P3", "SE2"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Hints == {[kind |-> k, toks |-> t] : k \in {"plain", "named"}, t \in SeqsUpTo(MCTokens, MaxLen)}
         \cup {[kind |-> "variadic", toks |-> <<t>>] : t \in MCTokens}
         \cup {[kind |-> "missing", toks |-> <<>>]}

VARIABLES hint, types
Init == hint \in Hints /\ types \in SeqsUpTo(MCTypes, MaxLen)
Next == UNCHANGED <<hint, types>>
Spec == Init /\ [][Next]_<<hint, types>>

Contract == LET b == Build(hint, types, Variant)
            IN  /\ b.ok = Accepts(hint, types)
                /\ b.ok => (b.wrap = Wrap(hint) /\ b.vals = [i \in 1..Len(types) |-> i])
EmitProgram == Emit => PrintT("PROGRAM " \o ToJson([hint |-> hint, types |-> types,
                                                    accept |-> Accepts(hint, types)]))
=============================================================================
