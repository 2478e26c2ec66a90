------------------------------ MODULE MCGraph ------------------------------
(***************************************************************************)
(* Design check for stacked evaluation (C05, C06, C07): for every list of  *)
(* factors over a set of prototypes and variable bindings, the stacking    *)
(* mechanism produces exactly the rows of the factors, each once.          *)
(* Lists are printed as test programs.                                     *)
(***************************************************************************)
EXTENDS Graph, TLC, Json

CONSTANTS MaxFactors, Variant, Emit

\* five variables, two of the same type twice
Types == <<"R2", "M31", "R2", "S0", "M31">>
Values == <<<<3, -2>>, <<1, 2, -1>>, <<5, 4>>, <<-3>>, <<2, 0, 7>>>>

Diag(d) == [kind |-> "diag", d |-> d, w |-> <<>>, inner |-> "", num |-> 1, den |-> 1]
Gauss(w) == [kind |-> "gauss", d |-> <<>>, w |-> w, inner |-> "", num |-> 1, den |-> 1]

F(cls, vs, c, q, b, gain, pad, nm) ==
    [cls |-> cls, vs |-> vs, c |-> c, q |-> q, b |-> b, gain |-> gain, pad |-> pad,
     bias |-> Len(vs), js |-> <<>>, noise |-> nm]

OfType(t) == {v \in 1..Len(Types) : Types[v] = t}
Protos ==
    \* same structure, different numbers and variables
       {F("poly", <<v>>, <<v, 1>>, <<<<1, 2>>, <<0, v>>>>, <<>>, 1, <<>>, Diag(<<1, 2>>)) : v \in OfType("R2")}
    \* another static option
    \cup {F("poly", <<v>>, <<0, 4>>, <<<<2, -1>>, <<1, 1>>>>, <<>>, 2, <<>>, Diag(<<3, 1>>)) : v \in OfType("R2")}
    \* another parameter shape
    \cup {F("poly", <<v>>, <<2, 2>>, <<<<1, 0>>, <<0, 1>>>>, <<>>, 1, <<v, 2>>, Diag(<<1, 1>>)) : v \in OfType("R2")}
    \* another noise model and residual dimension, two variables, also repeated
    \cup {F("poly", <<v, w>>, <<1>>, <<<<1, 2, -1, 3>>>>, <<<<1, 1, 3, 2>>>>, 1, <<>>, Gauss(<<<<2>>>>)) :
            v \in OfType("R2"), w \in OfType("R2")}
    \* several types, local dimension below the global one
    \cup {F("poly", <<v, 4>>, <<v, 0>>, <<<<1, 2, 3, 1>>, <<0, 1, 0, -2>>>>, <<<<2, 1, 4, 1>>>>, 1, <<>>,
            Gauss(<<<<1, 0>>, <<-1, 2>>>>)) : v \in OfType("M31")}

VARIABLE fs
Init == fs = <<>>
Next == /\ Len(fs) < MaxFactors
        /\ \E f \in Protos : fs' = Append(fs, f)
Spec == Init /\ [][Next]_fs

Lay == MakeLayout(Types, GraphVarSeq(fs), TRUE)
Rows == DenoteRows(Types, MechRes(Types, fs, Values, Variant),
                   MechCoo(Types, fs, Values, Lay, Variant), Lay)
\* C05: exactly one residual block per factor
ResidualBag == fs # <<>> => SameBag(MechRes(Types, fs, Values, Variant), GraphRes(fs, Values))
\* C06: rows of the Jacobian go with their residuals
RowBag == fs # <<>> => SameBag(Rows, GraphRows(Types, fs, Values))
\* C05: every factor is in exactly one group
Partition == LET gs == GroupsOf(Types, fs, Variant)
             IN  /\ \A i \in 1..Len(fs) : Cardinality({g \in 1..Len(gs) : i \in Range(gs[g])}) = 1
                 /\ \A g \in 1..Len(gs) : IsInjective(gs[g])
\* C07: reversing the list changes neither variables nor rows
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == fs # <<>> =>
    LET lay == MakeLayout(Types, GraphVarSeq(Rev(fs)), TRUE)
    IN  /\ Range(GraphVarSeq(Rev(fs))) = Range(GraphVarSeq(fs))
        /\ SameBag(Rows, DenoteRows(Types, MechRes(Types, Rev(fs), Values, Variant),
                                    MechCoo(Types, Rev(fs), Values, lay, Variant), lay))

EmitProgram == (Emit /\ fs # <<>>) =>
    PrintT("PROGRAM " \o ToJson([types |-> Types, values |-> Values, factors |-> fs]))
=============================================================================
