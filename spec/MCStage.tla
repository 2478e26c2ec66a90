------------------------------ MODULE MCStage ------------------------------
(***************************************************************************)
(* Compilation (C19): a function is traced once per static part of its     *)
(* arguments; later calls run what was traced on their own data.  Calls    *)
(* are <<way, static, data>>.  Ways: "direct" and "jit" have one cache     *)
(* each; "closure" compiles anew, with all data baked in.                  *)
(* Broken variants: "baked" uses the data of the first call, "nokey" does  *)
(* not trace again for another static part.  Histories are printed as test *)
(* programs.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Variant, MaxCalls, Emit

Statics == {"gn", "lm", "dogleg", "short", "long"}
Data == 1..2
Ways == {"direct", "jit", "closure"}
Key(static) == IF Variant = "nokey" THEN "any" ELSE static

VARIABLES cache, calls, results
vars == <<cache, calls, results>>
Init == cache = {} /\ calls = <<>> /\ results = <<>>
Trace(w, s, d) == [way |-> w, key |-> Key(s), static |-> s, data |-> d]
Call(w, s, d) ==
    LET hits == {t \in cache : t.way = w /\ t.key = Key(s)}
        used == IF w = "closure" \/ hits = {} THEN Trace(w, s, d) ELSE CHOOSE t \in hits : TRUE
    IN  /\ cache' = IF w = "closure" THEN cache ELSE cache \cup {used}
        /\ calls' = Append(calls, <<w, s, d>>)
        /\ results' = Append(results, <<used.static, IF Variant = "baked" THEN used.data ELSE d>>)
Next == /\ Len(calls) < MaxCalls
        /\ \E w \in Ways, s \in Statics, d \in Data : Call(w, s, d)
Spec == Init /\ [][Next]_vars

OwnResult == \A i \in 1..Len(calls) : results[i] = <<calls[i][2], calls[i][3]>>
EmitProgram == (Emit /\ Len(calls) = MaxCalls) =>
    PrintT("PROGRAM " \o ToJson([calls |-> calls]))
=============================================================================
