------------------------------- MODULE GenForm -------------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E o \in Pick({"form", "form2", "form3", "form4", "diffuse", "diffuse2", "collapse", "collect", "collect2", "degrade", "noise"}),
              size \in Pick({"below", "face", "small", "medium", "large"}),
              at \in Pick({"random", "random2", "same", "near", "pole", "dateline", "local", "edge", "antipode"}),
              where \in Pick({"surface", "region", "subregion", "local"}), kd \in Pick({"scalar", "array", "spot", "zero", "negative", "negspot", "size", "huge"}),
              via \in Pick({"direct", "emplace", "list"}) :
             h' = Append(h, [op |-> CASE o \in {"form2", "form3", "form4"} -> "form" [] o = "diffuse2" -> "diffuse" [] o = "collect2" -> "collect" [] OTHER -> o,
                             size |-> size, at |-> IF at = "random2" THEN "random" ELSE at, where |-> where, kd |-> kd, via |-> via])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
