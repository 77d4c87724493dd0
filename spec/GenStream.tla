------------------------------ MODULE GenStream ------------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E o \in Pick({"sample", "projectile", "crater", "face", "location", "function", "populate", "emplace", "run", "read", "save",
                          "record", "restore", "restore2", "replace", "replace2", "seed", "outside", "other"}),
              c \in Pick({"sim", "scaling", "production", "surface", "morphology", "counting", "projectile", "target"}),
              r \in Pick({"target", "projectile", "scaling", "production", "body"}), k \in Pick(1 .. 6), v \in Pick(1 .. 1000) :
             h' = Append(h, [op |-> CASE o = "restore2" -> "restore" [] o = "replace2" -> "replace" [] OTHER -> o, c |-> c, r |-> r, k |-> k, v |-> v])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
