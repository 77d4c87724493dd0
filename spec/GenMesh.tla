------------------------------- MODULE GenMesh -------------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E o \in Pick({"open", "open2", "open3", "again", "save", "damage"}), p \in Pick(0 .. 15), regrid \in Pick({0, 0, 1, 2, 3, 4, 5}),
              reset \in Pick({0, 1, 2}), ask \in Pick({"off", "n", "y"}), crash \in Pick(0 .. 24), how \in Pick({"delete", "truncate", "garbage", "idx"}), v \in Pick(1 .. 99) :
             h' = Append(h, [op |-> IF o \in {"open2", "open3"} THEN "open" ELSE o, p |-> p, regrid |-> regrid = 1, reset |-> reset = 1, ask |-> ask,
                             crash |-> IF crash <= 9 THEN crash ELSE 0, how |-> how, v |-> v])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
