----------------------------- MODULE GenSampling -----------------------------
(* Series of requests for random values, as levels the driver turns into      *)
(* numbers.                                                                   *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E o \in Pick({"sample", "sample", "size", "angle", "direction", "velocity", "location", "onface", "norm", "projectile", "bins"}),
              range \in Pick({"narrow", "wide", "tiny", "full"}), span \in Pick({"all", "old", "young", "short"}), form \in Pick({"time", "number", "single"}),
              shape \in Pick({"one", "few", "many", "matrix", "none"}), par \in Pick({"low", "mid", "high", "equal"}), seed \in Pick({TRUE, FALSE}) :
             h' = Append(h, [op |-> o, range |-> range, span |-> span, form |-> form, shape |-> shape, par |-> par, seeded |-> seed])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
