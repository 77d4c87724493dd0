----------------------------- MODULE GenScaling ------------------------------
(* Histories of settings of a scaling model; strengths as <<K1, mu, Ybar>> in *)
(* the units of Scaling, -1 when not given.                                   *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Bodies == {"Moon", "Mars", "Earth", "Ceres", "Europa", "Vesta", "Titan", "Mercury", "Pluto"}
Mats == {"Water", "Sand", "Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock", "Ice", "Granite"}
K == {-1, -1, 100, 240, 900}
Given(i) == CASE i = 1 -> Pick({-1, 100, 260, 900}) [] i = 2 -> Pick({-1, 41, 50, 60}) [] OTHER -> Pick({-1, 0, 300, 9000})
Rho == {-1, 1111, 2600, 3300}
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E o \in IF h = <<>> THEN {"create"} ELSE Pick({"create", "mat", "mat2", "str", "str2", "rho", "body", "body2", "move", "recompute", "mode", "projectile", "velocity", "crater", "size", "size2", "bad"}),
              m \in Pick(Mats \cup {""}), b \in Pick(Bodies), u \in Given(1), v \in Given(2), w \in Given(3), d \in Pick(Rho),
              i \in Pick(1 .. 3), k \in Pick({"montecarlo", "fixed", "ctem"}), form \in Pick({"name", "object"}), x \in Pick(1 .. 1000) :
             h' = Append(h, [op |-> CASE o = "mat2" -> "mat" [] o = "str2" -> "str" [] o = "body2" -> "body" [] o = "size2" -> "size" [] OTHER -> o,
                             m |-> m, b |-> b, g |-> <<u, v, w>>, d |-> d, i |-> i, k |-> k, form |-> form, x |-> x])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
