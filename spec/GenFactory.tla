----------------------------- MODULE GenFactory ------------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Mats == {"Water", "Sand", "Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock", "Ice"}
Bodies == {"Mercury", "Earth", "Moon", "Mars", "Ceres", "Vesta", "Io", "Europa", "Pluto"}
Args == {"radius", "mass", "material", "transition_scale_type", "density", "K1", "mu", "Ybar", "N1_coef", "slope", "generator_type", "version",
         "ejecta_truncation", "dorays", "do_subpixel_degradation", "do_slope_collapse", "velocity", "angle", "sample"}
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E o \in Pick({"make", "make2", "make3", "class", "default", "pass", "change", "change2", "change3", "unknown", "wrong", "tamper"}),
              k \in Pick({"target", "target2", "projectile", "projectile2", "production", "production2", "scaling", "scaling2", "morphology", "counting", "surface"}),
              b \in Pick(Bodies), m \in Pick(Mats), i \in Pick(0 .. 9), v \in Pick(1 .. 1000), mat \in Pick(Mats) :
             \E g \in IF v % 3 = 0 THEN {{}} ELSE Pick({RandomSubset(j, Args) : j \in {2, 4, 8}}) :
               h' = Append(h, [op |-> CASE o \in {"make2", "make3"} -> "make" [] o \in {"change2", "change3"} -> "change" [] OTHER -> o,
                               k |-> CASE k = "target2" -> "target" [] k = "projectile2" -> "projectile" [] k = "production2" -> "production" [] k = "scaling2" -> "scaling" [] OTHER -> k,
                               b |-> b, m |-> m, mat |-> mat, i |-> i, v |-> v, g |-> g])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
