------------------------------- MODULE Factory -------------------------------
(* Components made by name, by class or passed through, and the catalogues    *)
(* they start from.  Every attribute value is a text (numbers to 12 digits).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, Bases, Args, MaxObj, MaxOps
VARIABLES objs, n, last
vars == <<objs, n, last>>

Known == [target |-> {}, projectile |-> {"asteroids", "comets", "generic"}, production |-> {"neukum", "powerlaw"},
          scaling |-> {"montecarlo", "ctem"}, morphology |-> {"basicmoon", "realisticmoon"}, counting |-> {"depthcount"},
          surface |-> {"icosphere", "arbitrary_resolution", "hireslocal", "datasurface"}]
Bodies == [Mercury |-> <<"2439400", "3.301001e+23", "Soft Rock", "silicate">>, Earth |-> <<"6371010", "5.972168e+24", "Wet Soil", "silicate">>,
           Moon |-> <<"1737530", "7.345789e+22", "Soft Rock", "silicate">>, Mars |-> <<"3389920", "6.416909e+23", "Soft Rock", "silicate">>,
           Ceres |-> <<"469700", "9.383516e+20", "Soft Rock", "ice">>, Vesta |-> <<"262700", "2.59027e+20", "Soft Rock", "silicate">>,
           Io |-> <<"1821490", "8.929649e+22", "Hard Rock", "silicate">>, Europa |-> <<"1560800", "4.798574e+22", "Ice", "ice">>,
           Pluto |-> <<"1188300", "1.302498e+22", "Ice", "ice">>]
Stuff == [m \in {"Water", "Sand", "Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock", "Ice"} |->
             CASE m = "Water" -> <<"2.3", "0.55", "0", "1000">> [] m = "Sand" -> <<"0.24", "0.41", "0", "1750">>
               [] m = "Dry Soil" -> <<"0.24", "0.41", "180000", "1500">> [] m = "Wet Soil" -> <<"0.2", "0.55", "1140000", "2000">>
               [] m = "Soft Rock" -> <<"0.2", "0.55", "7600000", "2250">> [] m = "Hard Rock" -> <<"0.2", "0.55", "18000000", "2500">>
               [] m = "Ice" -> <<"15.625", "0.48", "0", "900">>]
Asteroids == [Mercury |-> "41100", Venus |-> "29100", Earth |-> "24600", Moon |-> "22100", Mars |-> "10700", Ceres |-> "5300", Vesta |-> "5300"]
Comets == [Europa |-> "26000", Pluto |-> "1900", Mars |-> "14210", Moon |-> "17670", Earth |-> "17670", Io |-> "32000", Mercury |-> "18400"]

\* the model chosen when none is asked for
Default(kind, b) == CASE kind = "scaling" -> "montecarlo" [] kind = "morphology" -> "basicmoon" [] kind = "counting" -> "depthcount"
                      [] kind = "surface" -> "icosphere"
                      [] kind = "production" -> IF b \in {"Mercury", "Venus", "Earth", "Moon", "Mars"} THEN "neukum" ELSE "powerlaw"
                      [] kind = "projectile" -> IF b \in DOMAIN Asteroids THEN "asteroids" ELSE IF b \in DOMAIN Comets THEN "comets" ELSE "generic"
                      [] OTHER -> b
\* what the catalogue says; b is the body or, for a scaling model, the material
Catalogue(kind, name, b) ==
    CASE kind = "target" -> [radius |-> Bodies[b][1], mass |-> Bodies[b][2], material |-> Bodies[b][3], transition_scale_type |-> Bodies[b][4], density |-> Stuff[Bodies[b][3]][4]]
      [] kind = "scaling" -> [material |-> b, K1 |-> Stuff[b][1], mu |-> Stuff[b][2], Ybar |-> Stuff[b][3], density |-> Stuff[b][4]]
      [] kind = "projectile" -> [mean_velocity |-> IF name = "asteroids" THEN Asteroids[b] ELSE IF name = "comets" /\ b \in DOMAIN Comets THEN Comets[b] ELSE "20000",
                                 density |-> IF name = "asteroids" THEN "2250" ELSE IF name = "comets" THEN "500" ELSE "1000", sample |-> "True"]
      [] kind = "production" -> IF name = "neukum" THEN [version |-> IF b \in {"Moon", "Mars"} THEN b ELSE "Projectile"]
                                ELSE [N1_coef |-> "0.007883", slope |-> "-3.328", generator_type |-> "crater"]
      [] kind = "morphology" -> [ejecta_truncation |-> "None", dorays |-> "False", do_subpixel_degradation |-> "True", do_slope_collapse |-> "True"]
      [] OTHER -> [none |-> ""]
\* explicit arguments win; a density follows the explicit material of a target
Values(kind, name, b, given) ==
    LET c == Catalogue(kind, name, b)
        m == IF kind = "target" /\ "material" \in DOMAIN given THEN [c EXCEPT !.density = Stuff[given.material][4]]
             \* the defaults of a power law are those of what it generates
             ELSE IF kind = "production" /\ name = "powerlaw" /\ "generator_type" \in DOMAIN given /\ given["generator_type"] = "projectile"
             THEN [c EXCEPT !.N1_coef = "7.989e-07", !.slope = "-2.634"] ELSE c
    IN [a \in DOMAIN m |-> IF a \in DOMAIN given THEN given[a] ELSE m[a]]
Accepts(kind, name) == name \in Known[kind]

-----------------------------------------------------------------------------
\* The model: any sequence of requests, changes and tampering with what a
\* component returned.
Subsets(kind, name, b) == SUBSET (DOMAIN Catalogue(kind, name, b) \cap Args)
Init == objs = <<>> /\ n = 0 /\ last = <<"none", 0>>
Make == \E kind \in Kinds, b \in Bases :
          LET name == Default(kind, b)
              base == IF kind = "scaling" THEN Bodies[b][3] ELSE b
          IN \E g \in Subsets(kind, name, base) :
               /\ Len(objs) < MaxObj
               /\ objs' = Append(objs, [kind |-> kind, name |-> name, base |-> base, given |-> g,
                                        val |-> Values(kind, name, base, [a \in g |-> IF a = "material" THEN "Sand" ELSE "7"])])
               /\ last' = <<"make", Len(objs) + 1>>
Pass == \E i \in DOMAIN objs : objs' = objs /\ last' = <<"pass", i>>
Change == \E i \in DOMAIN objs : \E a \in DOMAIN objs[i].val :
             objs' = [objs EXCEPT ![i].val[a] = "9"] /\ last' = <<"change", i>>
Refuse == objs' = objs /\ last' = <<"refuse", 0>>
Next == n < MaxOps /\ n' = n + 1 /\ (Make \/ Pass \/ Change \/ Refuse)
Spec == Init /\ [][Next]_vars
\* a new component shows the catalogue, whatever was done before
Fresh == last[1] = "make" =>
            LET o == objs[last[2]] IN \A a \in DOMAIN o.val : a \notin o.given /\ ~(a = "density" /\ "material" \in o.given) => o.val[a] = Catalogue(o.kind, o.name, o.base)[a]
ExplicitWins == last[1] = "make" => LET o == objs[last[2]] IN \A a \in o.given : o.val[a] \in {"7", "Sand"}
Independent == [][\A i \in DOMAIN objs : objs'[i] # objs[i] => last' = <<"change", i>>]_vars
=============================================================================
