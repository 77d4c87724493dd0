------------------------------- MODULE Scaling -------------------------------
(* The settings a scaling model computes with, and what each request does to  *)
(* them.  Strengths are <<K1 / 1e-3, mu / 1e-2, Ybar / 1 kPa>>, densities in  *)
(* kg/m3.  `own` holds which strengths were given explicitly since the last   *)
(* material, `nomOf` the target the simple to complex transition was computed *)
(* for (its body and how often the body was changed in place).                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Bodies, Mats, Vals, MaxOps
VARIABLES s, n, last
vars == <<s, n, last>>

Names == {"Water", "Sand", "Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock", "Ice"}
Strength(m) == CASE m = "Water"     -> <<2300, 55, 0>>
                 [] m = "Sand"      -> <<240, 41, 0>>
                 [] m = "Dry Soil"  -> <<240, 41, 180>>
                 [] m = "Wet Soil"  -> <<200, 55, 1140>>
                 [] m = "Soft Rock" -> <<200, 55, 7600>>
                 [] m = "Hard Rock" -> <<200, 55, 18000>>
                 [] m = "Ice"       -> <<15625, 48, 0>>
Density(m) == CASE m = "Water" -> 1000 [] m = "Sand" -> 1750 [] m = "Dry Soil" -> 1500 [] m = "Wet Soil" -> 2000
                [] m = "Soft Rock" -> 2250 [] m = "Hard Rock" -> 2500 [] m = "Ice" -> 900
MatOf(b) == CASE b \in {"Venus", "Io"} -> "Hard Rock" [] b = "Earth" -> "Wet Soil" [] b \in {"Europa", "Titan", "Pluto", "Mimas"} -> "Ice"
              [] OTHER -> "Soft Rock"
Known(m) == m \in Names
None == -1     \* not given

\* A new model: k, u, y are explicit strengths or None, d an explicit density
\* (of the model or of the target it is given), m a material or "".
Legal(b, m, g, d) == Known(IF m = "" THEN MatOf(b) ELSE m) \/ None \notin {g[1], g[2], g[3]}
Create(b, m, g, d) ==
    LET mat == IF m = "" THEN MatOf(b) ELSE m
        base == IF Known(mat) THEN Strength(mat) ELSE g
    IN [body |-> b, moved |-> 0, mat |-> mat,
        str |-> [i \in 1 .. 3 |-> IF g[i] # None THEN g[i] ELSE base[i]],
        own |-> {i \in 1 .. 3 : g[i] # None},
        rho |-> IF d # None THEN d ELSE IF Known(mat) THEN Density(mat) ELSE Density(MatOf(b)),
        nomOf |-> <<b, 0>>]
\* A material replaces everything it defines; an unknown one only its name
SetMat(x, m) == IF Known(m) THEN [x EXCEPT !.mat = m, !.str = Strength(m), !.own = {}, !.rho = Density(m)] ELSE [x EXCEPT !.mat = m]
SetStr(x, i, v) == [x EXCEPT !.str[i] = v, !.own = @ \cup {i}]
SetRho(x, v) == [x EXCEPT !.rho = v]
\* Another target body brings its gravity, its transition and its density
SetBody(x, b, d) == [x EXCEPT !.body = b, !.moved = 0, !.nomOf = <<b, 0>>, !.rho = IF d # None THEN d ELSE Density(MatOf(b))]
\* The body itself is changed in place: known at the next recompute
Move(x) == [x EXCEPT !.moved = @ + 1]
Recompute(x) == [x EXCEPT !.nomOf = <<x.body, x.moved>>]

Init == /\ n = 0 /\ last = "create"
        /\ \E b \in Bodies, m \in Mats \cup {""}, g \in (Vals \cup {None}) \X (Vals \cup {None}) \X (Vals \cup {None}), d \in Vals \cup {None} :
              Legal(b, m, g, d) /\ s = Create(b, m, g, d)
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E m \in Mats : s' = SetMat(s, m) /\ last' = IF Known(m) THEN "mat" ELSE "name"
           \/ \E i \in 1 .. 3, v \in Vals : s' = SetStr(s, i, v) /\ last' = "str"
           \/ \E v \in Vals : s' = SetRho(s, v) /\ last' = "rho"
           \/ \E b \in Bodies, d \in Vals \cup {None} : s' = SetBody(s, b, d) /\ last' = "body"
           \/ s' = Move(s) /\ last' = "move"
           \/ s' = Recompute(s) /\ last' = "recompute"
Spec == Init /\ [][Next]_vars

\* Strengths not given explicitly are those of one known material, together
Together == \A i, j \in (1 .. 3) \ s.own : \E m \in Names : s.str[i] = Strength(m)[i] /\ s.str[j] = Strength(m)[j]
OfMaterial == Known(s.mat) => \A i \in (1 .. 3) \ s.own : s.str[i] = Strength(s.mat)[i]
MaterialWhole == last = "mat" => s.str = Strength(s.mat) /\ s.rho = Density(s.mat)
Current == last \in {"create", "body", "recompute"} => s.nomOf = <<s.body, s.moved>>
NeverOtherBody == s.nomOf[1] = s.body /\ s.nomOf[2] <= s.moved
Explicit == [][\A i \in 1 .. 3 : i \in s.own /\ s'.str[i] # s.str[i] => last' \in {"mat", "str"}]_vars

-----------------------------------------------------------------------------
\* Sizes.  A recorded conversion: deviations in 1e-12 of the value.
Close(z) == z <= 2000
\* the class of a final diameter, in 1e-3 of the nominal transition
ClassOk(ratio, class, mc) ==
    /\ class \in {"simple", "transitional", "complex"}
    /\ ratio < 500 => class = "simple"
    /\ ratio > 2000 => class = "complex"
    /\ ratio \in 501 .. 1999 /\ ~mc => class = "transitional"
    /\ ratio \in 501 .. 999 => class # "complex"
    /\ ratio \in 1001 .. 1999 => class # "simple"
\* a transient crater may belong to two classes, and the two final sizes differ
Differ == 450
ClassFar(ratio, class) ==
    /\ class \in {"simple", "transitional", "complex"}
    /\ ratio < 500 - Differ \div 2 => class = "simple"
    /\ ratio > 2000 + Differ * 2 => class # "simple"
    /\ ratio > 2000 + Differ * 4 => class = "complex"
Rising(q) == \A i \in 1 .. Len(q) - 1 : q[i] <= q[i + 1]
=============================================================================
