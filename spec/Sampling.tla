------------------------------- MODULE Sampling -------------------------------
(* Random samples: a number drawn uniformly becomes a diameter, a time, a     *)
(* place on a face or a speed.  The samplers are written here over small      *)
(* integers; every possible uniform draw is explored, so what holds for the   *)
(* result holds whatever the stream of random numbers.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NGrid,   \* points of the tabulated distribution
          Fine,    \* uniform draws are 0 .. Fine - 1 in units of 1 / Fine
          VMax     \* speeds 0 .. VMax
VARIABLES kind, arg, out, tries, phase
vars == <<kind, arg, out, tries, phase>>

-----------------------------------------------------------------------------
\* a table of cumulative numbers: falls with diameter, positive at the largest
Tables == {t \in [1 .. NGrid -> 1 .. 4] : \A i \in 1 .. NGrid - 1 : t[i] >= t[i + 1]}
\* Inverse transform: u in [cdf of the largest, cdf of the smallest) and the
\* diameter where the table crosses it, on a grid with Fine steps between
\* points.  Diameters are 1 * Fine .. NGrid * Fine.
Crossing(t, u) == CHOOSE i \in 1 .. NGrid - 1 : t[i] * Fine > u /\ t[i + 1] * Fine <= u
SizeOf(t, u, noise) ==
    LET i == Crossing(t, u)
        part == ((t[i] * Fine - u) * Fine) \div ((t[i] - t[i + 1]) * Fine)
        d == i * Fine + part + noise
    IN IF d > NGrid * Fine THEN NGrid * Fine ELSE IF d < Fine THEN Fine ELSE d
\* A formation time: the cumulative number from the end of the span, rising
\* with age, normalised; the draw selects a subinterval and a point in it.
Ages == {t \in [1 .. NGrid -> 0 .. 4] : t[1] = 0 /\ t[NGrid] > 0 /\ \A i \in 1 .. NGrid - 1 : t[i] <= t[i + 1]}
Clip(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
TimeOf(t, u, w) ==
    LET k == Cardinality({i \in 1 .. NGrid : t[i] * Fine <= u * t[NGrid]})   \* searchsorted from the right
        i == Clip(k - 1, 0, NGrid - 2) + 1
    IN i * Fine + w
\* A point of a polygon cut into triangles: the triangle by area, then weights,
\* folded back when they leave the triangle.
Pick3(a, b) == IF a + b > Fine THEN <<Fine - a, Fine - b>> ELSE <<a, b>>
Weights(a, b) == LET p == Pick3(a, b) IN <<Fine - p[1] - p[2], p[1], p[2]>>

Init == /\ kind \in {"size", "time", "point", "speed"}
        /\ arg \in CASE kind = "size" -> Tables [] kind = "time" -> Ages [] kind = "point" -> {0} [] OTHER -> 1 .. VMax - 1
        /\ out = <<>> /\ tries = 0 /\ phase = "ask"
Draw == /\ phase = "ask"
        /\ \/ /\ kind = "size" /\ arg[1] > arg[NGrid]
              /\ \E u \in arg[NGrid] * Fine .. arg[1] * Fine - 1, x \in {0, 1} : out' = <<SizeOf(arg, u, x), u>>
              /\ phase' = "done" /\ tries' = tries
           \/ /\ kind = "time"
              /\ \E u \in 0 .. Fine - 1, w \in {0, Fine - 1} : out' = <<TimeOf(arg, u, w), u>>
              /\ phase' = "done" /\ tries' = tries
           \/ /\ kind = "point"
              /\ \E a \in 0 .. Fine - 1, b \in 0 .. Fine - 1 : out' = Weights(a, b)
              /\ phase' = "done" /\ tries' = tries
           \* a slow population is drawn again until every speed is below escape
           \/ /\ kind = "speed" /\ tries < 3
              /\ \E v, w \in 0 .. VMax :
                    LET again == IF out = <<>> THEN <<v, w>> ELSE [i \in 1 .. 2 |-> IF out[i] >= arg THEN <<v, w>>[i] ELSE out[i]]
                    IN out' = again /\ phase' = IF \A i \in 1 .. 2 : again[i] < arg THEN "done" ELSE "ask"
              /\ tries' = tries + 1
        /\ UNCHANGED <<kind, arg>>
Spec == Init /\ [][Draw]_vars

SizeBounded == (phase = "done" /\ kind = "size") => out[1] \in Fine .. NGrid * Fine
\* as many are larger than a tabulated diameter as the table says
SizeQuantile == (phase = "done" /\ kind = "size") =>
                   \A i \in 1 .. NGrid : /\ out[1] < i * Fine => out[2] >= arg[i] * Fine
                                         /\ out[1] > i * Fine + 1 => out[2] < arg[i] * Fine
TimeBounded == (phase = "done" /\ kind = "time") => out[1] \in Fine .. NGrid * Fine
TimeQuantile == (phase = "done" /\ kind = "time") =>
                   \A i \in 2 .. NGrid - 1 : out[1] >= i * Fine => out[2] * arg[NGrid] >= arg[i] * Fine
PointInside == (phase = "done" /\ kind = "point") => \A i \in 1 .. 3 : out[i] >= 0 /\ out[i] <= Fine
SpeedBelow == (phase = "done" /\ kind = "speed") => \A i \in 1 .. 2 : out[i] < arg

-----------------------------------------------------------------------------
\* Judging recorded samples.  Distances beyond a bound come in units of 1e-12
\* of the bound, deviations from an expectation in 1e-3 standard deviations.
Inside(e) == e.under <= 2 /\ e.over <= 2
Likely(z) == z >= -8000 /\ z <= 8000
=============================================================================
