------------------------------- MODULE Coords -------------------------------
(* C19: canonical longitude/latitude.  Q is a quarter turn in grid units, so *)
(* a full turn is 4Q, the poles are latitude +-Q.                            *)
EXTENDS Integers, Sequences

\* Canonical form of any raw pair on a circle whose quarter turn is q.
Wrap(x, q)    == ((x + 2 * q) % (4 * q)) - 2 * q
CanonLat(lat, q) == LET w == Wrap(lat, q) IN IF w > q THEN 2 * q - w ELSE IF w < -q THEN -2 * q - w ELSE w
Flipped(lat, q)  == LET w == Wrap(lat, q) IN w > q \/ w < -q
CanonLon(lon, lat, q) == Wrap(IF Flipped(lat, q) THEN lon + 2 * q ELSE lon, q)
Canon(lon, lat, q) == <<CanonLon(lon, lat, q), CanonLat(lat, q)>>

InRange(p, q) == p[1] >= -2 * q /\ p[1] < 2 * q /\ p[2] >= -q /\ p[2] <= q
\* Two canonical pairs denote the same point (all longitudes of a pole do).
SamePoint(a, b, q) == a[2] = b[2] /\ (a[1] = b[1] \/ a[2] \in {-q, q})

\* --------------------------------------------------------------- state machine
\* A raw pair walks; moves that keep the point on the sphere keep the canonical
\* form, and a step along a meridian or parallel moves it by one grid step.
CONSTANTS Q, Span
VARIABLES lon, lat, last
vars == <<lon, lat, last>>
Init == lon = 0 /\ lat = 0 /\ last = "start"
Keep(a, b, what) == lon' = a /\ lat' = b /\ last' = what
TurnLon  == \E k \in {-1, 1} : Keep(lon + k * 4 * Q, lat, "same")
TurnLat  == \E k \in {-1, 1} : Keep(lon, lat + k * 4 * Q, "same")
OverPole == \E k \in {-1, 1} : Keep(lon + k * 2 * Q, 2 * Q - lat, "same")
UnderPole == \E k \in {-1, 1} : Keep(lon + k * 2 * Q, -2 * Q - lat, "same")
StepLon  == \E k \in {-1, 1} : Keep(lon + k, lat, "move")
StepLat  == \E k \in {-1, 1} : Keep(lon, lat + k, "move")
Next == TurnLon \/ TurnLat \/ OverPole \/ UnderPole \/ StepLon \/ StepLat
Spec == Init /\ [][Next]_vars
Bound == lon \in -Span .. Span /\ lat \in -Span .. Span

C == Canon(lon, lat, Q)
Canonical == InRange(C, Q)
Idempotent == Canon(C[1], C[2], Q) = C
\* Angular separation on the grid is at most one step per move.
MoveRight ==
    [][LET a == Canon(lon, lat, Q)  b == Canon(lon', lat', Q)
       IN  IF last' = "same" THEN SamePoint(a, b, Q)
           ELSE \/ a[2] = b[2] /\ Wrap(a[1] - b[1], Q) \in {-1, 1}
                \/ a[1] = b[1] /\ a[2] - b[2] \in {-1, 1}
                \/ {a[2], b[2]} \cap {-Q, Q} # {} /\ a[2] - b[2] \in {-1, 0, 1}
                \/ Wrap(a[1] - b[1], Q) = -2 * Q /\ {a[2], b[2]} \cap {-Q, Q} # {}]_vars
=============================================================================
