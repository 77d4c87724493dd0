----------------------------- MODULE CraterReq -----------------------------
(* C09: which requests for a new crater are legal, and what an accepted      *)
(* crater must report.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Final  == {"diameter", "radius", "final_diameter", "final_radius", "axes"}
Trans  == {"transient_diameter", "transient_radius"}
Proj   == {"projectile_diameter", "projectile_radius", "projectile_mass"}
Sizes  == Final \cup Trans \cup Proj
Vels   == {"v", "vv", "angle"}
Vel4   == Vels \cup {"mean"}
Locs   == {"location", "projectile_location", "lonlat"}
Half   == {"lon", "lat"}                    \* only one of the two coordinates
Dirs   == {"orientation", "direction"}
Meas   == {"mdiam", "mrad"}
Others == {"density", "time", "name"}
Args   == Sizes \cup Vel4 \cup Locs \cup Half \cup Dirs \cup Meas \cup Others

OneSize(A)   == Cardinality(A \cap Sizes) = 1
VelOk(A)     == /\ ~(Vels \subseteq A)
                /\ "mean" \in A => A \cap {"v", "vv"} = {}
PlaceOk(A)   == Cardinality(A \cap Locs) <= 1 /\ A \cap Half = {}
DirOk(A)     == ~(Dirs \subseteq A)
MeasOk(A)    == ~(Meas \subseteq A)
Legal(A)     == OneSize(A) /\ VelOk(A) /\ PlaceOk(A) /\ DirOk(A) /\ MeasOk(A)

\* bad: names of values outside their legal range
Verdict(A, bad) == IF Legal(A) /\ bad = {} THEN "accept" ELSE "refuse"

\* ------------------------------------------------------------ state machine
\* A request is assembled argument by argument and submitted at any moment.
CONSTANTS MaxArgs, Pool
VARIABLES req, made, refused
vars == <<req, made, refused>>
Init == req = {} /\ made = 0 /\ refused = 0
Add  == \E a \in Pool \ req : Cardinality(req) < MaxArgs /\ req' = req \cup {a} /\ UNCHANGED <<made, refused>>
Submit == /\ made + refused < 2
          /\ IF Verdict(req, {}) = "accept" THEN made' = made + 1 /\ UNCHANGED refused
             ELSE refused' = refused + 1 /\ UNCHANGED made
          /\ req' = {}
Next == Add \/ Submit
Spec == Init /\ [][Next]_vars
\* The contract in its other form: a legal request stays legal when anything
\* is removed except its size, and never survives a second size.
Shape == Legal(req) =>
            /\ \A a \in req \ Sizes : Legal(req \ {a})
            /\ \A a \in req \cap Sizes : ~Legal(req \ {a})
            /\ \A a \in Sizes \ req : ~Legal(req \cup {a})
MadeOnlyLegal == [][made' > made => Legal(req)]_vars
=============================================================================
