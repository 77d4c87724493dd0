--------------------------------- MODULE Form ---------------------------------
(* Material on a ring of faces.  A crater digs inside its rim and spreads     *)
(* what it dug over its affected region; slides and diffusion move material   *)
(* between neighbours of a region (and of the local area, where there is      *)
(* one); degradation is collected per face and applied as diffusion.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Local, MaxOps, MaxK
VARIABLES elev, k, last, n
vars == <<elev, k, last, n>>
F == 0 .. N - 1
Near(f) == {(f + 1) % N, (f + N - 1) % N}
Ring(f, r) == {g \in F : \E d \in 0 .. r : g = (f + d) % N \/ g = (f + N - d) % N}
RECURSIVE Sum(_, _)
Sum(e, S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN e[f] + Sum(e, S \ {f})
Init == elev = [f \in F |-> 0] /\ k = [f \in F |-> 0] /\ last = [op |-> "none", region |-> {}] /\ n = 0
\* a crater at f: what is dug at f (to a depth below its surroundings) is laid down in its region
Form(f, r, depth) ==
    LET R == Ring(f, r) IN
    \E p, q \in R \ {f} :      \* where the first and the other units come down
       /\ elev' = [g \in F |-> elev[g] + (IF g = f THEN 0 - depth ELSE 0) + (IF g = p THEN 1 ELSE 0) + (IF g = q THEN depth - 1 ELSE 0)]
       /\ last' = [op |-> "form", region |-> R] /\ UNCHANGED k
TooSmall(f) == last' = [op |-> "none", region |-> {}] /\ UNCHANGED <<elev, k>>
\* one unit moves downhill between neighbours that both belong to the region
Flow(S, name) == /\ \E a, b \in S \cap Local : b \in Near(a) /\ elev[a] > elev[b] + 1
                       /\ elev' = [elev EXCEPT ![a] = @ - 1, ![b] = @ + 1]
                 /\ last' = [op |-> name, region |-> S] 
Diffuse(f, r) == Flow(Ring(f, r), "diffuse") /\ UNCHANGED k
Collect(d) == k' = [f \in F |-> k[f] + d] /\ last' = [op |-> "collect", region |-> {}] /\ UNCHANGED elev
Apply == (\E f \in F : k[f] > 0) /\ Flow(F, "apply") /\ k' = [f \in F |-> 0]
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E f \in F, r \in 1 .. 2, d \in 1 .. 2 : Form(f, r, d)
           \/ \E f \in F : TooSmall(f)
           \/ \E f \in F, r \in 0 .. 2 : Diffuse(f, r)
           \/ (\A f \in F : k[f] < MaxK) /\ Collect(1)
           \/ Apply
Spec == Init /\ [][Next]_vars
Conserved == Sum(elev, F) = 0
NeverNegative == \A f \in F : k[f] >= 0
Footprint == [][\A f \in F : elev'[f] # elev[f] => f \in last'.region]_vars
LocalOnly == [][last'.op \in {"diffuse", "apply"} => \A f \in F \ Local : elev'[f] = elev[f]]_vars
\* moving material downhill makes no new extremes
NoNewExtremes == [][last'.op \in {"diffuse", "apply"} => \A f \in F : (\E g \in F : elev[g] >= elev'[f]) /\ (\E g \in F : elev[g] <= elev'[f])]_vars
===============================================================================
