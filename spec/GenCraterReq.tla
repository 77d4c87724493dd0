---------------------------- MODULE GenCraterReq ----------------------------
(* Every combination of up to two sizes with every set of velocity arguments, *)
(* and every set of up to NExtra further arguments with one size.             *)
EXTENDS CraterReq, Json
CONSTANT NExtra
SizeSets == {S \in SUBSET Sizes : Cardinality(S) <= 2}
VelSets  == SUBSET Vel4
Extra    == {S \in SUBSET (Locs \cup Half \cup Dirs \cup Meas \cup Others) : Cardinality(S) <= NExtra}
GInit == /\ req \in {s \cup v : s \in SizeSets, v \in VelSets} \cup {{s} \cup e : s \in Sizes, e \in Extra}
         /\ made = 0 /\ refused = 0
GSpec == GInit /\ [][FALSE]_vars
Emit == PrintT("SCN " \o ToJson([args |-> req]))
=============================================================================
