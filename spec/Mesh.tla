--------------------------------- MODULE Mesh ---------------------------------
(* One directory that surfaces are opened in.  A mesh is identified by what   *)
(* it was generated from; some kinds have a local part whose face indices are *)
(* stored beside the mesh.  Opening may be ended by a crash after any write.  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Params, Local, MaxOps     \* Local: the parameters of meshes with a local part
VARIABLES grid,    \* what the stored mesh was generated from, "none" or "bad"
          idx,     \* which mesh the stored local indices belong to, "none"
          res,     \* the meshes that saved results belong to
          cur,     \* the open surface: what it was asked for
          used,    \* the open surface: the mesh it has
          loc,     \* the open surface: the mesh its local indices belong to
          act,     \* how the last opening came to its mesh
          pc,      \* writes still to come while opening: sequence of <<kind>>
          n
vars == <<grid, idx, res, cur, used, loc, act, pc, n>>
None == "none"
Init == grid = None /\ idx = None /\ res = {} /\ cur = None /\ used = None /\ loc = None /\ act = None /\ pc = <<>> /\ n = 0

Reusable(p, g) == g = p
Needed(p, regrid) == regrid \/ ~Reusable(p, grid)
\* results may only go with the overwrite rules' consent
Open(p, regrid, reset, consent) ==
    /\ pc = <<>> /\ n < MaxOps /\ n' = n + 1
    /\ IF (Needed(p, regrid) \/ reset) /\ res # {} /\ ~consent
       THEN /\ act' = "refused" /\ cur' = None /\ used' = None /\ loc' = None /\ UNCHANGED <<grid, idx, res, pc>>
       ELSE /\ cur' = p /\ used' = None /\ loc' = None /\ act' = IF Needed(p, regrid) THEN "made" ELSE "reused"
            /\ pc' = (IF Needed(p, regrid) THEN <<"clear", "dropidx", "grid">> ELSE IF reset THEN <<"clear">> ELSE <<>>)
                     \o (IF p \in Local THEN <<"idx">> ELSE <<>>) \o <<"ready">>
            /\ UNCHANGED <<grid, idx, res>>
Write == /\ pc # <<>> /\ pc' = Tail(pc)
         /\ CASE Head(pc) = "clear"   -> res' = {} /\ UNCHANGED <<grid, idx, loc, used>>
              [] Head(pc) = "dropidx" -> idx' = None /\ UNCHANGED <<grid, res, loc, used>>
              [] Head(pc) = "grid"    -> grid' = cur /\ UNCHANGED <<idx, res, loc, used>>
              \* the stored indices serve if they are there, otherwise they are made from the mesh
              [] Head(pc) = "idx"     -> /\ loc' = IF idx = None THEN grid ELSE idx
                                         /\ idx' = loc' /\ UNCHANGED <<grid, res, used>>
              [] Head(pc) = "ready"   -> used' = grid /\ res' = (IF act = "made" \/ res = {} THEN {grid} ELSE res) /\ UNCHANGED <<grid, idx, loc>>
         /\ UNCHANGED <<cur, act, n>>
Crash == pc # <<>> /\ pc' = <<>> /\ cur' = None /\ used' = None /\ loc' = None /\ act' = None /\ UNCHANGED <<grid, idx, res, n>>
Close == pc = <<>> /\ cur # None /\ cur' = None /\ used' = None /\ loc' = None /\ act' = None /\ UNCHANGED <<grid, idx, res, pc, n>>
Save == pc = <<>> /\ used # None /\ res' = res \cup {used} /\ UNCHANGED <<grid, idx, cur, used, loc, act, pc, n>>
Damage == pc = <<>> /\ cur = None /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<res, cur, used, loc, act, pc>>
          /\ \/ \E g \in {None, "bad"} : grid' = g /\ UNCHANGED idx
             \/ idx' = None /\ UNCHANGED grid
Next == \/ \E p \in Params, g, r, c \in BOOLEAN : Open(p, g, r, c)
        \/ Write \/ Crash \/ Close \/ Save \/ Damage
Spec == Init /\ [][Next]_vars
Matches == used # None => used = cur
LocalMatches == used # None /\ cur \in Local => loc = used
\* stored indices never belong to another mesh than the stored one (unless that was lost)
IndexFits == idx # None /\ grid \notin {None, "bad"} => idx = grid \/ grid \notin Local
ResultsFit == \A r \in res : r = grid \/ grid \in {None, "bad"}
ReuseOnlyIfSame == act = "reused" /\ pc = <<>> => used = cur
NothingRefusedIsLost == [][act' = "refused" /\ act # "refused" => res' = res /\ grid' = grid]_vars
===============================================================================
