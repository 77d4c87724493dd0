------------------------------ MODULE GenSaved ------------------------------
(* Histories of edits, saves, resets and reopenings.                         *)
EXTENDS SavedStates, Json, Randomization
VARIABLES h, done
GInit == Init /\ h = <<>> /\ done = FALSE
GNext == /\ ~done /\ nops < MaxOps /\ nops' = nops + 1 /\ done' = (nops' = MaxOps) /\ UNCHANGED <<s, hist>>
         /\ \E c \in RandomSubset(1, 1 .. 22), k \in RandomSubset(1, Ks), tv \in RandomSubset(1, {"none", "time", "both"}), f \in RandomSubset(1, {"elev", "x", "tag", "crater", "region"}) :
              h' = Append(h, IF c <= 8 THEN [op |-> "edit", f |-> f]
                             ELSE IF c <= 14 THEN [op |-> "save", k |-> k, tv |-> tv]
                             ELSE IF c <= 16 THEN [op |-> "csave", k |-> k, which |-> IF tv = "none" THEN "both" ELSE IF tv = "time" THEN "observed" ELSE "emplaced"]
                             ELSE IF c = 17 THEN [op |-> "regsave", k |-> k]
                             ELSE IF c = 18 THEN [op |-> "reset"]
                             ELSE IF c = 19 THEN [op |-> "creset"]
                             ELSE IF c = 20 THEN [op |-> "reopen"]
                             ELSE [op |-> "export", k |-> k])
GSpec == GInit /\ [][GNext]_<<vars, h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
