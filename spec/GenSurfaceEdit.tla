--------------------------- MODULE GenSurfaceEdit ---------------------------
(* Behaviours of SurfaceEdit as scenarios (simulation mode).                  *)
EXTENDS SurfaceEdit, Json
VARIABLE hist
RegSeq == <<Atoms, 1 .. NA - 1, 2 .. NA, {2}>>
GInit == Init /\ hist = <<>>
GEdit == \E f \in Names : \E ri \in 1 .. 4 : \E over, pos \in BOOLEAN : \E fill \in {0, 1} :
           \E v \in {[a \in Atoms |-> IF a \in RegSeq[ri] THEN RandomElement(V) ELSE 0]} :
            /\ Edit(f, [reg |-> RegSeq[ri], v |-> v, over |-> over, pos |-> pos], fill)
            /\ hist' = Append(hist, [op |-> "edit", f |-> f, r |-> ri, over |-> over, pos |-> pos, fill |-> fill, v |-> v])
GNext == /\ Len(hist) < MaxOps
         /\ \/ GEdit
            \/ Refuse /\ hist' = Append(hist, [op |-> "refuse"])
            \/ Reset /\ hist' = Append(hist, [op |-> "reset"])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = MaxOps => PrintT("SCN " \o ToJson(hist))
=============================================================================
