---------------------------- MODULE GenTagLayers ----------------------------
(* Behaviours of TagLayers as scenarios (simulation mode).                    *)
EXTENDS TagLayers, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == /\ Next
         /\ hist' = Append(hist, last')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == n = MaxOps => PrintT("SCN " \o ToJson(hist))
=============================================================================
