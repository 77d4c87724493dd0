----------------------------- MODULE GenCoords -----------------------------
EXTENDS Coords, Json, TLC
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, <<lon', lat'>>)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = 12 => PrintT("SCN " \o ToJson(hist))
=============================================================================
