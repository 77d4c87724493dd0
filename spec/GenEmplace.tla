----------------------------- MODULE GenEmplace -----------------------------
(* Hand-over histories of Emplace (overlaps, sizes, list lengths).           *)
EXTENDS Emplace, Json, Randomization
VARIABLES hist, set
GInit == /\ over = {} /\ small = {} /\ set = FALSE
         /\ handed = 0 /\ queue = <<>> /\ active = {} /\ formed = <<>> /\ hist = <<>>
GSet == /\ ~set /\ set' = TRUE
        /\ \E n \in 0 .. Cardinality(Pairs) : over' = RandomSubset(n, Pairs)
        /\ \E n \in 0 .. 2 : small' = RandomSubset(n, 1 .. N)
        /\ UNCHANGED <<handed, queue, active, formed, hist>>
GNext == GSet \/ (set /\ UNCHANGED set /\
         (\/ \E k \in 1 .. N : Hand(k) /\ hist' = Append(hist, k)
          \/ TakeSome /\ UNCHANGED hist
          \/ (\E i \in 1 .. N : Form(i)) /\ UNCHANGED hist))
GSpec == GInit /\ [][GNext]_<<vars, hist, set>>
Emit == (handed = N /\ Idle) => PrintT("SCN " \o ToJson([over |-> over, small |-> small, lens |-> hist]))
=============================================================================
