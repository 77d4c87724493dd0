--------------------------- MODULE GenQuasiMerge ---------------------------
(* Behaviours of QuasiMerge as scenarios for the real code (simulation mode). *)
EXTENDS QuasiMerge, Json
VARIABLE hist
Pick(k, n) == {[k |-> k, i |-> i, d |-> RandomElement(1 .. MaxD), t |-> RandomElement(0 .. MaxT)] : i \in 1 .. n}
GInit == /\ sched = {}
         /\ now = MaxT /\ last = NoInterval /\ done = [i \in 1 .. NQ |-> 0]
         /\ hist = <<>>
\* The schedule is fixed first (hist is empty until the first interval).
GSched == /\ hist = <<>> /\ sched = {}
          /\ \E n \in 1 .. NQ : \E S \in {Pick("s", n)} : sched' = S
          /\ UNCHANGED <<now, last, done, hist>>
GStep == \E to \in 0 .. now - 1 : \E n \in 0 .. NR : \E R \in {Pick("r", n)} :
            /\ Interval(to, R)
            /\ hist' = Append(hist, [from |-> now, to |-> to, R |-> R])
GNext == GSched \/ GStep
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == now = 0 => PrintT("SCN " \o ToJson([sched |-> sched, steps |-> hist]))
=============================================================================
