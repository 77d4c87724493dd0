------------------------------ MODULE GenSimRun ------------------------------
(* Histories of SimRun: requests, and stops at any point of a request.       *)
EXTENDS SimRun, Json, Randomization, TLC
VARIABLES hist, done
GInit == Init /\ hist = <<>> /\ done = FALSE
GRun == /\ phase = "idle" /\ nrun < MaxRun
        /\ \E a \in RandomSubset(2, 1 .. T), b \in RandomSubset(2, 0 .. T - 1), d \in RandomSubset(2, 1 .. T), m \in RandomSubset(1, {"time", "time", "number"}) :
             LET req == [ts |-> a, te |-> b, cuts |-> TimeCuts(a, b, d)]
             IN  IF Legal(clock, req)
                 THEN Run(req) /\ hist' = Append(hist, [op |-> "run", ts |-> a, te |-> b, d |-> d, m |-> m])
                 ELSE /\ nrun < MaxRun /\ nrun' = nrun + 1
                      /\ hist' = Append(hist, [op |-> "run", ts |-> a, te |-> b, d |-> d, m |-> m])
                      /\ UNCHANGED <<clock, work, files, plan, phase, nstop, goal>>
GStop == Stop /\ hist' = Append(hist, [op |-> "stop", phase |-> phase, k |-> clock.interval])
GNext == /\ ~done
         /\ \/ GRun /\ UNCHANGED done
            \/ GStop /\ UNCHANGED done
            \/ (SaveInitial \/ Form \/ Tick \/ Save \/ Reopen) /\ UNCHANGED <<hist, done>>
            \/ phase = "idle" /\ nrun = MaxRun /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist, done>>
Emit == done => PrintT("SCN " \o ToJson(hist))
=============================================================================
