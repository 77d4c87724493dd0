------------------------------- MODULE SimRun -------------------------------
(* A simulation's run loop, its clock, its saved states and its restart.     *)
(* Times are integers counting down to the present (0).  A request           *)
(* [ts, te, cuts] covers ts down to te and is divided at the times cuts      *)
(* (strictly between ts and te, descending): equal times or equal crater     *)
(* numbers.  Work done on the surface is the sequence of time windows whose  *)
(* craters have been emplaced.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, MaxRun, MaxStop, WithRestart
VARIABLES
  clock,     \* [set, time, start, interval, elapsed]
  work,      \* windows <<from, to>> emplaced on the surface in memory
  files,     \* saved states: interval -> [clock, work]
  plan,      \* what is left of the current request: sequence of window ends
  phase,     \* "idle" "initial" "window" "formed" "half" "down"
  nrun, nstop,
  goal       \* the time at which the clock has to be when nothing is going on

vars == <<clock, work, files, plan, phase, nrun, nstop, goal>>

NoClock == [set |-> FALSE, time |-> 0, start |-> 0, interval |-> 0, elapsed |-> 0]
Range(s) == {s[i] : i \in 1 .. Len(s)}

(* ---- requests ---- *)
\* division of ts..te into equal time intervals of length d (the last one shorter)
RECURSIVE TimeCuts(_, _, _)
TimeCuts(ts, te, d) == IF ts - d <= te THEN <<>> ELSE <<ts - d>> \o TimeCuts(ts - d, te, d)
Ends(req) == Append(req.cuts, req.te)
\* a request is legal now: the clock has not passed its start, time is left
Legal(c, req) == req.ts > req.te /\ req.te >= 0 /\ (c.set => req.ts >= c.time)
\* the window ends still ahead of time t
Ahead(req, t) == SelectSeq(Ends(req), LAMBDA e : e < t)

(* ---- transitions on the clock, shared with the trace module ---- *)
Begin(c, req) == IF c.set THEN c ELSE [NoClock EXCEPT !.set = TRUE, !.time = req.ts, !.start = req.ts]
Advance(c, e) == [c EXCEPT !.time = e, !.interval = c.interval + 1, !.elapsed = c.elapsed + (c.time - e)]

Init == /\ clock = NoClock /\ work = <<>> /\ files = <<>> /\ plan = <<>>
        /\ phase = "idle" /\ nrun = 0 /\ nstop = 0 /\ goal = 0
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Last(f) == CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : j <= i

Requests == {[ts |-> a, te |-> b, cuts |-> TimeCuts(a, b, d)] : a \in 1 .. T, b \in 0 .. T - 1, d \in 1 .. T}
Uneven == {[ts |-> a, te |-> 0, cuts |-> <<a - 1>>] : a \in 2 .. T}        \* equal numbers are unequal times
Run(req) == /\ phase = "idle" /\ nrun < MaxRun /\ Legal(clock, req)
            /\ LET c == Begin(clock, req)
               IN /\ clock' = c /\ plan' = Ahead(req, c.time)
            /\ phase' = IF DOMAIN files = {} THEN "initial" ELSE IF Ahead(req, clock'.time) = <<>> THEN "idle" ELSE "window"
            /\ nrun' = nrun + 1 /\ goal' = IF req.te < clock'.time THEN req.te ELSE clock'.time
            /\ UNCHANGED <<work, files, nstop>>
SaveInitial == /\ phase = "initial" /\ phase' = IF plan = <<>> THEN "idle" ELSE "window"
               /\ files' = Put(files, clock.interval, [clock |-> clock, work |-> work])
               /\ UNCHANGED <<clock, work, plan, nrun, nstop, goal>>
Form == /\ phase = "window" /\ phase' = "formed"
        /\ work' = Append(work, <<clock.time, Head(plan)>>)
        /\ UNCHANGED <<clock, files, plan, nrun, nstop, goal>>
Tick == /\ phase = "formed" /\ phase' = "half"
        /\ clock' = Advance(clock, Head(plan))
        /\ UNCHANGED <<work, files, plan, nrun, nstop, goal>>
\* the crater list is written first, the surface file commits the interval
Save == /\ phase = "half"
        /\ files' = Put(files, clock.interval, [clock |-> clock, work |-> work])
        /\ plan' = Tail(plan) /\ phase' = IF Tail(plan) = <<>> THEN "idle" ELSE "window"
        /\ UNCHANGED <<clock, work, nrun, nstop, goal>>
\* the process ends anywhere (between runs: an orderly stop)
Stop == /\ WithRestart /\ phase # "down" /\ nstop < MaxStop /\ DOMAIN files # {}
        /\ phase' = "down" /\ nstop' = nstop + 1 /\ plan' = <<>>
        /\ clock' = NoClock /\ work' = <<>>
        /\ UNCHANGED <<files, nrun, goal>>
Reopen == /\ phase = "down" /\ phase' = "idle"
          /\ clock' = files[Last(files)].clock /\ work' = files[Last(files)].work
          /\ goal' = clock'.time
          /\ UNCHANGED <<files, plan, nrun, nstop>>
Next == \/ \E req \in Requests \cup Uneven : Run(req)
        \/ SaveInitial \/ Form \/ Tick \/ Save \/ Stop \/ Reopen
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
ClockOk(c) == c.set => c.elapsed = c.start - c.time /\ c.time >= 0 /\ c.elapsed >= 0
ClockAdds == ClockOk(clock)
SavedNumbered == DOMAIN files # {} => DOMAIN files = 0 .. Last(files)
SavedAddUp == \A i \in DOMAIN files : ClockOk(files[i].clock) /\ files[i].clock.interval = i
SavedFall == \A i, j \in DOMAIN files : i < j => files[i].clock.time > files[j].clock.time
\* the surface holds every window from the start to the current time once, in order
Covers(w, from, to) ==
    /\ (w = <<>> => from = to)
    /\ (w # <<>> => w[1][1] = from /\ w[Len(w)][2] = to)
    /\ \A k \in 1 .. Len(w) : w[k][1] > w[k][2]
    /\ \A k \in 1 .. Len(w) - 1 : w[k][2] = w[k + 1][1]
WorkAdds == \A i \in DOMAIN files : Covers(files[i].work, files[i].clock.start, files[i].clock.time)
\* at the end of a request the clock shows exactly its end (or was already past it)
EndReached == phase = "idle" /\ clock.set => clock.time = goal
NoRewrite == [][\A i \in DOMAIN files : i \in DOMAIN files' /\ files'[i] = files[i]]_vars
RestartIsLast == [][Reopen => clock' = files[Last(files)].clock]_vars
=============================================================================
