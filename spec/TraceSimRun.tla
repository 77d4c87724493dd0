---------------------------- MODULE TraceSimRun ----------------------------
(* Recorded simulations against SimRun.  Times are integers (1e-5 My).       *)
(* events:                                                                   *)
(*  run     [ts, te, dt, n, pn]    a request (dt # 0: equal times; otherwise *)
(*          n intervals of equal crater number); pn = share of its craters   *)
(*          (ppm) that the current clock leaves to come                      *)
(*  craters [t]   times of the craters handed to emplacement, in order       *)
(*  save    [interval, time, elapsed, n1, N1, pn]   a state has been saved   *)
(*  emplaced[t, n] times of the craters formed since the previous save       *)
(*  end / refused [clock]          the request has returned / was refused    *)
(*  stop                           the process ended                         *)
(*  reopen  [clock, el, tags, obs, emp, rng, cfg] state after reopening,     *)
(*          compared with the last saved one                                 *)
(*  disk    [f]   all saved states as read back                              *)
(*  twin    [...] comparison with the uninterrupted simulation               *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE SimRun WITH T <- 0, MaxRun <- 0, MaxStop <- 0, WithRestart <- TRUE, clock <- 0, work <- 0, files <- 0,
                          plan <- 0, phase <- 0, nrun <- 0, nstop <- 0, goal <- 0
Tol == 2
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Close(a, b) == a - b <= 20 /\ b - a <= 20        \* the recorded dt is rounded
PTol == 100
Start(trace) == [c |-> S!NoClock, files |-> <<>>, req |-> [on |-> FALSE], now |-> <<>>, pn |-> 1000000, goal |-> 0, exact |-> TRUE]

SameClock(c, e) == /\ e.interval = c.interval
                   /\ (IF c.set THEN Near(e.time, c.time) ELSE e.time = -1)
                   /\ Near(e.elapsed, c.elapsed)
N1Ok(e) == LET d == e.n1 - e.N1 IN d <= 50 /\ d >= -50

JudgeRun(s, e) ==
    LET req == [ts |-> e.ts, te |-> e.te, cuts |-> IF e.dt # 0 THEN S!TimeCuts(e.ts, e.te, e.dt) ELSE <<>>]
        legal == /\ e.ts - e.te > Tol /\ e.te >= 0 /\ (s.c.set => e.ts >= s.c.time - Tol)
                 /\ (e.dt # 0 => e.dt > 0 /\ e.dt <= e.ts - e.te + Tol)
        c == IF legal THEN S!Begin(s.c, req) ELSE s.c
    IN  Ok([s EXCEPT !.req = [on |-> TRUE, legal |-> legal, new |-> ~s.c.set, ts |-> e.ts, te |-> e.te, dt |-> e.dt, n |-> e.n],
                     !.c = c, !.pn = e.pn,
                     !.goal = IF legal /\ e.te < c.time - Tol THEN e.te ELSE c.time])

\* where the current interval has to end, given the clock
NextTime(s) == LET es == S!Ahead([ts |-> s.req.ts, te |-> s.req.te, cuts |-> S!TimeCuts(s.req.ts, s.req.te, s.req.dt)], s.c.time - 20)
               IN  IF es = <<>> THEN -5 ELSE es[1]
\* the cuts of equal crater number: remaining shares (n-1)/n ... 0 in ppm
NextShare(s) == LET n == s.req.n
                    ks == {k \in 0 .. n - 1 : k * 1000000 < n * (s.pn - PTol)}
                IN  IF ks = {} THEN -1 ELSE (CHOOSE k \in ks : \A j \in ks : j <= k)
ShareOk(s, e) == LET k == NextShare(s) d == e.pn * s.req.n - k * 1000000
                 IN  k >= 0 /\ d <= PTol * s.req.n /\ d >= -(PTol * s.req.n) /\ (k = 0 => Near(e.time, s.req.te))
Initial(s) == DOMAIN s.files = {}
JudgeSave(s, e) ==
    IF ~s.req.on \/ ~s.req.legal THEN Fail("a refused request saved a state")
    ELSE IF Initial(s) THEN
        IF ~SameClock(s.c, e) THEN Fail("the initial state is not the requested start")
        ELSE IF ~N1Ok(e) THEN Fail("elapsed production is wrong")
        ELSE Ok([s EXCEPT !.files = S!Put(s.files, e.interval, s.c)])
    ELSE IF e.interval = s.c.interval /\ SameClock(s.c, e) /\ N1Ok(e) THEN Ok(s)        \* the same state saved again
    ELSE IF e.interval # s.c.interval + 1 THEN Fail("intervals are not numbered consecutively")
    ELSE IF e.time >= s.c.time - Tol THEN Fail("the clock did not move")
    ELSE IF e.time < s.goal - Tol THEN Fail("the clock passed the requested end")
    ELSE IF s.req.dt # 0 /\ ~Close(e.time, NextTime(s)) THEN Fail("the interval does not end where the request says")
    ELSE IF s.req.dt = 0 /\ ~ShareOk(s, e) THEN Fail("the interval does not hold its share of the craters")
    ELSE IF \E i \in 1 .. Len(s.now) : s.now[i] < e.time - Tol THEN Fail("a crater is younger than its interval")
    ELSE LET c == S!Advance(s.c, e.time)
         IN  IF ~SameClock(c, e) THEN Fail("elapsed time is not start minus current time")
             ELSE IF ~N1Ok(e) THEN Fail("elapsed production is wrong")
             ELSE Ok([s EXCEPT !.c = c, !.pn = e.pn, !.now = <<>>, !.files = S!Put(s.files, e.interval, c)])
JudgeCraters(s, e) ==
    IF \E i \in 1 .. Len(e.t) : e.t[i] < 0 THEN Fail("a crater has no time")
    ELSE IF \E i \in 1 .. Len(e.t) : e.t[i] > s.c.time + Tol THEN Fail("a crater is older than its interval")
    ELSE IF \E i \in 1 .. Len(e.t) - 1 : e.t[i] < e.t[i + 1] THEN Fail("craters are not handed on oldest first")
    ELSE Ok([s EXCEPT !.now = s.now \o e.t])
\* craters formed since the previous save lie in the interval just saved
JudgeEmplaced(s, e) ==
    LET k == s.c.interval
        from == IF k - 1 \in DOMAIN s.files THEN s.files[k - 1].time ELSE s.c.time
    IN  IF \E i \in 1 .. Len(e.t) : e.t[i] < s.c.time - Tol \/ e.t[i] > from + Tol THEN Fail("a formed crater lies outside its interval")
        ELSE Ok(s)
JudgeEnd(s, e) ==
    IF ~s.req.legal THEN Fail("a request that cannot be met was accepted")
    ELSE IF ~Near(e.time, s.goal) THEN Fail("the run did not reach exactly the requested end")
    ELSE IF ~SameClock(s.c, e) THEN Fail("the clock changed after the last save")
    ELSE Ok([s EXCEPT !.req = [on |-> FALSE]])
JudgeRefused(s, e) ==
    IF s.req.legal THEN Fail("a legal request was refused")
    ELSE IF ~SameClock(s.c, e) THEN Fail("a refused request changed the clock")
    ELSE Ok([s EXCEPT !.req = [on |-> FALSE]])
JudgeStop(s, e) == Ok([s EXCEPT !.req = [on |-> FALSE], !.now = <<>>, !.c = IF DOMAIN s.files = {} THEN S!NoClock ELSE s.files[S!Last(s.files)]])
JudgeReopen(s, e) ==
    IF ~SameClock(s.c, e) THEN Fail("reopening does not restore the clock of the last saved state")
    ELSE IF ~N1Ok(e) THEN Fail("reopening does not restore the elapsed production")
    ELSE IF ~e.el THEN Fail("reopening does not restore the elevations")
    ELSE IF ~e.tags THEN Fail("reopening does not restore the crater tags")
    ELSE IF ~e.obs THEN Fail("reopening does not restore the observed craters")
    ELSE IF ~e.emp THEN Fail("the emplaced craters of the last interval are not restored")
    ELSE IF ~e.rng THEN Fail("reopening does not restore the random stream")
    ELSE IF ~e.cfg THEN Fail("reopening does not restore the configuration")
    ELSE Ok(s)
JudgeDisk(s, e) ==
    IF DOMAIN s.files = {} THEN Ok(s)
    ELSE IF {e.f[i].num : i \in 1 .. Len(e.f)} # DOMAIN s.files \/ Len(e.f) # Cardinality(DOMAIN s.files) THEN Fail("the saved intervals are not those of the run")
    ELSE IF \E i \in 1 .. Len(e.f) : ~SameClock(s.files[e.f[i].num], e.f[i]) THEN Fail("a saved state's clock is not the one at saving")
    ELSE Ok(s)
JudgeTwin(s, e) ==
    IF ~e.nums THEN Fail("the split run has other intervals than the uninterrupted one")
    ELSE IF ~e.times THEN Fail("the split run has other times than the uninterrupted one")
    ELSE IF ~e.craters THEN Fail("the split run has other craters than the uninterrupted one")
    ELSE IF ~e.el THEN Fail("the split run has another surface than the uninterrupted one")
    ELSE IF ~e.kept THEN Fail("an interval saved before the split was changed")
    ELSE Ok(s)

Judge(trace, s, e) ==
    IF e.op = "run" THEN JudgeRun(s, e)
    ELSE IF e.op = "save" THEN JudgeSave(s, e)
    ELSE IF e.op = "craters" THEN JudgeCraters(s, e)
    ELSE IF e.op = "emplaced" THEN JudgeEmplaced(s, e)
    ELSE IF e.op = "end" THEN JudgeEnd(s, e)
    ELSE IF e.op = "refused" THEN JudgeRefused(s, e)
    ELSE IF e.op = "stop" THEN JudgeStop(s, e)
    ELSE IF e.op = "reopen" THEN JudgeReopen(s, e)
    ELSE IF e.op = "disk" THEN JudgeDisk(s, e)
    ELSE IF e.op = "twin" THEN JudgeTwin(s, e)
    ELSE Fail("unknown event")
=============================================================================
