-------------------------- MODULE TraceRunRequest --------------------------
(* Recorded requests against RunRequest.  Times are integers (1e-5 My).      *)
(* event: op ("run" "populate" "sample"), g (names of the arguments given),  *)
(*  good (no value outside its range), t (the time each span argument stands *)
(*  for), n, dt, done, chg (what the call changed), set/time (clock          *)
(*  afterwards), first/nsave (time of the first and number of states saved   *)
(*  by the call), num/exp/lo/hi (size, expected size, times of the sample)   *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE RunRequest WITH T <- 0, MaxReq <- 0, MaxN <- 0, clock <- 0, saved <- 0, last <- 0, nreq <- 0
Tol == 5
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Start(trace) == [set |-> FALSE, time |-> 0]
ToSet(s) == {s[i] : i \in 1 .. Len(s)}

Span(c, e) == LET g == ToSet(e.g) IN [ts |-> S!From(c, g, LAMBDA a : e.t[a]), te |-> S!To(g, LAMBDA a : e.t[a]), n |-> e.n, dt |-> e.dt]
Legal(c, e) ==
    LET g == ToSet(e.g)
    IN IF ~e.good THEN FALSE
       ELSE IF e.op = "sample" THEN S!SampleMix(g) /\ (LET s == Span(c, e) IN s.ts > s.te)
       ELSE IF ~S!RunMix(c, g) THEN FALSE
       ELSE LET s == Span(c, e)
            IN IF e.op = "run" THEN s.ts > s.te /\ s.te >= 0 /\ (c.set => s.ts >= c.time - Tol) /\ e.dt <= s.ts - s.te + Tol
               ELSE s.ts > s.te /\ s.te >= 0

JudgeRun(c, e) ==
    LET s == Span(c, e)  t == IF c.set /\ c.time < s.te THEN c.time ELSE s.te
        b == FirstBad(<< <<"the run did not end at the requested time", e.set /\ Near(e.time, t)>>,
                         <<"the run did not start at the requested time", ~c.set => Near(e.first, s.ts)>>,
                         <<"the run was not divided as requested", ~c.set => e.nsave = S!Intervals(s) + 1>> >>)
    IN IF b # "" THEN Fail(b) ELSE Ok([set |-> TRUE, time |-> e.time])

Sqrt8(x) == CHOOSE k \in 0 .. 2000 : k * k >= 64 * x /\ (k = 0 \/ (k - 1) * (k - 1) < 64 * x)
JudgeSample(c, e) ==
    LET s == Span(c, e)
        b == FirstBad(<< <<"a crater was drawn outside the requested time span", e.num = 0 \/ (e.lo >= s.te - Tol /\ e.hi <= s.ts + Tol)>>,
                         <<"the craters do not cover the requested time span", e.num < 60 \/ ~e.flat \/ e.hi - e.lo >= ((s.ts - s.te) \div 10) * 6>>,
                         <<"the sample does not have the size the request stands for", e.exp < 0 \/ (e.num - e.exp <= Sqrt8(e.exp) + 8 /\ e.exp - e.num <= Sqrt8(e.exp) + 8)>>,
                         <<"a crater was drawn outside the requested diameter range", e.inrange>>,
                         <<"drawing a population changed something else", ToSet(e.chg) \subseteq (IF e.op = "sample" THEN {"stream"} ELSE {"stream", "surface", "craters"})>> >>)
    IN IF b # "" THEN Fail(b) ELSE Ok(c)

Judge(trace, c, e) ==
    IF Legal(c, e)
    THEN IF ~e.done THEN Fail("a legal request was refused")
         ELSE IF e.op = "run" THEN JudgeRun(c, e) ELSE JudgeSample(c, e)
    ELSE IF e.done THEN Fail("a contradictory or illegal request was accepted")
         ELSE IF e.chg # <<>> THEN Fail("a refused request changed something") ELSE Ok(c)
=============================================================================
