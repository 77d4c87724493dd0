---------------------------- MODULE TraceSchedule ----------------------------
(* Recorded offers of scheduled craters and the times they were given.        *)
(*   offer  cs  : [seq, kind ("none"|"exact"|"range"), lo, hi, inr]           *)
(*          done, out : times parallel to cs (<<>> left out), in 1e-5 My      *)
(*          dev : distance from the mean, exact: 1e-6 My, range: 1e-3 sd      *)
(*   again  same : reading the list once more gave the same times             *)
(*   many   ratio : 1000 * spread of many equal offers / their deviation      *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE Schedule WITH NSeq <- 1, Top <- 0, MaxPer <- 1, NMax <- 0, con <- 0, ext <- 0, round <- 0, drawn <- 0, phase <- 0
Start(trace) == 0
Desc(s) == \A i \in 1 .. Len(s) - 1 : s[i + 1] <= s[i]
Judge(trace, s, e) ==
    LET b == FirstBad(
       IF e.op = "offer" THEN
          IF ~e.done THEN
            << <<"a consistent list was refused", ~S!MustSucceed(e.cs)>>,
               <<"a refused list changed the schedule", e.kept>> >>
          ELSE
            << <<"a list without an anchor for its oldest sequence was accepted", S!LowestStated(e.cs)>>,
               <<"a crater did not get exactly one time", \A i \in DOMAIN e.cs : Len(e.out[i]) = (IF S!Has(e.cs[i]) THEN 1 ELSE 0)>>,
               <<"a crater nobody offered was scheduled", e.extra = 0>>,
               <<"a scheduled crater is not the one offered", e.same>>,
               <<"a time in the future", \A i \in DOMAIN e.cs : e.out[i] # <<>> => e.out[i][1] >= 0>>,
               <<"a time beyond the valid range", \A i \in DOMAIN e.cs : (e.out[i] # <<>> /\ e.top >= 0) => e.out[i][1] <= e.top>>,
               <<"sequences in the wrong order", S!OrderOk(e.cs, e.out)>>,
               <<"an exact time was changed", \A i \in DOMAIN e.cs : (e.cs[i].kind = "exact" /\ e.cs[i].inr /\ S!Free(e.cs, i)) => e.dev[i] <= 5>>,
               <<"a time far outside its deviation", \A i \in DOMAIN e.cs : (e.cs[i].kind = "range" /\ e.cs[i].inr /\ S!Free(e.cs, i)) => e.dev[i] <= 8000>>,
               <<"the schedule is not in order of time", Desc(e.list)>> >>
       ELSE IF e.op = "again" THEN << <<"reading the schedule again changed it", e.same>> >>
       ELSE IF e.op = "many" THEN << <<"the times do not follow the deviation", e.ratio \in 400 .. 1700>>, <<"the times are not around the mean", e.mean \in -1000 .. 1000>> >>
       ELSE <<>>)
    IN IF b # "" THEN Fail(b) ELSE Ok(s)
=============================================================================
