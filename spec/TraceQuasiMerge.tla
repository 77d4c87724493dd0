-------------------------- MODULE TraceQuasiMerge --------------------------
(* Recorded merges of the real code against QuasiMerge.                      *)
(* trace.sched : <<[i, d, t]>> with the times the code assigned              *)
(* event merge : [op, from, to, R : <<[i, d, t]>>, M : <<[k, i, d, t]>>]     *)
(*   t = -1 in R means "no time given"; all times are ranks.                 *)
(* event end   : [op, from, to]  the whole span covered by the merges        *)
EXTENDS TraceBase, FiniteSets
Q == INSTANCE QuasiMerge WITH MaxD <- 0, MaxT <- 0, NR <- 0, NQ <- 0,
                              sched <- 0, now <- 0, last <- 0, done <- 0

Start(trace) == [done |-> [i \in 1 .. Len(trace.sched) |-> 0]]

Rec(k, s) == {[k |-> k, i |-> s[j].i, d |-> s[j].d, t |-> s[j].t] : j \in 1 .. Len(s)}

JudgeMerge(trace, s, e) ==
    LET Qw == {q \in Rec("s", trace.sched) : Q!InWin(q.t, e.from, e.to)}
        Rw == {r \in Rec("r", e.R) : r.t = -1 \/ Q!InWin(r.t, e.from, e.to)}
        M  == e.M
        d2 == [i \in DOMAIN s.done |-> s.done[i] + Cardinality({j \in 1 .. Len(M) : M[j].k = "s" /\ M[j].i = i})]
        c  == IF ~Q!EachScheduledOnce(M, Qw) THEN "scheduled crater of the interval not inserted exactly once"
              ELSE IF ~Q!NoForeignScheduled(M, Qw) THEN "scheduled crater from outside the interval inserted"
              ELSE IF ~Q!SizesKept(M, Qw) THEN "scheduled crater changed size"
              ELSE IF ~Q!RandomsKeptOnce(M, Rw) THEN "random crater duplicated, altered or from outside the interval"
              ELSE IF ~Q!DisplacedRight(M, Rw, Qw) THEN "wrong random craters displaced"
              ELSE IF ~Q!OldestFirst(M) THEN "merged list not oldest first"
              ELSE IF \E j \in 1 .. Len(M) : ~Q!InWin(M[j].t, e.from, e.to) THEN "merged crater outside the interval"
              ELSE IF \E j \in 1 .. Len(M) : M[j].k = "r" /\ \E r \in Rw : r.i = M[j].i /\ r.t # -1 /\ r.t # M[j].t
                   THEN "random crater changed its time"
              ELSE IF \E j \in 1 .. Len(M) : M[j].k = "s" /\ \E q \in Qw : q.i = M[j].i /\ q.t # M[j].t
                   THEN "scheduled crater changed its time"
              ELSE ""
    IN  [bad |-> c, st |-> [done |-> d2]]

JudgeEnd(trace, s, e) ==
    IF \A i \in DOMAIN s.done :
          s.done[i] = IF Q!InWin(trace.sched[i].t, e.from, e.to) THEN 1 ELSE 0
    THEN Ok(s) ELSE Fail("scheduled crater not used exactly once over the whole span")

\* A whole simulation run: counts of each scheduled crater among those handed to emplacement.
JudgeRun(trace, s, e) ==
    LET M == e.M
        Qw == {q \in Rec("s", trace.sched) : Q!InWin(q.t, e.from, e.to)}
        d2 == [i \in DOMAIN s.done |-> s.done[i] + Cardinality({j \in 1 .. Len(M) : M[j].k = "s" /\ M[j].i = i})]
        c == IF ~Q!EachScheduledOnce(M, Qw) THEN "interval of a run: scheduled crater not inserted exactly once"
             ELSE IF ~Q!NoForeignScheduled(M, Qw) THEN "interval of a run: scheduled crater from another interval"
             ELSE IF ~Q!OldestFirst(M) THEN "interval of a run: craters not oldest first"
             ELSE ""
    IN  [bad |-> c, st |-> [done |-> d2]]

Judge(trace, s, e) ==
    CASE e.op = "merge" -> JudgeMerge(trace, s, e)
      [] e.op = "run"   -> JudgeRun(trace, s, e)
      [] e.op = "end"   -> JudgeEnd(trace, s, e)
      [] OTHER          -> Fail("unknown event")
=============================================================================
