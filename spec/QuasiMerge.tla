----------------------------- MODULE QuasiMerge -----------------------------
(* C15: merging scheduled (quasi-Monte Carlo) craters into the random        *)
(* population of successive time intervals.                                  *)
(*                                                                           *)
(* A crater is a record [k, i, d, t]: kind "r" (random) or "s" (scheduled),  *)
(* index, diameter, time before present.  An interval (from, to] in the      *)
(* direction of time is the set of times  to < t <= from  (times decrease).  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

InWin(t, from, to) == t <= from /\ t > to

SeqToSet(s) == {s[i] : i \in 1 .. Len(s)}
SortBy(S, Lt(_, _)) == SetToSortSeq(S, Lt)
BySize(x, y) == x.d < y.d
ByAge(x, y)  == x.t > y.t

\* ---------------------------------------------------------------- algorithm
\* One pass over the random craters in ascending size; the smallest pending
\* scheduled crater takes the place of the first random crater that is at
\* least as large.
RECURSIVE Pass(_, _)
Pass(rs, qs) ==
    IF rs = <<>> THEN qs
    ELSE IF qs = <<>> THEN rs
    ELSE IF rs[1].d < qs[1].d THEN <<rs[1]>> \o Pass(Tail(rs), qs)
    ELSE <<qs[1]>> \o Pass(Tail(rs), Tail(qs))

Merge(R, Q, from, to) ==
    LET Rw == {x \in R : InWin(x.t, from, to)}
        Qw == {x \in Q : InWin(x.t, from, to)}
    IN  SortBy(SeqToSet(Pass(SortBy(Rw, BySize), SortBy(Qw, BySize))), ByAge)

\* ------------------------------------------------------- declarative contract
\* Sizes displaced when scheduled sizes (ascending) each take the smallest
\* random size not yet taken that is at least as large.
RECURSIVE Taken(_, _)
Taken(rs, qs) ==
    IF rs = <<>> \/ qs = <<>> THEN <<>>
    ELSE IF rs[1] < qs[1] THEN Taken(Tail(rs), qs)
    ELSE <<rs[1]>> \o Taken(Tail(rs), Tail(qs))

RECURSIVE SortInts(_)
\* ascending sequence of the diameters of a set of craters (with repetition)
SortInts(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x.d <= y.d
                    IN  <<m.d>> \o SortInts(S \ {m})

\* R, Q: offered random and scheduled craters inside the interval; M: result.
EachScheduledOnce(M, Qw) ==
    \A q \in Qw : Cardinality({j \in 1 .. Len(M) : M[j].k = "s" /\ M[j].i = q.i}) = 1
NoForeignScheduled(M, Qw) ==
    \A j \in 1 .. Len(M) : M[j].k = "s" => \E q \in Qw : q.i = M[j].i
RandomsKeptOnce(M, Rw) ==
    /\ \A j \in 1 .. Len(M) : M[j].k = "r" => \E r \in Rw : r.i = M[j].i /\ r.d = M[j].d
    /\ \A r \in Rw : Cardinality({j \in 1 .. Len(M) : M[j].k = "r" /\ M[j].i = r.i}) <= 1
Displaced(M, Rw) == {r \in Rw : \A j \in 1 .. Len(M) : ~(M[j].k = "r" /\ M[j].i = r.i)}
DisplacedRight(M, Rw, Qw) == SortInts(Displaced(M, Rw)) = Taken(SortInts(Rw), SortInts(Qw))
OldestFirst(M) == \A j \in 1 .. Len(M) - 1 : M[j].t >= M[j + 1].t
SizesKept(M, Qw) == \A j \in 1 .. Len(M) : M[j].k = "s" => \E q \in Qw : q.i = M[j].i /\ q.d = M[j].d

\* -------------------------------------------------------------- state machine
CONSTANTS MaxD, MaxT, NR, NQ
VARIABLES sched,     \* the scheduled craters, fixed for the run
          now,       \* current time
          last,      \* last interval: [R, from, to, M]
          done       \* scheduled index -> number of times inserted so far
vars == <<sched, now, last, done>>

NoInterval == [R |-> {}, from |-> 0, to |-> 0, M |-> <<>>]

Init == /\ sched \in {S \in SUBSET [k : {"s"}, i : 1 .. NQ, d : 1 .. MaxD, t : 0 .. MaxT] :
                         \A x, y \in S : x.i = y.i => x = y}
        /\ now = MaxT
        /\ last = NoInterval
        /\ done = [i \in 1 .. NQ |-> 0]

RandomSets == {R \in SUBSET [k : {"r"}, i : 1 .. NR, d : 1 .. MaxD, t : 0 .. MaxT] :
                  \A x, y \in R : x.i = y.i => x = y}

Interval(to, R) ==
    /\ now > to
    /\ LET M == Merge(R, sched, now, to)
       IN  /\ last' = [R |-> R, from |-> now, to |-> to, M |-> M]
           /\ done' = [i \in 1 .. NQ |-> done[i] + Cardinality({j \in 1 .. Len(M) : M[j].k = "s" /\ M[j].i = i})]
    /\ now' = to
    /\ UNCHANGED sched

Next == \E to \in 0 .. MaxT - 1 : \E R \in RandomSets : Interval(to, R)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
LastQ == {q \in sched : InWin(q.t, last.from, last.to)}
LastR == {r \in last.R : InWin(r.t, last.from, last.to)}
MergeRight ==
    last # NoInterval =>
       /\ EachScheduledOnce(last.M, LastQ) /\ NoForeignScheduled(last.M, LastQ)
       /\ RandomsKeptOnce(last.M, LastR) /\ DisplacedRight(last.M, LastR, LastQ)
       /\ OldestFirst(last.M) /\ SizesKept(last.M, LastQ)
       \* consequences of the displacement rule
       /\ Cardinality(Displaced(last.M, LastR)) <= Cardinality(LastQ)
       /\ \A r \in Displaced(last.M, LastR) : \E q \in LastQ : q.d <= r.d
ExactlyOnceOverall ==
    \A i \in 1 .. NQ :
        done[i] = IF \E q \in sched : q.i = i /\ InWin(q.t, MaxT, now) THEN 1 ELSE 0
=============================================================================
