---------------------------- MODULE TraceEmplace ----------------------------
(* Recorded emplacements against Emplace.                                    *)
(* events:                                                                   *)
(*  hand  [n, small, unsure, over]  craters handed+1 .. handed+n handed over *)
(*        with the sizes and overlaps (also with earlier ones, irrelevant)   *)
(*  batch [b]      a batch (hand-over numbers) the queue offered             *)
(*  done  [order, more, same, left]  the craters added to the emplaced list  *)
(*        by this call, in order; more = # of unknown or missing old entries;*)
(*        same = surface equals forming the craters one after another        *)
(*  peek/pop on a queue driven directly: [op, q, b] / [op, q]                *)
EXTENDS TraceBase, FiniteSets
E == INSTANCE Emplace WITH N <- 0, FreeBatches <- FALSE, over <- 0, small <- 0, handed <- 0, queue <- 0, active <- 0, formed <- 0

Start(trace) == [q |-> <<>>, over |-> {}, must |-> {}, may |-> {}, handed |-> 0]
SetOf(s) == {s[i] : i \in 1 .. Len(s)}

JudgeHand(s, e) ==
    LET ids == (s.handed + 1) .. (s.handed + e.n)
    IN  Ok([s EXCEPT !.over = SetOf(e.over), !.must = ids \ (SetOf(e.small) \cup SetOf(e.unsure)),
                     !.may = ids \ SetOf(e.small), !.handed = s.handed + e.n])
JudgeBatch(s, e) ==
    IF ~E!Once(e.b) THEN Fail("a crater is twice in one batch")
    ELSE IF ~E!Disjoint(s.over, SetOf(e.b)) THEN Fail("overlapping craters in one batch")
    ELSE Ok(s)
JudgeDone(s, e) ==
    IF e.more # 0 THEN Fail("the emplaced list lost or gained foreign entries")
    ELSE IF ~E!Once(e.order) THEN Fail("a crater was formed more than once")
    ELSE IF ~(SetOf(e.order) \subseteq s.may) THEN Fail("a crater too small for the surface was formed")
    ELSE IF ~(s.must \subseteq SetOf(e.order)) THEN Fail("a crater was never formed")
    ELSE IF ~E!InOrder(s.over, e.order) THEN Fail("overlapping craters formed out of order")
    ELSE IF ~e.same THEN Fail("the surface differs from forming the craters one after another in the order given")
    ELSE Ok([s EXCEPT !.must = {}, !.may = {}])
\* a queue driven directly
JudgePush(s, e) == Ok([s EXCEPT !.q = Append(s.q, e.i)])
JudgePeek(trace, s, e) ==
    LET ov == SetOf(trace.over)
    IN  IF s.q = <<>> THEN (IF e.b = <<>> THEN Ok(s) ELSE Fail("an empty queue offered craters"))
        ELSE IF ~E!Once(e.b) \/ ~E!Legal(ov, s.q, SetOf(e.b)) THEN Fail("batch overlaps itself, skips an older overlapping crater, or is empty")
        ELSE Ok(s)
JudgePop(s, e) == Ok([s EXCEPT !.q = SelectSeq(s.q, LAMBDA i : i \notin SetOf(e.b))])
JudgeEmpty(s, e) == IF e.empty = (s.q = <<>>) THEN Ok(s) ELSE Fail("queue reports empty wrongly")

Judge(trace, s, e) ==
    IF e.op = "hand" THEN JudgeHand(s, e)
    ELSE IF e.op = "batch" THEN JudgeBatch(s, e)
    ELSE IF e.op = "done" THEN JudgeDone(s, e)
    ELSE IF e.op = "push" THEN JudgePush(s, e)
    ELSE IF e.op = "peek" THEN JudgePeek(trace, s, e)
    ELSE IF e.op = "pop" THEN JudgePop(s, e)
    ELSE IF e.op = "empty" THEN JudgeEmpty(s, e)
    ELSE Fail("unknown event")
=============================================================================
