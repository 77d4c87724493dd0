---------------------------- MODULE TraceCraterReq ----------------------------
(* event request : [op, args, bad, res, given : <<[f, ratio]>>, rel : record]  *)
(*  ratios are 1000000 * reported / expected, so agreement is 1000000 +- Tol.  *)
EXTENDS TraceBase, FiniteSets
R == INSTANCE CraterReq WITH MaxArgs <- 0, Pool <- {}, req <- {}, made <- 0, refused <- 0
Start(trace) == 0
Tol == 2
Near(x) == x >= 1000000 - Tol /\ x <= 1000000 + Tol
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Judge(trace, s, e) ==
    IF e.op # "request" THEN Fail("unknown event")
    ELSE LET v == R!Verdict(ToSet(e.args), ToSet(e.bad)) IN
    IF v = "refuse" THEN (IF e.res = "refused" THEN Ok(s) ELSE Fail("contradictory or out-of-range request accepted"))
    ELSE IF e.res # "accepted" THEN Fail("legal request refused")
    ELSE IF \E i \in 1 .. Len(e.given) : ~Near(e.given[i].ratio) THEN Fail("an explicitly given value is not the value reported")
    ELSE IF \E k \in DOMAIN e.rel : ~Near(e.rel[k]) THEN Fail("derived quantities disagree")
    ELSE IF ~e.positive THEN Fail("a size or velocity is not positive")
    ELSE IF ~e.inrange THEN Fail("angle, direction or location out of range")
    ELSE Ok(s)
=============================================================================
