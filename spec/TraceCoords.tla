----------------------------- MODULE TraceCoords -----------------------------
(* Normalisations done by the real code.  trace.q : grid units per quarter.   *)
(* event norm : [op, form, inp : <<<<lon, lat>>>>, out : <<<<lon, lat>>>>]    *)
(* event bad  : [op, form, refused : BOOLEAN]                                 *)
(* event real : [op, inp, out, range, idem] inputs off the grid, rounded      *)
EXTENDS TraceBase
C == INSTANCE Coords WITH Q <- 1, Span <- 1, lon <- 0, lat <- 0, last <- ""
Start(trace) == 0
Judge(trace, s, e) ==
    CASE e.op = "norm" ->
            IF Len(e.out) # Len(e.inp) THEN Fail("number of locations changed")
            ELSE IF \E i \in 1 .. Len(e.out) : ~C!InRange(e.out[i], trace.q) THEN Fail("result outside the canonical range")
            ELSE IF \E i \in 1 .. Len(e.out) : ~C!SamePoint(e.out[i], C!Canon(e.inp[i][1], e.inp[i][2], trace.q), trace.q)
                 THEN Fail("result denotes another point")
            ELSE IF e.again # e.out THEN Fail("normalising twice changes the result")
            ELSE Ok(s)
      [] e.op = "bad" -> IF e.refused THEN Ok(s) ELSE Fail("malformed location accepted")
      [] e.op = "real" -> IF ~e.range THEN Fail("result outside the canonical range")
                          ELSE IF ~e.idem THEN Fail("normalising twice changes the result")
                          ELSE IF ~C!SamePoint(C!Canon(e.out[1], e.out[2], trace.q), C!Canon(e.inp[1], e.inp[2], trace.q), trace.q)
                               THEN Fail("result denotes another point")
                          ELSE Ok(s)
      [] OTHER -> Fail("unknown event")
=============================================================================
