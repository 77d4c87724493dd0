---------------------------- MODULE TraceObserved ----------------------------
(* Recorded counting histories against Observed.                             *)
(* trace: reg, rim : <<atoms of crater c>>, dia : <<rank>>, counted : <<bool>>, na *)
(* every event carries obs : <<crater>>, tags : <<atom -> <<crater>>>>,      *)
(* uniform : every face of an atom carries the same tags                     *)
EXTENDS TraceBase, FiniteSets
O == INSTANCE Observed WITH NC <- 0, NA <- 0, MaxSaves <- 0, tags <- 0, obs <- 0, files <- 0, interval <- 0, reg <- 0, rim <- 0, dia <- 0
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
Sets(ss) == [i \in 1 .. Len(ss) |-> SetOf(ss[i])]

Start(trace) == [tags |-> [a \in 1 .. trace.na |-> {}], obs |-> {}, saved |-> [tags |-> [a \in 1 .. trace.na |-> {}], obs |-> {}]]

RECURSIVE Adds(_, _, _)
Adds(trace, r, cs) ==
    IF cs = <<>> THEN r
    ELSE Adds(trace, O!AfterAdd(r.tags, r.obs, cs[1], trace.counted[cs[1]], Sets(trace.reg), Sets(trace.rim), trace.dia), Tail(cs))

Expect(trace, s, e, got) ==
    LET cur == [tags |-> s.tags, obs |-> s.obs]
    IN  IF e.op = "add" THEN Adds(trace, cur, <<e.c>>)
        ELSE IF e.op = "emplace"
             THEN LET r == Adds(trace, cur, e.cs)       \* formation is followed by a tally
                  IN  O!AfterTally(r.tags, r.obs, r.obs \ got.obs)
        ELSE IF e.op = "remove" THEN O!AfterRemove(s.tags, s.obs, {e.c})
        ELSE IF e.op = "tally" THEN O!AfterTally(s.tags, s.obs, SetOf(e.faded) \cap s.obs)
        ELSE IF e.op = "orphan" THEN [cur EXCEPT !.tags = [a \in DOMAIN s.tags |-> IF a \in SetOf(e.atoms) THEN s.tags[a] \cup {e.c} ELSE s.tags[a]]]
        ELSE IF e.op = "reopen" THEN s.saved
        ELSE IF e.op = "reset" THEN [tags |-> [a \in DOMAIN s.tags |-> {}], obs |-> {}]
        ELSE cur
Judge(trace, s, e) ==
    LET got == [tags |-> Sets(e.tags), obs |-> SetOf(e.obs)]
        x   == Expect(trace, s, e, got)
        c   == IF ~e.uniform THEN "faces of one area carry different tags"
               ELSE IF e.op # "orphan" /\ ~O!Consistent(got.tags, got.obs) THEN "observed list and surface tags disagree"
               ELSE IF got.obs # x.obs THEN "wrong craters listed as observed"
               ELSE IF got.tags # x.tags THEN "wrong tags on the surface"
               ELSE IF Cardinality(got.obs) # Len(e.obs) \/ e.nobs # Len(e.obs) THEN "number of observed craters wrong"
               ELSE ""
    IN  [bad |-> c, st |-> [tags |-> x.tags, obs |-> x.obs,
                            saved |-> IF e.op = "save" \/ e.op = "reset" THEN x ELSE s.saved]]
=============================================================================
