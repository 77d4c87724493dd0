--------------------------- MODULE TraceProduction ---------------------------
(* Recorded questions and answers of a production function.                   *)
(*   set    key, val, done, now (what the object reports afterwards)          *)
(*   table  zero (the column of the empty span), tbl (ranks), chron (ranks)   *)
(*   span   v : numbers of adjacent spans, chron : the same of the chronology *)
(*   forms  what, f : the same question in every accepted form                *)
(*   age, dia  inverse questions                                              *)
(*   fresh  the same questions to a new object with the same settings         *)
(*   refuse ask, done                                                         *)
EXTENDS TraceBase, FiniteSets
P == INSTANCE Production WITH Versions <- 1, Diams <- 1, Tmax <- 0, MaxOps <- 0, version <- 0, cache <- 0, search <- 0, ans <- 0, n <- 0
Start(trace) == trace.settings
Judge(trace, s, e) ==
    IF e.op = "set" THEN
       LET legal == e.text = FALSE /\ P!LegalSet(e.key, e.val)
           s2 == IF legal THEN [s EXCEPT ![e.key] = P!SetTo(e.key, e.val)] ELSE s
           b == FirstBad(<< <<"a legal setting was refused", legal => e.done>>,
                            <<"an illegal setting was accepted", ~legal => ~e.done>>,
                            <<"the setting reported is not the one asked for", \A k \in DOMAIN s2 : e.now[k] = s2[k]>> >>)
       IN IF b # "" THEN Fail(b) ELSE Ok(s2)
    ELSE LET b == FirstBad(
       IF e.op = "table" THEN
            << <<"the number grows with diameter", P!TableFalls(e.tbl)>>,
               <<"the number shrinks with time span", P!TableRises(e.tbl)>>,
               <<"an empty span has craters", P!ZeroAt(e.tbl, e.zero)>>,
               <<"the number shrinks when the span ends earlier", P!TableRises(e.ends)>>,
               <<"the chronology shrinks with time", P!Rising(e.chron)>> >>
       ELSE IF e.op = "span" THEN
            << <<"adjacent spans do not add up", P!SpanAdds(e.v) /\ P!SpanAdds(e.c)>>,
               <<"a part of a span has more craters", P!SpanGrows(e.v) /\ P!SpanGrows(e.c)>>,
               <<"an empty span has craters", P!SpanEmpty(e.v) /\ P!SpanEmpty(e.c)>> >>
       ELSE IF e.op = "forms" THEN
            << <<"an accepted form was refused: " \o e.what, \A i \in 1 .. Len(e.f) : e.f[i].ok>>,
               <<"a form of the question gives another shape of answer: " \o e.what, \A i \in 1 .. Len(e.f) : Len(e.f[i].v) = e.f[i].want>>,
               <<"a form of the question gives another answer: " \o e.what, \A i \in 1 .. Len(e.f) : P!FormOk(e.f[i])>> >>
       ELSE IF e.op = "age" THEN
            << <<"an age was not found", e.done>>,
               <<"the age found does not reproduce the number", P!Reproduces(e)>>,
               <<"the age found is outside the valid range", e.inr>> >>
       ELSE IF e.op = "dia" THEN
            << <<"a diameter was not found", e.done>>,
               <<"the diameter found does not reproduce the number", P!Reproduces(e)>> >>
       ELSE IF e.op = "fresh" THEN
            << <<"the answer depends on earlier settings or questions", P!FormOk([v |-> e.rel])>> >>
       ELSE IF e.op = "refuse" THEN
            << <<"an illegal question was answered", ~(e.why = "span" /\ P!LegalSpan(e.ranged, e.lo, e.hi, e.a, e.b)) => ~e.done>> >>
       ELSE <<>>)
    IN IF b # "" THEN Fail(b) ELSE Ok(s)
=============================================================================
