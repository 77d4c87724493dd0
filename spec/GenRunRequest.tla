--------------------------- MODULE GenRunRequest ---------------------------
(* Every combination of arguments, and every argument of a combination that  *)
(* fits together with a bad value.                                           *)
EXTENDS RunRequest, Json, TLC
VARIABLE q
AnyClock == [set |-> TRUE, time |-> 0]
RunQ == {[kind |-> k, g |-> g, bad |-> b] : k \in {"run"}, g \in SUBSET RunArgs, b \in RunArgs \cup {"none"}}
PopQ == {[kind |-> "populate", g |-> g, bad |-> b] : g \in SUBSET (RunArgs \ {"n", "dt"}), b \in RunArgs \cup {"none"}}
SamQ == {[kind |-> "sample", g |-> g, bad |-> b] : g \in SUBSET SampleArgs, b \in SampleArgs \cup {"none"}}
Fits(x) == IF x.kind = "sample" THEN SampleMix(x.g) ELSE RunMix(AnyClock, x.g)
Wanted(x) == x.bad = "none" \/ (x.bad \in x.g /\ Fits(x))
GInit == /\ q \in {x \in RunQ \cup PopQ \cup SamQ : Wanted(x)}
         /\ Init
GNext == FALSE /\ UNCHANGED <<q, clock, saved, last, nreq>>
GSpec == GInit /\ [][GNext]_<<q, clock, saved, last, nreq>>
Emit == PrintT("SCN " \o ToJson([kind |-> q.kind, g |-> q.g, bad |-> q.bad, fits |-> Fits(q)]))
=============================================================================
