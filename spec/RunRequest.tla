----------------------------- MODULE RunRequest -----------------------------
(* Requests to run, to populate and to sample.  A request is a function from *)
(* the names of the arguments that were given to their values.  A span can   *)
(* be given as an age, as start and end times, or as cumulative crater       *)
(* numbers, per area ("nd") or in total ("dn"); the chronology Chron turns   *)
(* times into numbers.  BAD stands for a value outside the argument's legal  *)
(* range or of a wrong kind.                                                 *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS T, MaxReq, MaxN
VARIABLES clock, saved, last, nreq

BAD == -1
Chron(t) == t * t + t                      \* any strictly increasing function
Inv(n) == CHOOSE t \in 0 .. T : Chron(t) = n
Numbers == {Chron(t) : t \in 0 .. T}

RunArgs == {"age", "ts", "te", "nd", "nde", "dn", "dne", "n", "dt"}
SampleArgs == {"age", "ts", "te", "nd", "nde", "dn", "dne", "range", "area", "ct"}
Starts == {"age", "ts", "nd", "dn"}
Endings == {"te", "nde", "dne"}
Given(r) == DOMAIN r
Good(r) == \A a \in Given(r) : r[a] # BAD

(* ---- which arguments go together ---- *)
\* a run is given one start; the end is given the same way as the start
RunMix(c, g) ==
    /\ ~({"n", "dt"} \subseteq g)
    /\ LET s == g \cap Starts  e == g \cap Endings
       IN \/ s = {"age"} /\ e = {}
          \/ s = {"ts"} /\ e \subseteq {"te"}
          \/ s = {"nd"} /\ e \subseteq {"nde"}
          \/ s = {"dn"} /\ e \subseteq {"dne"}
          \/ s = {} /\ e = {"te"} /\ c.set          \* goes on from the current time
\* a sample is given one start and at most one end, in any form
SampleMix(g) == Cardinality(g \cap Starts) = 1 /\ Cardinality(g \cap Endings) <= 1

(* ---- the one span a request stands for (times) ---- *)
\* tm(a): the time the value of argument a stands for
From(c, g, tm(_)) == IF g \cap Starts = {} THEN c.time ELSE tm(CHOOSE a \in g \cap Starts : TRUE)
To(g, tm(_)) == IF g \cap Endings = {} THEN 0 ELSE tm(CHOOSE a \in g \cap Endings : TRUE)
TimeOf(r, a) == IF a \in {"nd", "dn", "nde", "dne"} THEN Inv(r[a]) ELSE r[a]
Resolve(c, r) == [ts |-> From(c, Given(r), LAMBDA a : TimeOf(r, a)), te |-> To(Given(r), LAMBDA a : TimeOf(r, a)),
                  n |-> IF "n" \in Given(r) THEN r["n"] ELSE IF "dt" \in Given(r) THEN 0 ELSE 1,
                  dt |-> IF "dt" \in Given(r) THEN r["dt"] ELSE 0]
SpanOk(c, ts, te) == ts > te /\ te >= 0 /\ (c.set => ts >= c.time)
LegalRun(c, r) ==
    /\ Good(r) /\ RunMix(c, Given(r))
    /\ LET s == Resolve(c, r)
       IN SpanOk(c, s.ts, s.te) /\ ("dt" \in Given(r) => r["dt"] <= s.ts - s.te)
LegalSample(r) ==
    /\ Good(r) /\ SampleMix(Given(r))
    /\ LET s == Resolve([set |-> FALSE, time |-> 0], r) IN s.ts > s.te /\ s.te >= 0

Intervals(s) == IF s.dt = 0 THEN s.n ELSE (s.ts - s.te + s.dt - 1) \div s.dt

(* ---- transitions ---- *)
Value(a) == IF a \in {"nd", "dn", "nde", "dne"} THEN Numbers ELSE IF a \in {"n", "dt"} THEN 1 .. MaxN ELSE IF a \in {"age", "ts"} THEN 1 .. T ELSE 0 .. T - 1
Requests == UNION {{r \in [g -> Numbers \cup 0 .. T \cup {BAD}] : \A a \in g : r[a] \in Value(a) \cup {BAD}} : g \in {g \in SUBSET RunArgs : Cardinality(g) <= 3}}
\* a manageable part of them: at most one bad value
Asked == {r \in Requests : Cardinality({a \in Given(r) : r[a] = BAD}) <= 1}

Init == clock = [set |-> FALSE, time |-> 0] /\ saved = <<>> /\ last = [kind |-> "none"] /\ nreq = 0
Run == /\ nreq < MaxReq /\ nreq' = nreq + 1
       /\ \E r \in Asked :
            IF LegalRun(clock, r)
            THEN LET s == Resolve(clock, r)
                     t == IF clock.set /\ clock.time < s.te THEN clock.time ELSE s.te
                 IN  /\ clock' = [set |-> TRUE, time |-> t]
                     /\ saved' = IF saved = <<>> THEN <<s.ts, t>> ELSE IF t < clock.time THEN Append(saved, t) ELSE saved
                     /\ last' = [kind |-> "done", mix |-> Given(r), s |-> s]
            ELSE /\ last' = [kind |-> "refused", mix |-> Given(r)] /\ UNCHANGED <<clock, saved>>
Next == Run
Spec == Init /\ [][Next]_<<clock, saved, last, nreq>>

(* ---- properties ---- *)
RefusedChangesNothing == [][last'.kind = "refused" => UNCHANGED <<clock, saved>>]_<<clock, saved, last, nreq>>
NeverContradicted == last.kind = "done" =>
    /\ Cardinality(last.mix \cap Starts) <= 1 /\ Cardinality(last.mix \cap Endings) <= 1
    /\ Cardinality(last.mix \cap {"n", "dt"}) <= 1
    /\ last.mix \cap (Starts \cup Endings) # {}
    /\ last.s.ts > last.s.te /\ last.s.te >= 0 /\ Intervals(last.s) >= 1
ClockFalls == [][clock.set => clock'.set /\ clock'.time <= clock.time]_<<clock, saved, last, nreq>>
SavedFall == \A i \in 1 .. Len(saved) - 1 : saved[i] > saved[i + 1]
\* the same span resolves to the same times in whatever form it is given
Fresh == [set |-> FALSE, time |-> 0]
FormsAgree == \A a, b \in 0 .. T : a > b =>
    LET forms == {[x \in {"ts", "te"} |-> IF x = "ts" THEN a ELSE b], [x \in {"nd", "nde"} |-> IF x = "nd" THEN Chron(a) ELSE Chron(b)],
                  [x \in {"dn", "dne"} |-> IF x = "dn" THEN Chron(a) ELSE Chron(b)]} \cup (IF b = 0 THEN {[x \in {"age"} |-> a], [x \in {"ts"} |-> a], [x \in {"nd"} |-> Chron(a)]} ELSE {})
    IN \A r \in forms : LegalRun(Fresh, r) /\ LegalSample(r) /\ Resolve(Fresh, r).ts = a /\ Resolve(Fresh, r).te = b
=============================================================================
