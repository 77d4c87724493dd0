----------------------------- MODULE TraceTables -----------------------------
(* Recorded lists of craters, the tables they went to and what was read back *)
(*   save  k, emplaced, observed : the lists in memory, attributes as values *)
(*   read  k, how, emplaced, observed : what reading the saved table gives   *)
(*   csv   k, which, back, raw (rows as columns -> value)                    *)
(*   scc   k, which, back (measured diameter, longitude, latitude)           *)
(*   hand  given, back : a table written by a user                           *)
EXTENDS TraceBase, FiniteSets
T == INSTANCE CraterTables WITH Vals <- {}, MaxLen <- 0, MaxOps <- 0, mem <- 0, files <- 0, said <- 0, n <- 0
Kinds == {"emplaced", "observed"}
Start(trace) == [x \in Kinds |-> <<>>]
Has(s, x, k) == k \in DOMAIN s[x]
Said(s, x, k) == IF Has(s, x, k) THEN s[x][k] ELSE <<>>
\* columns that do not depend on how a circular crater is written
Plain == {"id", "name", "time", "longitude", "latitude", "measured_longitude", "measured_latitude", "production_D", "production_N",
          "production_N_stdev", "production_time", "production_time_stdev", "production_sequence", "degradation_state", "orientation", "projectile_velocity", "projectile_mass"}
Only(r) == [k \in DOMAIN r \cap Plain |-> r[k]]
Same(a, b) == <<IF Len(a) # Len(b) THEN "another number of craters read back" ELSE "craters differ after reading back", T!SameBag(a, b)>>
SccOf(c) == IF "measured_diameter" \in DOMAIN c /\ "measured_location" \in DOMAIN c THEN T!Scc(c) ELSE <<0, 0, 0>>
\* a table by hand says which attributes a crater has; those not mentioned of these stay absent
Optional == {"name", "time", "production_ND", "production_time", "production_sequence", "degradation_state", "measured_rim_height"}
HandOk(g, b) == /\ \A a \in DOMAIN g : a \in DOMAIN b /\ b[a] = g[a]
                /\ \A a \in Optional : a \in DOMAIN b => a \in DOMAIN g
Judge(trace, s, e) ==
    IF e.op = "save" THEN
       Ok([x \in Kinds |-> LET new == e[x] IN [k \in (DOMAIN s[x] \cup {e.k}) \ (IF new = <<>> THEN {e.k} ELSE {}) |-> IF k = e.k THEN new ELSE s[x][k]]])
    ELSE LET b == FirstBad(
       IF e.op = "read" THEN <<Same(Said(s, "emplaced", e.k), e.emplaced), Same(Said(s, "observed", e.k), e.observed)>>
       ELSE IF e.op = "csv" THEN
            <<Same(Said(s, e.which, e.k), e.back),
              <<"a row of the file is not that of its crater", T!SameBag([i \in 1 .. Len(Said(s, e.which, e.k)) |-> Only(T!Row(Said(s, e.which, e.k)[i]))],
                                                                          [i \in 1 .. Len(e.raw) |-> Only(e.raw[i])])>> >>
       ELSE IF e.op = "scc" THEN
            LET want == [i \in 1 .. Len(Said(s, e.which, e.k)) |-> SccOf(Said(s, e.which, e.k)[i])] IN
            <<Same(want, e.back), Same(want, e.raw)>>
       ELSE IF e.op = "hand" THEN
            << <<"another number of craters read back", Len(e.given) = Len(e.back)>>,
               <<"a table by hand was read wrongly", \A i \in 1 .. Len(e.given) : HandOk(e.given[i], e.back[i])>> >>
       ELSE <<>>)
    IN IF b # "" THEN Fail(b) ELSE Ok(s)
=============================================================================
