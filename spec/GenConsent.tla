------------------------------ MODULE GenConsent ------------------------------
(* Histories of resets, reopenings, exports and new results, with answers.   *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Pick(S) == RandomSubset(1, S)
Answers == {<<"y">>, <<"n">>, <<"a">>, <<"Y">>, <<"A">>, <<"">>, <<"N">>, <<"y", "n">>, <<"y", "a">>, <<"y", "y", "n">>, <<"n", "y">>, <<"no">>, <<"y", "", "y">>}
Drivers == {"VTK", "GPKG", "GeoTIFF", "CSV", "SCC"}
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \E c \in Pick(1 .. 20), a \in Pick(Answers), b \in Pick({"on", "on", "on1", "off"}), k \in Pick({0, 1, 2, 9}), drv \in Pick(Drivers), w \in Pick({"surface", "counting", "sim"}) :
             h' = Append(h, [ans |-> a, ask |-> b # "off"] @@
                  (IF c <= 3 THEN [op |-> "sreset"]
                   ELSE IF c <= 6 THEN [op |-> "creset"]
                   ELSE IF c <= 9 THEN [op |-> "simreset"]
                   ELSE IF c <= 11 THEN [op |-> "open", how |-> w]
                   ELSE IF c = 12 THEN [op |-> "regrid"]
                   ELSE IF c <= 17 THEN [op |-> "export", what |-> w, driver |-> drv, k |-> k, arg |-> b]
                   ELSE [op |-> "work", k |-> k]))
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
