------------------------------ MODULE GenTables ------------------------------
(* Histories of craters with different attributes, saves, exports and reads. *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done
Shapes == {"circ", "ell", "rad", "proj", "trans"}
Prods == {"none", "time1", "time2", "nd2", "nd3", "seq", "timeseq"}
Meas == {"none", "diam", "ell", "loc", "rim", "deg", "all"}
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE
Add == \E s \in Pick(Shapes), p \in Pick(Prods), m \in Pick(Meas), t \in Pick({TRUE, FALSE}), nm \in Pick({"none", "none", "text", "number", "quote", "nan"}),
          lc \in Pick({"any", "any", "pole", "seam", "zero"}) :
         h' = Append(h, [op |-> "add", shape |-> s, prod |-> p, meas |-> m, time |-> t, name |-> nm, loc |-> lc])
Next == /\ ~done
        /\ \E c \in Pick(1 .. 20), k \in Pick(0 .. 3), w \in Pick({"emplaced", "observed", "both"}), v \in Pick({"interval", "file", "all"}) :
             IF c <= 8 THEN Add
             ELSE h' = Append(h, IF c = 9 THEN [op |-> "dup"]
                                 ELSE IF c <= 13 THEN [op |-> "save", k |-> k]
                                 ELSE IF c <= 14 THEN [op |-> "clear", which |-> w]
                                 ELSE IF c <= 16 THEN [op |-> "csv", k |-> k, all |-> v = "all"]
                                 ELSE IF c <= 18 THEN [op |-> "scc", k |-> k, all |-> v = "all"]
                                 ELSE IF c = 19 THEN [op |-> "hand"]
                                 ELSE [op |-> "nothing"])
        /\ done' = (Len(h') = MaxOps)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
