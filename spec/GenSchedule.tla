----------------------------- MODULE GenSchedule -----------------------------
(* Lists of scheduled craters with every mixture of constraints.  Times and   *)
(* deviations are levels the driver turns into numbers.                       *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxLen
VARIABLES h, done, m
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE
        /\ m \in [tags : {"all", "none", "some"}, order : {"apart", "apart", "touching", "any"}, how : {"list", "list", "file"}, len : 1 .. MaxLen]
Next == /\ ~done
        /\ \E k \in Pick({"t0", "t0", "tf", "ts", "ts", "tw", "n0", "n2", "ns", "nw", "none", "none", "both"}), q \in Pick(0 .. 4), g \in Pick(0 .. 20), tag \in Pick({TRUE, FALSE}) :
             h' = Append(h, [kind |-> k, seq |-> IF m.tags = "all" \/ (m.tags = "some" /\ tag) THEN q ELSE -1, level |-> g])
        /\ done' = (Len(h') >= m.len) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<h, done, m>>
Emit == done => PrintT("SCN " \o ToJson([m |-> m, h |-> h]))
=============================================================================
