---------------------------- MODULE GenProduction ----------------------------
(* Histories of settings and questions put to one production function.        *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT MaxOps
VARIABLES h, done, model
Pick(S) == RandomSubset(1, S)
Init == h = <<>> /\ done = FALSE /\ model \in {"neukum", "powerlaw"}
Sets == IF model = "neukum"
        THEN [op : {"set"}, key : {"version"}, val : {"Moon", "moon", "MOON", "Mars", "mars", "Projectile", "projectile", "PROJECTILE", "Venus", "Moons", ""}]
        ELSE [op : {"set"}, key : {"slope", "N1_coef"}, val : {"pos", "neg", "small", "text"}]
             \cup [op : {"set"}, key : {"generator_type"}, val : {"crater", "projectile", "Crater", "PROJECTILE", "asteroid"}]
Next == /\ ~done
        /\ \E c \in Pick(1 .. 16), s \in Pick(Sets), w \in Pick({"mid", "lo", "hi", "below", "above", "edge"}), f \in Pick({"number", "age", "dia", "chron", "csfd"}),
              x \in Pick({"order", "late", "early", "negD", "negN", "unreachable"}) :
             h' = Append(h, IF c <= 4 THEN s
                            ELSE IF c <= 6 THEN [op |-> "table", where |-> w]
                            ELSE IF c <= 8 THEN [op |-> "span", where |-> w]
                            ELSE IF c <= 10 THEN [op |-> "forms", what |-> f, where |-> w]
                            ELSE IF c <= 12 THEN [op |-> "age", where |-> w]
                            ELSE IF c <= 14 THEN [op |-> "dia", where |-> w]
                            ELSE IF c = 15 THEN [op |-> "fresh"]
                            ELSE [op |-> "refuse", why |-> x])
        /\ done' = (Len(h') = MaxOps) /\ UNCHANGED model
Spec == Init /\ [][Next]_<<h, done, model>>
Emit == done => PrintT("SCN " \o ToJson([model |-> model, h |-> h]))
=============================================================================
