------------------------------ MODULE Consent ------------------------------
(* Files of earlier results, who they belong to, and the questions asked     *)
(* before they are discarded.  disk : file -> version ; own : file -> class. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the classes of files an operation may discard
Target(op) ==
    IF op = "sreset" THEN {"surface", "simg"}
    ELSE IF op = "creset" THEN {"counting", "cimg"}
    ELSE IF op = "simreset" THEN {"surface", "simg", "counting", "cimg"}
    ELSE IF op \in {"regrid", "openreset"} THEN {"surface", "simg", "counting", "cimg", "grid"}
    ELSE IF op = "export" THEN {"export"}
    ELSE {}
InTarget(op, own, F) == {f \in F : own[f] \in Target(op)}
\* the files the answers p = <<[f |-> files the question names, ans |-> answer]>> agree to, of those at stake
RECURSIVE Agreed(_, _, _)
Agreed(p, stake, all) ==
    IF p = <<>> THEN {}
    ELSE LET q == p[1] IN
         IF q.ans = "a" THEN stake
         ELSE (IF q.ans = "y" THEN (IF q.f = {} THEN stake ELSE q.f) ELSE {}) \cup Agreed(Tail(p), stake, all)
Refused(p) == \E i \in DOMAIN p : p[i].ans = "n"
Changed(d, e) == {f \in DOMAIN d : f \notin DOMAIN e \/ e[f] # d[f]}
AskedAfterAll(p) == \E i, j \in DOMAIN p : i < j /\ p[i].ans = "a"

\* the rules an operation obeys: d before, e after
OnlyConsented(op, own, ask, p, d, e) ==
    LET stake == InTarget(op, own, DOMAIN d)
    IN  Changed(d, e) \cap stake \subseteq (IF ask THEN Agreed(p, stake, DOMAIN d) ELSE stake)
OnlyOwn(op, own, d, e) == Changed(d, e) \subseteq InTarget(op, own, DOMAIN d)
Quiet(ask, p) == ~ask => p = <<>>
RefusalStops(p) == \A i \in DOMAIN p : p[i].ans = "n" => i = Len(p)

(* ================= the bounded model ================= *)
CONSTANTS Files, MaxVer, MaxOps
VARIABLES disk, op, agreed, ask, off, todo, prev, prompts, n
vars == <<disk, op, agreed, ask, off, todo, prev, prompts, n>>
Own == [f \in Files |-> IF f \in {"s0", "s1"} THEN "surface" ELSE IF f = "i0" THEN "simg" ELSE IF f = "c0" THEN "counting"
                        ELSE IF f \in {"x0", "x1"} THEN "export" ELSE IF f = "g" THEN "grid" ELSE "foreign"]
Ops == {"sreset", "creset", "simreset", "regrid", "export", "none"}
Init == /\ disk = [f \in Files |-> 0] /\ op = "none" /\ agreed = {} /\ ask \in BOOLEAN /\ off = FALSE /\ todo = {} /\ prev = disk /\ prompts = <<>> /\ n = 0
\* an operation starts and lists what it would discard
Begin == /\ todo = {} /\ n < MaxOps /\ n' = n + 1
         /\ \E o \in Ops : op' = o /\ todo' = InTarget(o, Own, DOMAIN disk)
         /\ prev' = disk /\ agreed' = {} /\ off' = FALSE /\ prompts' = <<>> /\ UNCHANGED <<disk, ask>>
Without(d, f) == [g \in DOMAIN d \ {f} |-> d[g]]
Renew(d, o) == LET back == IF o \in {"sreset", "simreset", "regrid"} THEN {"s0"} \cup (IF o = "regrid" THEN {"g"} ELSE {}) ELSE IF o = "export" THEN {"x0"} ELSE {}
               IN [g \in DOMAIN d \cup back |-> IF g \in back THEN n ELSE d[g]]
Step == /\ todo # {}
        /\ \E f \in todo :
             \/ /\ ~ask \/ off
                /\ disk' = IF todo = {f} THEN Renew(Without(disk, f), op) ELSE Without(disk, f)
                /\ todo' = todo \ {f} /\ UNCHANGED <<agreed, off, prompts>>
             \/ /\ ask /\ ~off
                /\ \E a \in {"y", "n", "a"} :
                     /\ prompts' = Append(prompts, [f |-> {f}, ans |-> a])
                     /\ IF a = "n" THEN todo' = {} /\ UNCHANGED <<disk, agreed, off>>
                        ELSE /\ disk' = (IF todo = {f} THEN Renew(Without(disk, f), op) ELSE Without(disk, f))
                             /\ todo' = todo \ {f} /\ off' = (a = "a") /\ agreed' = agreed \cup {f}
        /\ UNCHANGED <<op, prev, ask, n>>
\* new results appear
Work == /\ todo = {} /\ n < MaxOps /\ n' = n + 1 /\ op' = "none" /\ prev' = disk /\ prompts' = <<>> /\ agreed' = {} /\ off' = FALSE
        /\ \E f \in Files : disk' = [g \in DOMAIN disk \cup {f} |-> IF g \in DOMAIN disk THEN disk[g] ELSE n]
        /\ UNCHANGED <<ask, todo>>
Next == Begin \/ Step \/ Work
Spec == Init /\ [][Next]_vars
Consented == op # "none" => OnlyConsented(op, Own, ask, prompts, prev, disk)
OwnOnly == OnlyOwn(op, Own, prev, disk)
NoQuestions == Quiet(ask, prompts)
AllIsAll == ~AskedAfterAll(prompts)
StopsThere == RefusalStops(prompts)
KeptIfRefused == Refused(prompts) => \A f \in DOMAIN prev : (\E i \in DOMAIN prompts : prompts[i].ans = "n" /\ f \in prompts[i].f) => f \in DOMAIN disk /\ disk[f] = prev[f]
ForeignStays == \A f \in DOMAIN prev : Own[f] = "foreign" => f \in DOMAIN disk /\ disk[f] = prev[f]
=============================================================================
