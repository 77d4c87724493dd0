------------------------------- MODULE Config -------------------------------
(* Settings of a simulation: which value each of them has after creation,    *)
(* assignment, replacement of a component, saving and reopening.             *)
(* A memory m = [ch |-> component -> model, set |-> setting -> value]; a     *)
(* setting outside DOMAIN m.set has the default that follows from the models *)
(* and the material.  tb holds the tables of defaults.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Owner(k) == IF k \in {"radius", "mass", "tst", "tmat", "tdens"} THEN "target"
            ELSE IF k \in {"smat", "K1", "mu", "Ybar", "mc"} THEN "scaling"
            ELSE IF k \in {"version", "slope", "N1", "Dconv", "Nconv"} THEN "production"
            ELSE IF k \in {"pdens", "pvel"} THEN "projectile"
            ELSE IF k = "gridlevel" THEN "surface"
            ELSE IF k \in {"small", "large"} THEN "simulation" ELSE "morphology"
Strength == {"K1", "mu", "Ybar"}
Limits == {"small", "large"}

\* does the setting exist with these component models
Applies(m, k) == IF k = "version" THEN m.ch.production = "neukum"
                 ELSE IF k \in {"slope", "N1"} THEN m.ch.production = "powerlaw"
                 ELSE IF k = "mc" THEN m.ch.scaling = "montecarlo"
                 ELSE IF k \in Limits THEN k \in DOMAIN m.set
                 ELSE IF k = "pvel" THEN m.ch.projectile # "generic" \/ k \in DOMAIN m.set ELSE TRUE

RECURSIVE Val(_, _, _)
Val(tb, m, k) ==
    IF k \in DOMAIN m.set THEN m.set[k]
    ELSE IF k \in {"radius", "mass", "tst", "tmat"} THEN tb.target[m.ch.target][k]
    ELSE IF k = "smat" THEN Val(tb, m, "tmat")
    ELSE IF k \in Strength \cup {"tdens"} THEN tb.mat[Val(tb, m, "smat")][k]
    ELSE IF k = "version" THEN m.ch.target
    ELSE IF k = "pvel" THEN tb.pvel[m.ch.projectile][m.ch.target]
    ELSE IF k = "pdens" THEN tb.pdens[m.ch.projectile]
    ELSE tb.other[k]

Drop(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

(* ---- arguments ---- *)
\* the arguments "material" and "density" are understood by several components
Settings(args) ==
    LET mt == IF "material" \in DOMAIN args THEN [k \in {"tmat", "smat"} |-> args["material"]] ELSE <<>>
        dn == IF "density" \in DOMAIN args THEN [k \in {"tdens", "pdens"} |-> args["density"]] ELSE <<>>
    IN Over(Over(Drop(args, {"material", "density"}), mt), dn)

(* ---- transitions ---- *)
\* once created, the material of the scaling is its own
Fix(tb, m) == [m EXCEPT !.set = Over(m.set, [k \in {"smat"} |-> Val(tb, m, "smat")])]
Known(m) == [m EXCEPT !.set = [k \in {k \in DOMAIN m.set : Owner(k) # "production" \/ Applies(m, k)} |-> m.set[k]]]
Create(tb, ch, args) == Fix(tb, Known([ch |-> Over(tb.ch, ch), set |-> Settings(args)]))

Assign(m, k, v) ==
    LET s == IF k = "smat" THEN Drop(m.set, Strength \cup {"tdens"}) ELSE m.set
    IN [m EXCEPT !.set = Over(s, [x \in {k} |-> v])]

Owned(m, c) == {k \in DOMAIN m.set : Owner(k) = c}
\* a different component starts from its own defaults
Replace(tb, m, c, model) == Fix(tb, [ch |-> Over(m.ch, [x \in {c} |-> model]), set |-> Drop(m.set, Owned(m, c))])

\* does opening it like this need a different mesh
NewMesh(tb, f, ch, args) ==
    \/ "target" \in DOMAIN ch /\ ch.target # f.ch.target
    \/ "radius" \in DOMAIN args /\ args["radius"] # Val(tb, f, "radius")
    \/ "gridlevel" \in DOMAIN args /\ args["gridlevel"] # Val(tb, f, "gridlevel")
Reopen(tb, f, ch, args) ==
    LET other == {c \in DOMAIN ch : ch[c] # f.ch[c]}
        newmat == "material" \in DOMAIN args /\ args["material"] # Val(tb, f, "smat")
        lost == UNION {Owned(f, c) : c \in other}
                \* a material given together with a different scaling comes whole, whichever it was before
                \cup (IF "material" \in DOMAIN args /\ "scaling" \in other THEN {"tdens"} ELSE {})
                \cup (IF newmat \/ "target" \in other THEN Strength \cup {"smat", "tdens"} ELSE {})
                \cup (IF NewMesh(tb, f, ch, args) THEN Limits ELSE {})
    IN Fix(tb, Known([ch |-> Over(f.ch, ch), set |-> Over(Drop(f.set, lost), Settings(args))]))

(* ================= the bounded model ================= *)
CONSTANTS MaxOps
VARIABLES mem, file, nops
vars == <<mem, file, nops>>
TB == [target |-> [A |-> [radius |-> 10, mass |-> 11, tst |-> 12, tmat |-> "r"], B |-> [radius |-> 20, mass |-> 21, tst |-> 22, tmat |-> "s"]],
       mat |-> [r |-> [K1 |-> 1, mu |-> 2, Ybar |-> 3, tdens |-> 4], s |-> [K1 |-> 5, mu |-> 6, Ybar |-> 7, tdens |-> 8]],
       pvel |-> [p |-> [A |-> 30, B |-> 31]], pdens |-> [p |-> 40], other |-> [k \in {"slope", "mc"} |-> 50],
       ch |-> [target |-> "A", production |-> "neukum", scaling |-> "montecarlo", projectile |-> "p"]]
Keys == {"radius", "smat", "K1", "tdens", "slope", "mc"}
NewV(k) == IF k = "smat" THEN {"r", "s"} ELSE {90, 91}
ArgSets == {<<>>} \cup {[x \in {k} |-> v] : k \in {"radius", "K1", "density", "slope"}, v \in {92}} \cup {[x \in {"material"} |-> v] : v \in {"r", "s"}}
           \cup {[x \in {"material", "K1"} |-> IF x = "K1" THEN 92 ELSE "s"]}
Chs == {<<>>, [x \in {"target"} |-> "B"], [x \in {"production"} |-> "powerlaw"], [x \in {"target"} |-> "A"]}
AllVals(m) == [k \in {k \in Keys : Applies(m, k)} |-> Val(TB, m, k)]

Init == \E ch \in Chs, args \in ArgSets :
            /\ mem = Create(TB, ch, args) /\ file = mem /\ nops = 0
DoSet == \E k \in Keys : Applies(mem, k) /\ \E v \in NewV(k) :
            mem' = Assign(mem, k, v) /\ UNCHANGED file
DoReplace == \E c \in {"production"}, x \in {"neukum", "powerlaw"} :
            mem' = Replace(TB, mem, c, x) /\ UNCHANGED file
DoSave == file' = mem /\ UNCHANGED mem
DoReopen == \E ch \in Chs, args \in ArgSets :
            mem' = Reopen(TB, file, ch, args) /\ UNCHANGED file
Next == nops < MaxOps /\ nops' = nops + 1 /\ (DoSet \/ DoReplace \/ DoSave \/ DoReopen)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
\* reopening without arguments gives back every value that was saved
Survives == LET r == Reopen(TB, file, <<>>, <<>>)
            IN AllVals(r) = AllVals(file) /\ r.ch = file.ch
\* whatever is given explicitly is what one gets
ExplicitWins == \A ch \in Chs, args \in ArgSets :
    LET r == Reopen(TB, file, ch, args)  s == Settings(args)
    IN /\ \A c \in DOMAIN ch : r.ch[c] = ch[c]
       /\ \A k \in DOMAIN s : Applies(r, k) => Val(TB, r, k) = s[k]
\* what is neither given nor depends on it keeps its saved value
OthersKept == \A args \in ArgSets :
    LET r == Reopen(TB, file, <<>>, args)  s == DOMAIN Settings(args)
    IN \A k \in Keys \ (s \cup Limits) : Applies(file, k) =>
          \/ Val(TB, r, k) = Val(TB, file, k)
          \/ "material" \in DOMAIN args /\ k \in Strength \cup {"tdens"}
\* a material always comes with its own strength unless that was given as well
MaterialWhole == \A m \in {"r", "s"} : LET a == Assign(mem, "smat", m) IN \A k \in Strength \cup {"tdens"} : Val(TB, a, k) = TB.mat[m][k]
\* settings of one model never leak into another one
NoLeak == LET r == Reopen(TB, file, [x \in {"target"} |-> "B"], <<>>)
          IN file.ch.target = "A" => Val(TB, r, "radius") = TB.target.B.radius /\ Val(TB, r, "smat") = TB.target.B.tmat
AllWell == Survives /\ ExplicitWins /\ OthersKept /\ MaterialWhole /\ NoLeak
=============================================================================
