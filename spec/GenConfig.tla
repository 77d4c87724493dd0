----------------------------- MODULE GenConfig -----------------------------
(* Histories of settings: creating, assigning, saving, editing the file by   *)
(* hand and reopening with other arguments.  Values are tokens.              *)
EXTENDS Config, Json, Randomization
VARIABLES h, dirty, done
gvars == <<mem, file, nops, h, dirty, done>>

Mats == {"Soft Rock", "Hard Rock", "Ice"}
SetKeys == {"mass", "tst", "tmat", "tdens", "smat", "K1", "mu", "Ybar", "mc", "version", "slope", "N1", "Dconv", "Nconv", "pdens", "pvel",
            "collapse", "subpix", "rays", "trunc", "count", "small", "large"}
ArgKeys == (SetKeys \ {"tmat", "smat", "tdens", "pdens"}) \cup {"radius", "material", "density", "gridlevel"}
Values(k) == IF k \in {"tmat", "smat", "material"} THEN Mats ELSE IF k = "version" THEN {"Moon", "Mars"} ELSE {"v1", "v2"}
GTB == [target |-> [t \in {"Moon", "Mars"} |-> [k \in {"radius", "mass", "tst", "tmat"} |-> IF k = "tmat" THEN "Soft Rock" ELSE "d"]],
        mat |-> [m \in Mats |-> [k \in {"K1", "mu", "Ybar", "tdens"} |-> "d"]],
        pvel |-> [p \in {"asteroids", "comets", "generic"} |-> [t \in {"Moon", "Mars"} |-> "d"]], pdens |-> [p \in {"asteroids", "comets", "generic"} |-> "d"],
        other |-> [k \in SetKeys \cup {"gridlevel"} |-> IF k = "gridlevel" THEN "v1" ELSE "d"],
        ch |-> [target |-> "Moon", production |-> "neukum", scaling |-> "montecarlo", projectile |-> "asteroids"]]

Pick(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
RandFun(S, V(_)) == [k \in S |-> Pick(V(k))]
Choices == [target |-> {"Moon", "Mars"}, production |-> {"neukum", "powerlaw"}, scaling |-> {"montecarlo", "ctem"}, projectile |-> {"asteroids", "comets", "generic"}]
RandCh(n) == RandFun(RandomSubset(n, DOMAIN Choices), LAMBDA c : Choices[c])
\* arguments that mean something for these components
Sensible(ch, k) == /\ k = "version" => ch.production = "neukum"
                   /\ k \in {"slope", "N1"} => ch.production = "powerlaw"
                   /\ k = "mc" => ch.scaling = "montecarlo"
                   /\ k = "pvel" => ch.projectile = "generic"
RandArgs(n, ch) == RandFun(RandomSubset(n, {k \in ArgKeys : Sensible(ch, k)}), Values)
CanSet(m) == {k \in SetKeys : IF k = "pvel" THEN m.ch.projectile = "generic" ELSE IF k \in Limits THEN TRUE ELSE Applies(m, k)}

GInit == /\ h = <<>> /\ dirty = TRUE /\ done = FALSE /\ nops = 0
         /\ mem = Create(GTB, <<>>, <<>>) /\ file = mem
GCreate ==
           /\ \E n \in RandomSubset(1, 0 .. 3), a \in RandomSubset(1, 0 .. 4) : \E ch \in {RandCh(n)} : \E args \in {RandArgs(a, Over(GTB.ch, ch))} :
                    /\ mem' = Create(GTB, ch, args) /\ file' = mem' /\ dirty' = FALSE
                    /\ h' = <<[op |-> "create", ch |-> ch, args |-> args]>>
GSet ==
        /\ \E k \in RandomSubset(1, CanSet(mem)) :
             \E v \in RandomSubset(1, Values(k)) :
                mem' = Assign(mem, k, v) /\ h' = Append(h, [op |-> "set", k |-> k, v |-> v])
        /\ dirty' = TRUE /\ UNCHANGED file
GSave == file' = mem /\ dirty' = FALSE /\ h' = Append(h, [op |-> "save"]) /\ UNCHANGED mem
GEdit ==
         /\ \E k \in RandomSubset(1, {k \in DOMAIN file.set : k \notin {"smat", "tmat", "radius", "gridlevel"}} \cup {"K1"}) :
              \/ \E v \in RandomSubset(1, Values(k)) : /\ file' = [file EXCEPT !.set = Over(file.set, [x \in {k} |-> v])]
                                             /\ h' = Append(h, [op |-> "edit", k |-> k, v |-> v])
              \/ k \in DOMAIN file.set /\ file' = [file EXCEPT !.set = Drop(file.set, {k})] /\ h' = Append(h, [op |-> "erase", k |-> k])
         /\ UNCHANGED mem /\ dirty' = FALSE
GReopen ==
           /\ \E n \in RandomSubset(1, {0, 1}), a \in RandomSubset(1, 0 .. 2) : \E ch \in {RandCh(n)} : \E args \in {RandArgs(a, Over(file.ch, ch))} :
                LET r == Reopen(GTB, file, ch, args)
                IN  /\ mem' = r /\ h' = Append(h, [op |-> "reopen", ch |-> ch, args |-> args])
                    /\ file' = IF NewMesh(GTB, file, ch, args) THEN r ELSE file
           /\ dirty' = FALSE
GNext == /\ ~done /\ nops < MaxOps /\ nops' = nops + 1
         /\ \E c \in RandomSubset(1, 1 .. 10) :
              IF h = <<>> THEN GCreate
              ELSE IF ~dirty THEN (IF h[Len(h)].op \in {"edit", "erase"} THEN (IF c < 4 THEN GEdit ELSE GReopen) ELSE IF c = 1 THEN GSave ELSE IF c < 4 THEN GSet ELSE IF c < 6 /\ h[Len(h)].op \in {"save", "create"} THEN GEdit ELSE GReopen)
              ELSE IF c < 6 THEN GSave ELSE GSet
         /\ done' = (nops' = MaxOps)
GSpec == GInit /\ [][GNext]_gvars
Emit == done => PrintT("SCN " \o ToJson(h))
=============================================================================
