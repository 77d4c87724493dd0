------------------------------ MODULE TraceMesh ------------------------------
(* Recorded openings of surfaces in one directory.  grid: what the stored     *)
(* mesh can have been generated from (more than one only after a crash).      *)
(* want: the mesh (and local part) that the parameters stand for, as another  *)
(* process made it in a directory of its own; have: what the surface got.     *)
EXTENDS TraceBase, FiniteSets
Start(trace) == [grid |-> {"none"}, elev |-> "zero"]
Geometry(e) ==
    FirstBad(<< <<"the faces do not add up to the sphere", e.areaerr <= (IF e.nface >= 100 THEN 10 ELSE IF e.nface >= 30 THEN 300 ELSE 5000)>>,
                <<"number of faces of an icosphere", e.level >= 0 => e.nface = 10 * 4 ^ e.level + 2>>,
                <<"number of nodes of an icosphere", e.level >= 0 => e.nnode = 20 * 4 ^ e.level>>,
                <<"a closed mesh has nodes - edges + faces = 2", e.nnode - e.nedge + e.nface = 2>>,
                <<"every face has one size class", e.binned = e.nface /\ e.binneddistinct = e.nface>>,
                <<"faces of a size class are within a factor of two", e.binratio <= 200001>>,
                <<"area or extremes of a size class", e.binok>>,
                <<"size of the mesh differs from the request", e.pixok>> >>)
Judge(trace, s, e) ==
    LET must == e.regrid \/ e.p \notin s.grid
        keep == ~e.regrid /\ s.grid = {e.p}
        made == ~e.filekept
        b == CASE e.op = "open" /\ e.out = "ok" ->
                  LET g == FirstBad(<< <<"a mesh for other parameters was reused", must => made>>,
                                       <<"a matching mesh was not reused", keep => ~made>>,
                                       <<"results were replaced without consent", ~(e.ask /\ e.resn > 0 /\ (made \/ e.reset))>>,
                                       <<"the mesh is not the one asked for", e.have = e.want>>,
                                       <<"the stored mesh is not the one asked for", e.disk = e.wantdisk>>,
                                       <<"the local part does not belong to the mesh", e.loc = e.wantloc>>,
                                       <<"a new surface is not blank", (made \/ e.reset) => e.elev = "zero">>,
                                       <<"results on a matching mesh were not loaded", (~made /\ ~e.reset /\ s.elev # "?") => e.elev = s.elev>>,
                                       <<"the surface lacks data", e.complete>>,
                                       <<"newness of the surface", e.isnew = (made \/ e.reset)>>,
                                       <<"the overwrite setting was not restored", e.askafter = e.ask>> >>)
                  IN IF g # "" THEN g ELSE Geometry(e)
               [] e.op = "open" /\ e.out = "refused" ->
                  FirstBad(<< <<"refused without a reason", e.ask /\ e.resn > 0 /\ (e.reset \/ ~keep)>>,
                              <<"a refused opening changed the directory", e.filekept /\ e.same>> >>)
               [] e.op = "open" /\ e.out = "crash" -> ""
               [] OTHER -> ""
    IN IF b # "" THEN Fail(b)
       ELSE CASE e.op = "open" /\ e.out = "ok" -> Ok([grid |-> {e.p}, elev |-> IF made \/ e.reset THEN "zero" ELSE e.elev])
              [] e.op = "open" /\ e.out = "refused" -> Ok(s)
              [] e.op = "open" /\ e.out = "crash" ->
                 Ok([grid |-> IF e.filekept THEN s.grid ELSE IF e.disk = "none" THEN {"none"} ELSE IF e.disk = e.wantdisk THEN {e.p} ELSE {"bad"},
                     elev |-> IF e.resafter = 0 THEN "zero" ELSE IF e.same THEN s.elev ELSE "?"])
              [] e.op = "save" -> Ok([s EXCEPT !.elev = e.elev])
              [] e.op = "damage" -> Ok([s EXCEPT !.grid = IF e.how = "idx" THEN @ ELSE IF e.how = "delete" THEN {"none"} ELSE {"bad"}])
              [] OTHER -> Ok(s)
=============================================================================
