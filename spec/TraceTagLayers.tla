--------------------------- MODULE TraceTagLayers ---------------------------
(* Tag operations of the real code.                                          *)
(* trace.nl      number of layers                                            *)
(* trace.regions <<set of atoms as sequence>>; an atom is a maximal set of   *)
(*               faces in the same regions, all of which must look alike     *)
(* trace.aregions the same for additions (regions of a mesh with a local     *)
(*               high-resolution part are tagged in that part only)          *)
(* event [op, n (tag field 1 or 2), r (region), t, warned, uniform, bags]    *)
(*   bags[n][atom] : ascending tags of every face of the atom                *)
(*   op "save" also has file : the bags read back from the saved file        *)
EXTENDS TraceBase
T == INSTANCE TagLayers WITH NF <- 0, NL <- 0, NT <- 0, MaxOps <- 0, layers <- 0, owed <- 0, warned <- 0, last <- 0, n <- 0

Start(trace) == <<[a \in 1 .. trace.natom |-> <<>>], [a \in 1 .. trace.natom |-> <<>>]>>
InA(trace, r, a) == \E j \in 1 .. Len(trace.aregions[r]) : trace.aregions[r][j] = a
InR(trace, r, a) == \E j \in 1 .. Len(trace.regions[r]) : trace.regions[r][j] = a

Judge(trace, s, e) ==
    IF ~e.uniform THEN Fail("faces of the same region differ")
    ELSE IF e.op = "refuse" THEN IF e.refused /\ e.bags = s THEN Ok(s) ELSE Fail("removing from a tag field that does not exist is not refused")
    ELSE IF e.bags[3 - e.n] # s[3 - e.n] THEN Fail("another tag field changed")
    ELSE IF \E a \in 1 .. trace.natom : e.op \in {"add", "remove", "sort"} /\ ~(IF e.op = "add" THEN InA(trace, e.r, a) ELSE InR(trace, e.r, a)) /\ e.bags[e.n][a] # s[e.n][a]
         THEN Fail("tags changed outside the region")
    ELSE IF e.op = "add" THEN
         IF \E a \in 1 .. trace.natom : InA(trace, e.r, a) /\ Len(s[e.n][a]) < trace.nl /\ e.bags[e.n][a] # T!Insert(s[e.n][a], e.t)
              THEN Fail("tag not added, or another tag lost although a layer was free")
         ELSE IF \E a \in 1 .. trace.natom : InA(trace, e.r, a) /\ T!MustWarn(s[e.n][a], trace.nl) /\ ~(e.bags[e.n][a] \in T!AfterAdd(s[e.n][a], e.t, trace.nl))
              THEN Fail("more than one tag lost on a full face")
         ELSE IF ~e.warned /\ \E a \in 1 .. trace.natom : InA(trace, e.r, a) /\ T!MustWarn(s[e.n][a], trace.nl)
              THEN Fail("tag lost without a warning")
         ELSE Ok(e.bags)
    ELSE IF e.op = "remove" THEN
         IF \E a \in 1 .. trace.natom : InR(trace, e.r, a) /\ e.bags[e.n][a] # T!AfterRemove(s[e.n][a], e.t)
              THEN Fail("removal did not delete exactly the tag") ELSE Ok(e.bags)
    ELSE IF e.op = "clear" THEN
         IF \E a \in 1 .. trace.natom : e.bags[e.n][a] # <<>> THEN Fail("clearing left tags") ELSE Ok(e.bags)
    ELSE IF e.op = "sort" THEN IF e.bags # s THEN Fail("sorting changed the tags of a face") ELSE Ok(s)
    ELSE IF e.op = "save" THEN IF e.bags # s THEN Fail("saving changed the tags of a face")
                               ELSE IF e.file # s THEN Fail("saved tags differ") ELSE Ok(s)
    ELSE Fail("unknown event")
=============================================================================
