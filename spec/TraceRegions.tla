---------------------------- MODULE TraceRegions ----------------------------
(* Regions extracted by the real code.                                       *)
(* trace.fn, fe, ff : nodes, edges, adjacent faces of every face; trace.nf,  *)
(* trace.ef, en : faces of every node, faces / nodes of every edge (0-based  *)
(* indices in 1-based sequences)                                             *)
(* event region : [op, core, faces, nodes, edges, loc, slices, derr, berr]   *)
(*   core  faces within the radius according to an independent computation   *)
(*   loc   the region's own connectivity: [fn, fe, ff, nf, ef, en] (local)   *)
(*   sub   it is a region of a region                                        *)
EXTENDS TraceBase, FiniteSets
R == INSTANCE Regions WITH W <- 1, H <- 1, D <- 1, dist <- 0, reg <- 0, last <- 0
S(q) == {q[i] : i \in 1 .. Len(q)}
Start(trace) == 0
\* rows of a local table, mapped back to global indices, against the global table
TableRight(loc, rows, cols, glob) ==
    LET cs == S(cols) IN
    /\ Len(loc) = Len(rows)
    /\ \A i \in 1 .. Len(rows) :
          {cols[loc[i][j] + 1] : j \in {j \in 1 .. Len(loc[i]) : loc[i][j] >= 0}} = S(glob[rows[i] + 1]) \cap cs
NoDup(q) == Cardinality(S(q)) = Len(q)
NodesOfFaces(fs, fn) == UNION {S(fn[f + 1]) : f \in fs}
Judge(trace, s, e) ==
    IF e.op = "mesh" THEN
        \* the tables of the whole surface are mutually inverse
        IF \E f \in 1 .. Len(trace.fn) : \E n \in S(trace.fn[f]) : (f - 1) \notin S(trace.nf[n + 1]) THEN Fail("mesh tables disagree")
        ELSE IF \E n \in 1 .. Len(trace.nf) : \E f \in S(trace.nf[n]) : (n - 1) \notin S(trace.fn[f + 1]) THEN Fail("mesh tables disagree")
        ELSE IF \E f \in 1 .. Len(trace.fe) : \E x \in S(trace.fe[f]) : (f - 1) \notin S(trace.ef[x + 1]) THEN Fail("mesh tables disagree")
        ELSE IF \E x \in 1 .. Len(trace.en) : \E f \in S(trace.ef[x]) : ~(S(trace.en[x]) \subseteq S(trace.fn[f + 1])) THEN Fail("mesh tables disagree")
        ELSE IF \E f \in 1 .. Len(trace.ff) : \E g \in S(trace.ff[f]) : S(trace.fn[f]) \cap S(trace.fn[g + 1]) = {} THEN Fail("mesh tables disagree")
        ELSE Ok(s)
    ELSE IF e.op = "near" THEN IF e.got = e.want THEN Ok(s) ELSE Fail("not the nearest element")
    ELSE IF e.op = "geo" THEN IF e.err <= 2 THEN Ok(s) ELSE Fail("distance and bearing do not lead to the location")
    ELSE IF e.none THEN IF e.core = <<>> THEN Ok(s) ELSE Fail("no region although faces lie within the radius")
    ELSE IF e.core = <<>> THEN Fail("a region although no face lies within the radius")
    ELSE LET core == S(e.core)
             cn   == NodesOfFaces(core, trace.fn)
             fs   == S(e.faces)
             want == core \cup UNION {S(trace.nf[n + 1]) : n \in cn}
             ns   == S(e.nodes)
             es   == S(e.edges)
         IN  IF fs # want THEN Fail("not exactly the faces within the radius and those touching them")
             ELSE IF ~NoDup(e.faces) \/ ~NoDup(e.nodes) \/ ~NoDup(e.edges) THEN Fail("an element occurs twice in the region")
             ELSE IF ~(cn \subseteq ns) \/ ~(ns \subseteq NodesOfFaces(fs, trace.fn)) THEN Fail("wrong nodes in the region")
             ELSE IF ~e.sub /\ ns # NodesOfFaces(fs, trace.fn) THEN Fail("nodes of the region's faces missing")
             ELSE IF ~(NodesOfFaces(core, trace.fe) \subseteq es) \/ ~(es \subseteq NodesOfFaces(fs, trace.fe)) THEN Fail("wrong edges in the region")
             ELSE IF ~TableRight(e.loc.fn, e.faces, e.nodes, trace.fn) \/ ~TableRight(e.loc.fe, e.faces, e.edges, trace.fe)
                     \/ ~TableRight(e.loc.ff, e.faces, e.faces, trace.ff) \/ ~TableRight(e.loc.nf, e.nodes, e.faces, trace.nf)
                     \/ ~TableRight(e.loc.ef, e.edges, e.faces, trace.ef) \/ ~TableRight(e.loc.en, e.edges, e.nodes, trace.en)
                  THEN Fail("connectivity inside the region refers to other elements")
             ELSE IF ~e.slices THEN Fail("geometry of the region is not that of its elements")
             ELSE IF e.derr > 2 THEN Fail("distances are not from the centre of the region")
             ELSE IF e.berr > 2 THEN Fail("bearings are not from the centre of the region")
             ELSE Ok(s)
=============================================================================
