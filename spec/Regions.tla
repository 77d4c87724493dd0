------------------------------ MODULE Regions ------------------------------
(* C20: regions of a mesh.  A mesh is given by the node set of every face     *)
(* and the edge set of every face.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------- declarative contract
\* faces of the region with the given core (faces whose centre is within the radius)
Touching(core, fn) == {f \in DOMAIN fn : \E g \in core : fn[f] \cap fn[g] # {}}
RegionFaces(core, fn) == core \cup Touching(core, fn)
NodesOf(fs, fn) == UNION {fn[f] : f \in fs}
\* nodes / edges of a region: only those of its faces, and all those of its core
NodesRight(ns, core, fs, fn) == NodesOf(core, fn) \subseteq ns /\ ns \subseteq NodesOf(fs, fn)
AllNodes(ns, fs, fn) == ns = NodesOf(fs, fn)

\* -------------------------------------------------------------- state machine
\* A cylinder of W x H quadrilaterals with an arbitrary distance of every face
\* from the centre, so that every shape of core is covered.
CONSTANTS W, H, D
VARIABLES dist, reg, last
vars == <<dist, reg, last>>
Faces == 0 .. W * H - 1
Col(f) == f % W
Row(f) == f \div W
Node(c, r) == (c % W) + W * r
Fn == [f \in Faces |-> {Node(Col(f), Row(f)), Node(Col(f) + 1, Row(f)), Node(Col(f), Row(f) + 1), Node(Col(f) + 1, Row(f) + 1)}]
Nodes == 0 .. W * (H + 1) - 1
\* an edge is the pair of nodes two faces share, or a boundary pair; here: named by the pair
Fe == [f \in Faces |-> {{Node(Col(f), Row(f)), Node(Col(f) + 1, Row(f))}, {Node(Col(f), Row(f) + 1), Node(Col(f) + 1, Row(f) + 1)},
                        {Node(Col(f), Row(f)), Node(Col(f), Row(f) + 1)}, {Node(Col(f) + 1, Row(f)), Node(Col(f) + 1, Row(f) + 1)}}]
\* the arrays the implementation works with
FaceFace(f) == {g \in Faces : g # f /\ Fe[f] \cap Fe[g] # {}}
NodeFace(n) == {f \in Faces : n \in Fn[f]}
EdgeFace(e) == {f \in Faces : e \in Fe[f]}
\* the implementation's algorithm
Extract(core) ==
    LET es == UNION {Fe[f] : f \in core}
        ns == UNION {Fn[f] : f \in core}
        fs == core \cup UNION {FaceFace(f) : f \in core} \cup UNION {NodeFace(n) : n \in ns} \cup UNION {EdgeFace(e) : e \in es}
    IN  [faces |-> fs, nodes |-> UNION {Fn[f] : f \in fs}, edges |-> es]
Whole == [faces |-> Faces, nodes |-> Nodes, edges |-> UNION {Fe[f] : f \in Faces}]
NoRegion == [faces |-> {}, nodes |-> {}, edges |-> {}]
Core(r) == {f \in Faces : dist[f] <= r}
Sub(rg, r) == LET core == {f \in rg.faces : dist[f] <= r}
                  e == Extract(core)
              IN  IF core = {} THEN NoRegion ELSE [e EXCEPT !.nodes = UNION {Fn[f] : f \in core}]
Init == dist \in [Faces -> 1 .. D] /\ reg = NoRegion /\ last = [op |-> "none", r |-> 0]
ExtractRegion(r) == /\ reg' = IF r > D THEN Whole ELSE IF Core(r) = {} THEN NoRegion ELSE Extract(Core(r))
                    /\ last' = [op |-> "region", r |-> r]
ExtractSub(r) == /\ reg # NoRegion /\ r < last.r
                 /\ reg' = Sub(reg, r) /\ last' = [op |-> "sub", r |-> r]
Next == (\E r \in 0 .. D + 1 : ExtractRegion(r) \/ ExtractSub(r)) /\ UNCHANGED dist
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
FacesRight == last.op # "none" =>
    reg.faces = IF last.r > D THEN Faces ELSE RegionFaces(Core(last.r), Fn)
EmptyOnlyIfNoCore == last.op # "none" => (reg = NoRegion <=> Core(last.r) = {})
NodesFit == last.op # "none" /\ last.r <= D => NodesRight(reg.nodes, Core(last.r), reg.faces, Fn)
EdgesFit == last.op # "none" /\ last.r <= D => NodesRight(reg.edges, Core(last.r), reg.faces, Fe)
\* a region of a region has the faces of the directly extracted one and lies inside its parent
SubIsInside == [][last'.op = "sub" => reg'.faces \subseteq reg.faces /\ reg'.nodes \subseteq reg.nodes]_vars
=============================================================================
