-------------------------- MODULE TraceSurfaceEdit --------------------------
(* Field edits of the real code.                                             *)
(* trace.nat     number of face (node) atoms, [face, node]                   *)
(* trace.regs    region -> [face |-> <<atoms>>, node |-> <<atoms>>]          *)
(* every event has flds: field -> [el, val, dlt, same] per atom:             *)
(*   val  value (NAN if not uniform), dlt change (NAN if not uniform),       *)
(*   same nothing in the atom changed at all; and views: every region shows  *)
(*   the current values.  State: field -> [el, val].                         *)
EXTENDS TraceBase
M == INSTANCE SurfaceEdit WITH NA <- 1, MaxOps <- 0, fields <- 0, log <- 0, last <- 0
NAN == -1000000009
ToSet(q) == {q[i] : i \in 1 .. Len(q)}
Start(trace) == [f \in {"node_elevation", "face_elevation"} |->
                   LET el == IF f = "face_elevation" THEN "face" ELSE "node"
                   IN  [el |-> el, val |-> [a \in 1 .. trace.nat[el] |-> 0]]]
Now(e) == [f \in DOMAIN e.flds |-> [el |-> e.flds[f].el, val |-> e.flds[f].val]]

Untouched(s, e, except) ==
    \A f \in DOMAIN s \ except : f \in DOMAIN e.flds /\ \A a \in 1 .. Len(e.flds[f].same) : e.flds[f].same[a]

\* one edit x = [f, el, over, pos, given (atom -> value), fill] of region r
EditOk(trace, s, e, x, r) ==
    LET reg == ToSet(trace.regs[r][x.el])
        o   == e.flds[x.f]
        new == x.f \notin DOMAIN s
        n   == Len(o.val)
    IN  IF o.el # x.el THEN "field belongs to another kind of element"
        ELSE IF \E a \in 1 .. n : a \notin reg /\ (IF new THEN o.val[a] # x.fill ELSE ~o.same[a])
             THEN "field changed outside the region"
        ELSE IF \E a \in 1 .. n : a \in reg /\
                  LET d == [over |-> x.over \/ new, pos |-> x.pos, reg |-> reg, v |-> x.given]
                      old == IF new THEN x.fill ELSE s[x.f].val[a]
                  IN  IF d.over \/ old # NAN THEN o.val[a] # M!After(old, d, a)
                      ELSE ~x.pos /\ o.dlt[a] # x.given[a]
             THEN "field not changed by exactly the given amount"
        ELSE ""

RECURSIVE Edits(_, _, _, _)
Edits(trace, s, e, i) == IF i > Len(e.edits) THEN ""
                         ELSE LET c == EditOk(trace, s, e, e.edits[i], e.r)
                              IN  IF c # "" THEN c ELSE Edits(trace, s, e, i + 1)
Judge(trace, s, e) ==
    LET names == {e.edits[i].f : i \in 1 .. Len(e.edits)}
        c == IF ~e.views THEN "a region does not show the current values"
             ELSE IF e.op = "reset" THEN
                  IF DOMAIN e.flds # {"node_elevation", "face_elevation"} \/
                     \E f \in DOMAIN e.flds : \E a \in 1 .. Len(e.flds[f].val) : e.flds[f].val[a] # 0
                  THEN "reset did not restore the initial fields" ELSE ""
             ELSE IF e.op = "refuse" THEN
                  IF ~e.refused THEN "unsupported data accepted"
                  ELSE IF DOMAIN e.flds # DOMAIN s \/ ~Untouched(s, e, {}) THEN "a refused edit had an effect" ELSE ""
             ELSE IF DOMAIN e.flds # DOMAIN s \cup names \cup ToSet(e.may) THEN "fields appeared or vanished"
             ELSE IF ~Untouched(s, e, names \cup ToSet(e.may) \cup (IF e.interp THEN {"node_elevation"} ELSE {})) THEN "another field changed"
             ELSE IF e.interp /\ \E a \in 1 .. trace.nat["node"] : a \notin ToSet(trace.regs[e.r].node) /\ ~e.flds.node_elevation.same[a]
                  THEN "node elevations changed outside the region"
             ELSE IF e.interp /\ ~e.inrange THEN "interpolated node elevation outside the range of its faces"
             ELSE IF \E f \in ToSet(e.may) : f \in DOMAIN s /\ \E a \in 1 .. Len(e.flds[f].same) :
                        a \notin ToSet(trace.regs[e.r][e.flds[f].el]) /\ ~e.flds[f].same[a]
                  THEN "a surface process changed something outside the region"
             ELSE Edits(trace, s, e, 1)
    IN  IF c = "" THEN Ok(Now(e)) ELSE Fail(c)
=============================================================================
