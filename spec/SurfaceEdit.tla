----------------------------- MODULE SurfaceEdit -----------------------------
(* C13: edits of surface fields through (nested) regions.                     *)
(* An atom is a maximal set of elements that lie in the same regions; a field *)
(* is a function from atoms to values.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
\* ------------------------------------------------------- declarative contract
\* Value of an atom after an edit e = [over, pos, reg (set of atoms), v (atom -> value)].
After(old, e, a) == IF a \notin e.reg THEN old
                    ELSE LET x == IF e.over THEN e.v[a] ELSE old + e.v[a]
                         IN  IF e.pos THEN Max2(0, x) ELSE x

\* -------------------------------------------------------------- state machine
CONSTANTS NA, MaxOps
V == {-1, 0, 2}
VARIABLES fields,     \* name -> (atom -> value) of the fields that exist
          log,        \* name -> sequence of edits since creation
          last
vars == <<fields, log, last>>
Names == {"elev", "x"}
Initial == {"elev"}
Atoms == 1 .. NA
\* whole surface; a region; another one overlapping it; a part of the region
Regions == {Atoms, 1 .. NA - 1, 2 .. NA, {2}}
Zero == [a \in Atoms |-> 0]
Init == /\ fields = [f \in Initial |-> Zero]
        /\ log = [f \in Initial |-> <<>>]
        /\ last = [op |-> "init"]
Datum == [reg : Regions, v : [Atoms -> V], over : BOOLEAN, pos : BOOLEAN]
\* Data given through a region say nothing about atoms outside it.
Data == {d \in Datum : \A a \in Atoms \ d.reg : d.v[a] = 0}
Put(fn, k, x) == [y \in DOMAIN fn \cup {k} |-> IF y = k THEN x ELSE fn[y]]
Edit(f, d, fill) ==
    LET new == f \notin DOMAIN fields
        e == IF new THEN [d EXCEPT !.over = TRUE] ELSE d
        old == IF new THEN [a \in Atoms |-> fill] ELSE fields[f]
    IN  /\ fields' = Put(fields, f, [a \in Atoms |-> After(old[a], e, a)])
        /\ log' = Put(log, f, IF new THEN <<[reg |-> Atoms, v |-> old, over |-> TRUE, pos |-> FALSE], e>> ELSE Append(log[f], e))
        /\ last' = [op |-> "edit", f |-> f, reg |-> d.reg]
Refuse == UNCHANGED <<fields, log>> /\ last' = [op |-> "refuse"]
Reset == /\ fields' = [f \in Initial |-> Zero] /\ log' = [f \in Initial |-> <<>>] /\ last' = [op |-> "reset"]
NOps == LET RECURSIVE S(_) S(ns) == IF ns = {} THEN 0 ELSE LET n == CHOOSE n \in ns : TRUE IN Len(log[n]) + S(ns \ {n}) IN S(DOMAIN log)
Next == \/ NOps < MaxOps /\ \E f \in Names : \E d \in Data : \E fill \in {0, 1} : Edit(f, d, fill)
        \/ Refuse \/ Reset
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* Every value is what the last overwriting edit covering the atom and the later ones say.
RECURSIVE Fold(_, _, _)
Fold(es, a, x) == IF es = <<>> THEN x ELSE Fold(Tail(es), a, After(x, es[1], a))
Explained == \A f \in DOMAIN fields : \A a \in Atoms : fields[f][a] = Fold(log[f], a, 0)
Local == [][last'.op = "edit" =>
              /\ \A g \in DOMAIN fields : g # last'.f => fields'[g] = fields[g]
              /\ last'.f \in DOMAIN fields => \A a \in Atoms \ last'.reg : fields'[last'.f][a] = fields[last'.f][a]]_vars
RefusalHasNoEffect == [][last'.op = "refuse" => fields' = fields]_vars
ResetRight == last.op = "reset" => fields = [f \in Initial |-> Zero]
=============================================================================
