---------------------------- MODULE SavedStates ----------------------------
(* The saved states of a surface (and of the crater lists): what is in       *)
(* memory, what each saved interval holds, what reading gives back.          *)
(* A state is a function from the names of fields to values; a field that    *)
(* does not exist is not in its domain.  Time variables given with a save    *)
(* are fields of the saved state.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Only(f, S) == [k \in DOMAIN f \cap S |-> f[k]]

\* s = [mem, disk]
SaveS(s, k, tv) ==
    LET new == Over(s.mem, tv)
        old == IF k \in DOMAIN s.disk THEN s.disk[k] ELSE <<>>
    IN [s EXCEPT !.disk = Over(s.disk, [x \in {k} |-> Over(old, new)])]
\* exporting an interval saves it first when it was not saved yet, and never touches a saved one
ExportS(s, k) == IF k \in DOMAIN s.disk THEN s ELSE SaveS(s, k, <<>>)
EditS(s, f, v) == [s EXCEPT !.mem = Over(s.mem, [x \in {f} |-> v])]
ResetS(s, blank) == [mem |-> blank, disk |-> [x \in {0} |-> blank]]
RECURSIVE MaxOf(_)
MaxOf(S) == LET x == CHOOSE x \in S : TRUE IN IF Cardinality(S) = 1 THEN x ELSE LET m == MaxOf(S \ {x}) IN IF x > m THEN x ELSE m
LastK(d) == MaxOf(DOMAIN d)
\* the i-th smallest saved interval, i from 1; negative ones from the end
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MaxOf(S) IN Append(Ascending(S \ {m}), m)
FromEnd(d, i) == LET a == Ascending(DOMAIN d) IN a[Len(a) + 1 - i]
ReadK(d, k) == IF k \in DOMAIN d THEN d[k] ELSE <<>>
ReopenS(s) == [s EXCEPT !.mem = s.disk[LastK(s.disk)]]

(* lists of craters: an empty list has no file, saving one removes it *)
SaveList(d, k, v, empty) == IF v = empty THEN [x \in DOMAIN d \ {k} |-> d[x]] ELSE Over(d, [x \in {k} |-> v])

(* ================= the bounded model ================= *)
CONSTANTS MaxOps, Vals, Ks
VARIABLES s, hist, nops
vars == <<s, hist, nops>>
Blank == [x \in {"e"} |-> 0]
TVs == {<<>>} \cup {[x \in {"t"} |-> v] : v \in Vals}
Init == s = ResetS([mem |-> <<>>, disk |-> <<>>], Blank) /\ hist = [x \in {0} |-> Blank] /\ nops = 0
\* hist: what was in memory (and given) when an interval was last saved since the last reset
DoEdit == \E f \in {"e", "x"}, v \in Vals : s' = EditS(s, f, v) /\ UNCHANGED hist
DoSave == \E k \in Ks, tv \in TVs : s' = SaveS(s, k, tv) /\ hist' = Over(hist, [x \in {k} |-> Over(s.mem, tv)])
DoExport == \E k \in Ks : s' = ExportS(s, k) /\ hist' = IF k \in DOMAIN hist THEN hist ELSE Over(hist, [x \in {k} |-> s.mem])
DoReset == s' = ResetS(s, Blank) /\ hist' = [x \in {0} |-> Blank]
DoReopen == s' = ReopenS(s) /\ UNCHANGED hist
Next == nops < MaxOps /\ nops' = nops + 1 /\ (DoEdit \/ DoSave \/ DoExport \/ DoReset \/ DoReopen)
Spec == Init /\ [][Next]_vars
ListExact == DOMAIN s.disk = DOMAIN hist
\* reading gives back exactly what was in memory; what was not given then may only be older data of the same interval
ReadsBack == \A k \in DOMAIN hist : Only(s.disk[k], DOMAIN hist[k]) = hist[k]
Unsaved == \A k \in Ks : k \notin DOMAIN hist => ReadK(s.disk, k) = <<>>
Orders == LET a == Ascending(DOMAIN s.disk) IN /\ \A i \in 1 .. Len(a) - 1 : a[i] < a[i + 1]
                                              /\ \A i \in 1 .. Len(a) : FromEnd(s.disk, i) = a[Len(a) - i + 1]
                                              /\ FromEnd(s.disk, 1) = LastK(s.disk)
Independent == [][\A k \in DOMAIN s.disk : (k \in DOMAIN s'.disk /\ s'.disk[k] # s.disk[k]) => \A j \in DOMAIN s.disk \ {k} : j \in DOMAIN s'.disk => s'.disk[j] = s.disk[j] \/ s'.disk = [x \in {0} |-> Blank]]_vars
=============================================================================
