---------------------------- MODULE CraterTables ----------------------------
(* Lists of craters and the tables they are stored in.                       *)
(* A crater is a function from the names of the attributes it has to         *)
(* sequences of values (one value, or the parts of a pair or triple).        *)
(* A table has columns and rows of cells; a cell that a crater has no value  *)
(* for is empty.  What is written is what is read back:                      *)
(*   all   every attribute, one column per part of a pair  (saved, CSV)      *)
(*   scc   measured diameter and location only, no identities                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Parts == [location |-> <<"longitude", "latitude">>,
          measured_location |-> <<"measured_longitude", "measured_latitude">>,
          production_ND |-> <<"production_D", "production_N", "production_N_stdev">>,
          production_time |-> <<"production_time", "production_time_stdev">>]
Cols(a) == IF a \in DOMAIN Parts THEN Parts[a] ELSE <<a>>
Range(s) == {s[i] : i \in DOMAIN s}
Row(c) == LET ks == UNION {Range(Cols(a)) : a \in DOMAIN c}
          IN [k \in ks |-> LET a == CHOOSE a \in DOMAIN c : k \in Range(Cols(a))
                               i == CHOOSE i \in 1 .. Len(Cols(a)) : Cols(a)[i] = k IN c[a][i]]
Empty == 0
Header(rows) == UNION {DOMAIN rows[i] : i \in DOMAIN rows}
Table(cs) == LET rows == [i \in DOMAIN cs |-> Row(cs[i])]
                 h == Header(rows)
             IN [cols |-> h, rows |-> [i \in DOMAIN cs |-> [k \in h |-> IF k \in DOMAIN rows[i] THEN rows[i][k] ELSE Empty]]]
\* reading: an attribute is there when all its parts are
Has(h, r, a) == \A i \in 1 .. Len(Cols(a)) : Cols(a)[i] \in h /\ r[Cols(a)[i]] # Empty
Back(t, i, Attrs) == LET as == {a \in Attrs : Has(t.cols, t.rows[i], a)}
                     IN [a \in as |-> [j \in 1 .. Len(Cols(a)) |-> t.rows[i][Cols(a)[j]]]]
ReadAll(t, Attrs) == [i \in DOMAIN t.rows |-> Back(t, i, Attrs)]
Scc(c) == <<c["measured_diameter"][1], c["measured_location"][1], c["measured_location"][2]>>

\* the same craters in the same number, in any order
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

(* ================= the bounded model: lists of intervals ================= *)
CONSTANTS Vals, MaxLen, MaxOps
VARIABLES mem, files, said, n
vars == <<mem, files, said, n>>
Attr == {"id", "time", "location", "production_ND", "production_time"}
One(a) == {[j \in 1 .. Len(Cols(a)) |-> v + (j - 1)] : v \in Vals}
Craters == UNION {[S -> UNION {One(a) : a \in Attr}] : S \in {{"id", "location"} \cup X : X \in SUBSET {"time", "production_ND", "production_time"}}}
Good == {c \in Craters : \A a \in DOMAIN c : c[a] \in One(a)}
Ks == {0, 1}
Init == mem = <<>> /\ files = [k \in {} |-> 0] /\ said = [k \in {} |-> 0] /\ n = 0
DoAdd == Len(mem) < MaxLen /\ \E c \in Good : mem' = Append(mem, c) /\ UNCHANGED <<files, said>>
DoClear == mem' = <<>> /\ UNCHANGED <<files, said>>
DoWrite == \E k \in Ks : /\ files' = [x \in DOMAIN files \cup {k} |-> IF x = k THEN Table(mem) ELSE files[x]]
                         /\ said' = [x \in DOMAIN said \cup {k} |-> IF x = k THEN mem ELSE said[x]]
                         /\ UNCHANGED mem
Next == n < MaxOps /\ n' = n + 1 /\ (DoAdd \/ DoClear \/ DoWrite)
Spec == Init /\ [][Next]_vars
RoundTrip == \A k \in DOMAIN files : SameBag(said[k], ReadAll(files[k], Attr))
\* two files read together: a crater that is not in an interval has an empty row there
Joined == LET h == UNION {files[k].cols : k \in DOMAIN files}
              e == [c \in h |-> Empty]
              pad(r) == [c \in h |-> IF c \in DOMAIN r THEN r[c] ELSE Empty]
          IN [k \in DOMAIN files |-> [cols |-> h, rows |-> [i \in DOMAIN files[k].rows |-> pad(files[k].rows[i])] \o <<e>>]]
JoinKeeps == \A k \in DOMAIN files : SameBag(said[k], SelectSeq(ReadAll(Joined[k], Attr), LAMBDA c : DOMAIN c # {}))
NoneMixed == \A k \in DOMAIN files : \A i \in DOMAIN said[k] : DOMAIN ReadAll(files[k], Attr)[i] = DOMAIN said[k][i]
=============================================================================
