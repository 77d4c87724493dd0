------------------------------ MODULE CraterId ------------------------------
(* C08: crater objects, their identity and their copies.                     *)
(* A crater has fixed parameters (Fixed fields), variable state (Var fields) *)
(* and an identity.  All values are abstract (interned); 0 means absent.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Fields in the real code.  Identity is a function of the key fields.
SizeFields == {"sma", "smi", "td", "pd", "pm"}
KeyFields  == SizeFields \cup {"ori", "pv", "pa", "lon", "lat", "time"}
MeasSize   == {"msma", "msmi"}
MeasGeom   == MeasSize \cup {"mori", "mlon", "mlat"}
VarFields  == MeasSize \cup {"mori", "mlon", "mlat", "mrim", "mflr", "deg", "ptime", "pnd", "pseq", "name"}

\* What a copy must look like.  old: the original; ch: fields explicitly given
\* (field -> value); size: a size was given, so the dependent sizes are free.
CopyOk(old, new, ch, size, dens, keyf, varf) ==
    LET free == (IF size THEN SizeFields \cup MeasGeom ELSE {})
                \cup (IF dens THEN {"pm"} ELSE {})
    IN  \A f \in keyf \cup varf :
           IF f \in DOMAIN ch THEN new[f] = ch[f]
           ELSE f \in free \/ new[f] = old[f]

\* -------------------------------------------------------------- state machine
\* A small instance: two key fields, one size field, two variable fields.
CONSTANTS Vals, MaxObj, MaxOps
MK == {"sma", "pv"}
MV == {"msma", "name"}
VARIABLES objs, n, lastid
vars == <<objs, n, lastid>>

Key(o) == [f \in MK |-> o[f]]
Ident(o) == Key(o)              \* ideal identity: an injective function of the key
Init == /\ \E k \in [MK -> Vals] :
             objs = <<[f \in MK \cup MV |-> IF f \in MK THEN k[f] ELSE IF f = "msma" THEN k["sma"] ELSE 0]>>
        /\ n = 0 /\ lastid = <<Ident(objs[1])>>
Copy == \E i \in 1 .. Len(objs) : \E D \in SUBSET (MK \cup MV) : \E ch \in [D -> Vals] :
           /\ Len(objs) < MaxObj
           /\ LET size == "sma" \in D
                  new == [f \in MK \cup MV |->
                            IF f \in D THEN ch[f]
                            ELSE IF size /\ f = "msma" THEN ch["sma"] ELSE objs[i][f]]
              IN  /\ objs' = Append(objs, new)
                  /\ lastid' = Append(lastid, Ident(new))
           /\ n' = n + 1
Measure == \E i \in 1 .. Len(objs) : \E f \in MV : \E v \in Vals :
           /\ objs' = [objs EXCEPT ![i][f] = v]
           /\ n' = n + 1 /\ UNCHANGED lastid
\* an attempt to change a fixed parameter has no effect
Modify == \E i \in 1 .. Len(objs) : \E f \in MK : UNCHANGED <<objs, lastid>> /\ n' = n + 1
Next == n < MaxOps /\ (Copy \/ Measure \/ Modify)
Spec == Init /\ [][Next]_vars

IdIsFunctionOfKey == \A i, j \in 1 .. Len(objs) : (lastid[i] = lastid[j]) <=> (Key(objs[i]) = Key(objs[j]))
FixedForEver == [][\A i \in 1 .. Len(objs) : Key(objs'[i]) = Key(objs[i]) /\ lastid'[i] = lastid[i]]_vars
OthersUntouched == [][Cardinality({i \in 1 .. Len(objs) : objs'[i] # objs[i]}) <= 1]_vars
CopyContract == [][Len(objs') > Len(objs) =>
    \E i \in 1 .. Len(objs) : \E D \in SUBSET (MK \cup MV) : \E ch \in [D -> Vals] :
        CopyOk(objs[i], objs'[Len(objs')], ch, "sma" \in D, FALSE, MK, MV)]_vars
=============================================================================
