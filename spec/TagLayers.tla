----------------------------- MODULE TagLayers -----------------------------
(* C12: integer tags in a fixed number of layers per face.                   *)
(* A face's layers hold tags or 0 (empty); what the user relies on is the    *)
(* bag of tags of every face.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Bags of tags are ascending sequences.
RECURSIVE Insert(_, _)
Insert(s, t) == IF s = <<>> THEN <<t>>
                ELSE IF t <= s[1] THEN <<t>> \o s ELSE <<s[1]>> \o Insert(Tail(s), t)
Without(s, t) == SelectSeq(s, LAMBDA x : x # t)
RemoveOne(s, k) == [j \in 1 .. Len(s) - 1 |-> IF j < k THEN s[j] ELSE s[j + 1]]

\* ------------------------------------------------------- declarative contract
\* Possible bags of a face after adding t, with nl layers.
AfterAdd(b, t, nl) == IF Len(b) < nl THEN {Insert(b, t)}
                      ELSE {Insert(RemoveOne(b, k), t) : k \in 1 .. Len(b)}
MustWarn(b, nl) == Len(b) >= nl
AfterRemove(b, t) == Without(b, t)

\* -------------------------------------------------------------- state machine
CONSTANTS NF, NL, NT, MaxOps
VARIABLES layers,   \* face -> sequence of NL slots
          owed,     \* face -> bag the user expects
          warned, last, n
vars == <<layers, owed, warned, last, n>>
\* Regions: whole surface, two overlapping ones, and a part of the first.
Regions == <<1 .. NF, 1 .. (NF - 1), 2 .. NF, 2 .. 2>>
Bag(ls) == LET RECURSIVE G(_) G(i) == IF i > Len(ls) THEN <<>>
                                      ELSE IF ls[i] = 0 THEN G(i + 1) ELSE Insert(G(i + 1), ls[i])
           IN  G(1)
FirstFree(ls) == IF \E i \in 1 .. NL : ls[i] = 0
                 THEN CHOOSE i \in 1 .. NL : ls[i] = 0 /\ \A j \in 1 .. i - 1 : ls[j] # 0
                 ELSE 1
Init == /\ layers = [f \in 1 .. NF |-> [i \in 1 .. NL |-> 0]]
        /\ owed = [f \in 1 .. NF |-> <<>>]
        /\ warned = FALSE /\ last = [op |-> "init"] /\ n = 0
Add(r, t) ==
    /\ layers' = [f \in 1 .. NF |-> IF f \in Regions[r] THEN [layers[f] EXCEPT ![FirstFree(layers[f])] = t] ELSE layers[f]]
    /\ warned' = (\E f \in Regions[r] : \A i \in 1 .. NL : layers[f][i] # 0)
    /\ owed' = [f \in 1 .. NF |-> IF f \in Regions[r]
                                  THEN CHOOSE b \in AfterAdd(owed[f], t, NL) : Len(owed[f]) < NL \/ b = Bag(layers'[f])
                                  ELSE owed[f]]
    /\ last' = [op |-> "add", r |-> r, t |-> t]
Remove(r, t) ==
    /\ layers' = [f \in 1 .. NF |-> IF f \in Regions[r] THEN [i \in 1 .. NL |-> IF layers[f][i] = t THEN 0 ELSE layers[f][i]] ELSE layers[f]]
    /\ owed' = [f \in 1 .. NF |-> IF f \in Regions[r] THEN AfterRemove(owed[f], t) ELSE owed[f]]
    /\ warned' = FALSE /\ last' = [op |-> "remove", r |-> r, t |-> t]
Sort(r) ==
    /\ layers' = [f \in 1 .. NF |-> IF f \in Regions[r] THEN SortSeq(layers[f], LAMBDA a, b : a > b) ELSE layers[f]]
    /\ UNCHANGED owed /\ warned' = FALSE /\ last' = [op |-> "sort", r |-> r]
Clear == /\ layers' = [f \in 1 .. NF |-> [i \in 1 .. NL |-> 0]]
         /\ owed' = [f \in 1 .. NF |-> <<>>]
         /\ warned' = FALSE /\ last' = [op |-> "clear"]
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E r \in 1 .. 4 : \E t \in 1 .. NT : Add(r, t) \/ Remove(r, t)
           \/ \E r \in 1 .. 4 : Sort(r)
           \/ Clear
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Faithful == \A f \in 1 .. NF : Bag(layers[f]) = owed[f]
\* A tag that was not removed disappears only with a warning.
NoSilentLoss ==
    [][last'.op \in {"add", "sort"} /\ ~warned' =>
         \A f \in 1 .. NF : \A t \in 1 .. NT :
            Cardinality({i \in 1 .. NL : layers'[f][i] = t}) >= Cardinality({i \in 1 .. NL : layers[f][i] = t})]_vars
Local ==
    [][\A f \in 1 .. NF : last'.op \in {"add", "remove", "sort"} /\ f \notin Regions[last'.r] => layers'[f] = layers[f]]_vars
=============================================================================
