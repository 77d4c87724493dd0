------------------------------ MODULE Observed ------------------------------
(* C11: the list of observed craters and the crater tags on the surface.     *)
(* tags : atom -> set of craters whose tag it carries (an atom is a set of   *)
(* faces that lie in exactly the same crater regions and rims).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OnSurface(tags) == UNION {tags[a] : a \in DOMAIN tags}
Consistent(tags, obs) == OnSurface(tags) = obs

\* ------------------------------------------------------- transition functions
\* reg[c], rim[c] : atoms of the tagged region and of the rim interior;
\* dia[c] : diameter; counts(c) : covers enough faces to be counted.
TagsAfterAdd(tags, obs, c, reg, rim, dia) ==
    LET t1 == [a \in DOMAIN tags |-> IF a \in reg[c] THEN tags[a] \cup {c} ELSE tags[a]]
        smaller == {v \in obs : dia[v] < dia[c]} \ {c}
    IN  [a \in DOMAIN tags |-> IF a \in rim[c] THEN t1[a] \ smaller ELSE t1[a]]
\* a crater none of whose region can be tagged is not recorded and cuts nothing
AfterAdd(tags, obs, c, counted, reg, rim, dia) ==
    IF ~counted \/ (reg[c] = {} /\ c \notin OnSurface(tags)) THEN [tags |-> tags, obs |-> obs]
    ELSE LET t == TagsAfterAdd(tags, obs, c, reg, rim, dia)
         IN  [tags |-> t, obs |-> {v \in obs \cup {c} : v \in OnSurface(t)}]
AfterRemove(tags, obs, R) == [tags |-> [a \in DOMAIN tags |-> tags[a] \ R], obs |-> obs \ R]
\* a tally removes the craters that are no longer visible and tags without a crater
AfterTally(tags, obs, faded) == AfterRemove(tags, obs, faded \cup (OnSurface(tags) \ obs))

\* -------------------------------------------------------------- state machine
CONSTANTS NC, NA, MaxSaves
VARIABLES tags, obs, files, interval, reg, rim, dia
vars == <<tags, obs, files, interval, reg, rim, dia>>
Cs == 1 .. NC
As == 1 .. NA
Blank == [a \in As |-> {}]
Init == /\ tags = Blank /\ obs = {} /\ files = <<>> /\ interval = 0
        /\ reg \in [Cs -> SUBSET As]
        /\ rim \in [Cs -> SUBSET As] /\ \A c \in Cs : rim[c] \subseteq reg[c]
        /\ dia \in [Cs -> 1 .. 2]
Geo == UNCHANGED <<reg, rim, dia>>
Set(r) == tags' = r.tags /\ obs' = r.obs /\ Geo
Add(c) == Set(AfterAdd(tags, obs, c, TRUE, reg, rim, dia)) /\ UNCHANGED <<files, interval>>
Remove(c) == Set(AfterRemove(tags, obs, {c})) /\ UNCHANGED <<files, interval>>
Tally(F) == Set(AfterTally(tags, obs, F)) /\ UNCHANGED <<files, interval>>
\* saves are numbered; saving the same interval again replaces it
Save == /\ Len(files) < MaxSaves
        /\ files' = Append(files, [tags |-> tags, obs |-> obs])
        /\ UNCHANGED <<tags, obs, interval>> /\ Geo
Resave == /\ files # <<>>
          /\ files' = [files EXCEPT ![Len(files)] = [tags |-> tags, obs |-> obs]]
          /\ UNCHANGED <<tags, obs, interval>> /\ Geo
Reopen == /\ files # <<>>
          /\ Set(files[Len(files)]) /\ UNCHANGED <<files, interval>>
Reset == /\ Set([tags |-> Blank, obs |-> {}]) /\ files' = <<>> /\ UNCHANGED interval
Next == \/ \E c \in Cs : Add(c) \/ Remove(c)
        \/ \E F \in SUBSET obs : Tally(F)
        \/ Save \/ Resave \/ Reopen \/ Reset
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Agree == Consistent(tags, obs)
FilesAgree == \A i \in 1 .. Len(files) : Consistent(files[i].tags, files[i].obs)
\* tags stay inside the crater's own region
InRegion == \A a \in As : \A c \in tags[a] : a \in reg[c]
\* one step never adds or removes the tag of a crater outside what the step covers,
\* and a crater never loses tags to a smaller or equal one
StepLocal == [][\A c \in Cs : Add(c) =>
                  \A a \in As : \A v \in Cs \ {c} :
                     (v \in tags[a]) # (v \in tags'[a]) => (a \in rim[c] /\ dia[v] < dia[c])]_vars
=============================================================================
