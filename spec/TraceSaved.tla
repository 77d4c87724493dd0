----------------------------- MODULE TraceSaved -----------------------------
(* Recorded histories against SavedStates.  Events carry, after the          *)
(* operation: mem (fields in memory), list (saved intervals), reads          *)
(* (interval -> fields, for saved and unsaved intervals), iv (the number     *)
(* stored in each), ends (fields read with -1, -2, ...), all (interval ->    *)
(* fields, read at once), tvs / tvends (time variables), clist / creads /    *)
(* cmem for the lists of craters                                             *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE SavedStates WITH MaxOps <- 0, Vals <- {}, Ks <- {}, s <- 0, hist <- 0, nops <- 0
Kinds == {"observed", "emplaced"}
Start(trace) == [st |-> [mem |-> 0, disk |-> <<>>], c |-> [x \in Kinds |-> <<>>], first |-> TRUE]
Key(trace, i) == trace.names[i]
\* disk of the specification is indexed by numbers 1 .. n of the intervals used (in ascending order)
TV == {"time", "elapsed_time"}
Agree(d, e) ==
    << <<"the list of saved intervals is not what was saved", e.list = S!Ascending(DOMAIN d)>>,
       <<"a saved interval does not read back as saved", \A k \in DOMAIN d : e.reads[k + 1] = d[k]>>,
       <<"an interval that was never saved gave data", \A k \in 0 .. Len(e.reads) - 1 : k \in DOMAIN d \/ DOMAIN e.reads[k + 1] = {}>>,
       <<"data carry the number of another interval", \A k \in DOMAIN d : e.iv[k + 1] = k>>,
       <<"negative numbers do not count from the end", Len(e.ends) = Cardinality(DOMAIN d) /\ \A i \in 1 .. Len(e.ends) : e.ends[i] = d[S!FromEnd(d, i)]>>,
       <<"reading all intervals at once differs", Len(e.all) = Cardinality(DOMAIN d) /\ \A i \in 1 .. Len(e.all) :
             LET k == e.all[i].k IN k \in DOMAIN d /\ \A f \in DOMAIN d[k] : f \in DOMAIN e.all[i].f /\ e.all[i].f[f] = d[k][f]>>,
       <<"time variables differ from those saved", \A k \in DOMAIN d : e.tvs[k + 1] = S!Only(d[k], TV)>>,
       <<"time variables of negative numbers differ", \A i \in 1 .. Len(e.tvends) : e.tvends[i] = S!Only(d[S!FromEnd(d, i)], TV)>> >>
CAgree(c, e) == << <<"the list of saved crater lists is not what was saved", \A x \in Kinds : e.clist[x] = S!Ascending(DOMAIN c[x])>>,
                   <<"a saved crater list does not read back as saved", \A x \in Kinds : \A k \in DOMAIN c[x] : e.creads[x][k + 1] = c[x][k]>>,
                   <<"a crater list that was not saved gave data", \A x \in Kinds : \A k \in 0 .. Len(e.creads[x]) - 1 : k \in DOMAIN c[x] \/ e.creads[x][k + 1] = 0>> >>
\* memory: the fields of the state (time variables may linger after reading them)
MemIs(m, e) == <<"memory is not what was put there", m = e.mem>>

Judge(trace, cur, e) ==
    IF e.op = "start" THEN
       LET b == FirstBad(Agree([x \in {0} |-> e.mem], e)) IN
       IF b # "" THEN Fail(b) ELSE Ok([st |-> [mem |-> e.mem, disk |-> [x \in {0} |-> e.mem]], c |-> cur.c, first |-> FALSE])
    ELSE LET
       blank == trace.blank
       n == IF e.op = "edit" THEN [st |-> [cur.st EXCEPT !.mem = e.mem], c |-> cur.c]
            ELSE IF e.op = "save" THEN [st |-> S!SaveS(cur.st, e.k, e.tv), c |-> cur.c]
            ELSE IF e.op = "export" THEN [st |-> S!ExportS(cur.st, e.k), c |-> cur.c]
            ELSE IF e.op = "csave" THEN [st |-> cur.st, c |-> [x \in Kinds |-> IF x \in {e.which[i] : i \in 1 .. Len(e.which)}
                                                                               THEN S!SaveList(cur.c[x], e.k, e.cmem[x], 0) ELSE cur.c[x]]]
            ELSE IF e.op = "reset" THEN [st |-> S!ResetS(cur.st, blank), c |-> cur.c]
            ELSE IF e.op = "creset" THEN [st |-> [cur.st EXCEPT !.mem = e.mem], c |-> [x \in Kinds |-> <<>>]]
            ELSE IF e.op = "reopen" THEN [st |-> S!ReopenS(cur.st), c |-> cur.c]
            ELSE [st |-> cur.st, c |-> cur.c]
       only == S!Only(n.st.mem, DOMAIN n.st.mem)
       b == FirstBad(<<MemIs(only, e)>> \o Agree(n.st.disk, e) \o CAgree(n.c, e))
    IN IF b # "" THEN Fail(b) ELSE Ok([st |-> n.st, c |-> n.c, first |-> FALSE])
=============================================================================
