---------------------------- MODULE TraceCraterId ----------------------------
(* Every event carries the observed snapshot of all craters after it:        *)
(*   objs : sequence of [KeyFields, VarFields, mtype, id |-> interned value] *)
(* new  : a crater was created;                                              *)
(* copy : crater i was copied, ch = explicitly given fields, size, dens, vel *)
(* set  : variable field(s) of crater i assigned; ch = resulting fields      *)
(* fix  : an attempt to modify a fixed parameter of crater i                 *)
(* conv : crater i was converted to another crater class                     *)
(* proc : the same crater made in another process had identity `other`       *)
EXTENDS TraceBase, FiniteSets
K == INSTANCE CraterId WITH Vals <- {1}, MaxObj <- 1, MaxOps <- 1, objs <- 0, n <- 0, lastid <- 0
Start(trace) == <<>>
Key(o) == [f \in K!KeyFields |-> o[f]]
Same(old, new) == \A i \in 1 .. Len(old) : new[i] = old[i]
IdOk(os) == \A i, j \in 1 .. Len(os) : (os[i].id = os[j].id) <=> (Key(os[i]) = Key(os[j]))

JudgeNew(s, e) ==
    IF Len(e.objs) # Len(s) + 1 THEN Fail("no new crater")
    ELSE IF ~Same(s, e.objs) THEN Fail("making a crater changed another one")
    ELSE IF ~IdOk(e.objs) THEN Fail("identity is not a function of the fixed parameters")
    ELSE Ok(e.objs)

JudgeCopy(s, e) ==
    LET new == e.objs[Len(e.objs)]  old == s[e.i]
        free == (IF e.vel THEN {"pv"} ELSE {})
    IN  IF Len(e.objs) # Len(s) + 1 THEN Fail("no new crater")
        ELSE IF ~Same(s, e.objs) THEN Fail("copying a crater changed an existing one")
        ELSE IF ~K!CopyOk(old, new, e.ch, e.size, e.dens, K!KeyFields \ free, K!VarFields)
             THEN Fail("copy does not carry the parameters over except those replaced")
        ELSE IF ~e.size /\ new.mtype # old.mtype THEN Fail("copy changed the morphology type")
        ELSE IF e.dens /\ new.pm = old.pm THEN Fail("explicit density ignored in the copy")
        ELSE IF e.size /\ (e.nomeas /\ (new.msma # new.sma \/ new.msmi # new.smi)) THEN Fail("resized copy keeps stale measured size")
        ELSE IF ~IdOk(e.objs) THEN Fail("identity is not a function of the fixed parameters")
        ELSE Ok(e.objs)

JudgeSet(s, e) ==
    IF Len(e.objs) # Len(s) THEN Fail("number of craters changed")
    ELSE IF \E j \in 1 .. Len(s) : j # e.i /\ e.objs[j] # s[j] THEN Fail("measuring a crater changed another one")
    ELSE IF Key(e.objs[e.i]) # Key(s[e.i]) \/ e.objs[e.i].id # s[e.i].id \/ e.objs[e.i].mtype # s[e.i].mtype
         THEN Fail("measuring a crater changed its identity or fixed parameters")
    ELSE IF \E f \in K!VarFields : e.objs[e.i][f] # (IF f \in DOMAIN e.ch THEN e.ch[f] ELSE s[e.i][f])
         THEN Fail("measurement not stored or stored elsewhere")
    ELSE Ok(e.objs)

JudgeConv(s, e) ==
    LET new == e.objs[Len(e.objs)]  old == s[e.i]
    IN  IF ~Same(s, e.objs) THEN Fail("converting a crater changed an existing one")
        ELSE IF Key(new) # Key(old) \/ new.id # old.id \/ new.mtype # old.mtype THEN Fail("conversion changed identity or fixed parameters")
        ELSE IF \E f \in K!VarFields \ {"mrim", "mflr"} : new[f] # old[f] THEN Fail("conversion lost variable state")
        ELSE Ok(e.objs)

Judge(trace, s, e) ==
    CASE e.op = "new"  -> JudgeNew(s, e)
      [] e.op = "copy" -> JudgeCopy(s, e)
      [] e.op = "set"  -> JudgeSet(s, e)
      [] e.op = "fix"  -> IF e.objs = s THEN Ok(s) ELSE Fail("a fixed parameter was modified")
      [] e.op = "conv" -> JudgeConv(s, e)
      [] e.op = "proc" -> IF e.objs # s THEN Fail("crater changed")
                          ELSE IF s[e.i].id # e.other THEN Fail("identity differs between processes") ELSE Ok(s)
      [] OTHER -> Fail("unknown event")
=============================================================================
