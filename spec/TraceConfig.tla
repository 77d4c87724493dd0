---------------------------- MODULE TraceConfig ----------------------------
(* Recorded histories against Config.  trace.tb: tables of defaults; events: *)
(*  op ("create" "set" "save" "edit" "erase" "reopen"), ch, args / k, v, and *)
(*  what was observed afterwards: models, vals; new (mesh rebuilt),          *)
(*  same (the file is byte by byte as it was before)                         *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE Config WITH MaxOps <- 0, mem <- 0, file <- 0, nops <- 0
Start(trace) == [mem |-> 0, file |-> 0]

Wrong(tb, m, e) == {k \in DOMAIN e.vals : S!Applies(m, k) /\ e.vals[k] # S!Val(tb, m, k)}
\* the observation agrees with the memory expected
Check(tb, m, e, name) ==
    <<name, LET w == Wrong(tb, m, e) IN w = {} \/ ~PrintT("NOTE " \o ToString(<<name, {<<k, e.vals[k], S!Val(tb, m, k)>> : k \in w}>>))>>
Models(m, e) == \A c \in DOMAIN e.models : e.models[c] = m.ch[c]

Judge(trace, cur, e) ==
    LET tb == trace.tb
    IN  IF e.op = "create" THEN
           LET m == S!Create(tb, e.ch, e.args)
               given == S!Settings(e.args)
               b == FirstBad(<< <<"not the component asked for", Models(m, e)>>,
                                <<"an explicit argument was not used", \A k \in DOMAIN given \cap DOMAIN e.vals : S!Applies(m, k) => e.vals[k] = given[k]>>,
                                Check(tb, m, e, "wrong default") >>)
           IN IF b # "" THEN Fail(b) ELSE Ok([mem |-> m, file |-> m])
        ELSE IF e.op = "set" THEN
           LET m == S!Assign(cur.mem, e.k, e.v)
               b == FirstBad(<< <<"the assignment had no effect", e.vals[e.k] = e.v>>, Check(tb, m, e, "the assignment changed another setting") >>)
           IN IF b # "" THEN Fail(b) ELSE Ok([cur EXCEPT !.mem = m])
        ELSE IF e.op = "save" THEN
           LET b == FirstBad(<< Check(tb, cur.mem, e, "saving changed a setting") >>) IN IF b # "" THEN Fail(b) ELSE Ok([cur EXCEPT !.file = cur.mem])
        ELSE IF e.op = "edit" THEN Ok([cur EXCEPT !.file.set = S!Over(cur.file.set, [x \in {e.k} |-> e.v])])
        ELSE IF e.op = "erase" THEN Ok([cur EXCEPT !.file.set = S!Drop(cur.file.set, {e.k})])
        ELSE IF e.op = "reopen" THEN
           LET m == S!Reopen(tb, cur.file, e.ch, e.args)
               given == S!Settings(e.args)
               new == S!NewMesh(tb, cur.file, e.ch, e.args)
               b == FirstBad(<< <<"not the component asked for or saved", Models(m, e)>>,
                                <<"an explicit argument did not win over the file", \A k \in DOMAIN given \cap DOMAIN e.vals : S!Applies(m, k) => e.vals[k] = given[k]>>,
                                Check(tb, m, e, "a setting did not survive"),
                                <<"the mesh was not rebuilt exactly when it had to be", e.new = new>>,
                                <<"a read-only configuration was changed", e.new \/ e.same>> >>)
           IN IF b # "" THEN Fail(b) ELSE Ok([mem |-> m, file |-> IF new THEN m ELSE cur.file])
        ELSE Fail("unknown event " \o e.op)
=============================================================================
