----------------------------- MODULE TraceConsent -----------------------------
(* Recorded operations against Consent.  Every event carries                 *)
(*   op, ask, own (file -> class), d, e (file -> contents before and after), *)
(*   prompts (files named, answer), stake (the files the operation is about, *)
(*   when it is not about all of the target classes), flags (the ask setting *)
(*   of the simulation, the surface and the counting afterwards)             *)
EXTENDS TraceBase, FiniteSets
C == INSTANCE Consent WITH Files <- {}, MaxVer <- 0, MaxOps <- 0, disk <- 0, op <- 0, agreed <- 0, ask <- 0, off <- 0, todo <- 0, prev <- 0, prompts <- 0, n <- 0
SetOf(q) == {q[i] : i \in DOMAIN q}
Start(trace) == 0
Prompts(e) == [i \in 1 .. Len(e.prompts) |-> [f |-> SetOf(e.prompts[i].f), ans |-> e.prompts[i].ans]]
Answered(p) == \A i \in DOMAIN p : p[i].ans # "n"
Of(m, e, cs) == {f \in DOMAIN m : e.own[f] \in cs}
Judge(trace, s, e) ==
    LET p == Prompts(e)
        ch == C!Changed(e.d, e.e)
        foreign == {f \in DOMAIN e.d : e.own[f] = "foreign"}
        tgt == C!InTarget(e.op, e.own, DOMAIN e.d)
        stake == IF "stake" \in DOMAIN e THEN SetOf(e.stake) \cap DOMAIN e.d ELSE tgt
        free == {f \in DOMAIN e.d : e.own[f] \in {"config", "other"}}
        agreed == IF e.ask THEN C!Agreed(p, stake, DOMAIN e.d) ELSE stake
        b == FirstBad(
          << <<"a file the program did not make was removed or changed", ch \cap foreign = {}>> >> \o
          (IF e.op = "work" THEN <<>> ELSE
          << <<"an operation removed or changed results that are not its own", ch \ (stake \cup free) = {}>>,
             <<"results were discarded without consent", ch \cap stake \subseteq agreed>>,
             <<"a refused operation changed the configuration", (C!Refused(p) /\ e.raised) => \A f \in ch : e.own[f] # "config">>,
             <<"a question was asked although overwriting is enabled", C!Quiet(e.ask, p)>>,
             <<"a question was asked after all were answered", e.op \in {"sreset", "creset", "simreset"} => ~C!AskedAfterAll(p)>>,
             <<"the setting that questions are asked changed", e.keepflags => \A i \in DOMAIN e.flags : e.flags[i] = e.ask0>>,
             <<"an agreed reset left earlier results", (e.op \in {"sreset", "simreset", "regrid", "openreset"} /\ Answered(p) /\ ~e.raised) =>
                    Of(e.e, e, {"surface", "simg"}) \subseteq SetOf(e.first)>>,
             <<"an agreed reset left earlier counts", (e.op \in {"creset", "simreset", "regrid", "openreset"} /\ Answered(p) /\ ~e.raised) => Of(e.e, e, {"counting", "cimg"}) = {}>>,
             <<"an agreed operation failed", (Answered(p) /\ e.op # "export") => ~e.raised>> >>))
    IN IF b # "" THEN Fail(b) ELSE Ok(0)
=============================================================================
