----------------------------- MODULE TraceStream -----------------------------
(* Recorded histories.  state/result: of the simulation, twin*: of the one    *)
(* given the same seed and operations, proc*: of the same history in another  *)
(* process; gens: the generators the components hold; pure: the result is a   *)
(* function of the generator state and of `what` (arguments and settings).    *)
EXTENDS TraceBase, FiniteSets
Start(trace) == [state |-> "", saved |-> <<>>, memo |-> {}]
Draws == {"sample", "projectile", "crater", "face", "location", "function", "populate", "emplace", "run"}
Quiet == {"read", "save", "record", "seed", "outside", "other"}
Judge(trace, s, e) ==
    LET known == {m \in s.memo : m[1] = s.state /\ m[2] = e.what}
        b == FirstBad(
        << <<"components draw from different generators", \A i \in 1 .. Len(e.gens) : e.gens[i] = 1>>,
           <<"a generator outside the simulation was used", e.np /\ e.py>>,
           <<"another simulation was disturbed", e.alone>>,
           <<"the same seed and operations gave another result: " \o e.op, e.result = e.twinresult>>,
           <<"the same seed and operations left another state: " \o e.op, e.state = e.twinstate>>,
           <<"another process gave another result: " \o e.op, e.result = e.procresult>>,
           <<"another process left another state: " \o e.op, e.state = e.procstate>>,
           <<"an operation that draws nothing changed the stream: " \o e.op, e.op \in Quiet => e.state = s.state>>,
           <<"the recorded state was not restored", e.op = "restore" => e.state = s.saved[e.k]>>,
           <<"the same state gave other draws: " \o e.op, e.pure => \A m \in known : m[3] = <<e.result, e.state>> >>,
           <<"the same state gave other draws: " \o e.op, e.redo>>,
           <<"a draw left the stream where it was: " \o e.op, e.must => e.state # s.state>> >>)
    IN IF b # "" THEN Fail(b)
       ELSE Ok([state |-> e.state, saved |-> IF e.op = "record" THEN Append(s.saved, e.state) ELSE s.saved,
                memo |-> IF e.pure THEN s.memo \cup {<<s.state, e.what, <<e.result, e.state>> >>} ELSE s.memo])
=============================================================================
