------------------------------ MODULE TraceForm ------------------------------
(* Recorded changes of a surface.  vol: |change of volume| / volume moved,    *)
(* in 1e-9; kmin: the least collected degradation; far: the farthest changed  *)
(* face from the crater in units of the affected radius, in percent (less the *)
(* size of a face).                                                           *)
EXTENDS TraceBase, FiniteSets
Tol == 20000
Start(trace) == [ksum |-> 0]
Judge(trace, s, e) ==
    LET b == FirstBad(<<
          <<"a value is not finite: " \o e.op, e.finite>>,
          <<"material was created or destroyed: " \o e.op, e.vol <= Tol>>,
          <<"the surface changed outside the affected area: " \o e.op, e.outside = 0>>,
          <<"nodes changed outside the affected area: " \o e.op, e.nodesoutside = 0>>,
          <<"other data changed outside the affected area: " \o e.op, e.dataoutside = 0>>,
          <<"change beyond the affected radius", e.op = "form" => e.far <= 100>>,
          <<"diffusion outside the local area: " \o e.op, e.op \in {"diffuse", "collapse", "degrade", "noise"} => e.nonlocal = 0>>,
          <<"a crater that is formed digs a hole", e.op = "form" /\ e.formed => e.dug>>,
          <<"a crater too small for its face changed the surface", e.op = "form" /\ ~e.formed => ~e.changed>>,
          <<"a crater larger than its face was not formed", e.op = "form" /\ e.large => e.formed>>,
          <<"diffusion made new extremes", e.op \in {"diffuse", "degrade"} => e.extremes>>,
          <<"bad diffusivity was accepted", e.op = "diffuse" /\ e.bad => e.refused>>,
          <<"good diffusivity was refused", e.op = "diffuse" /\ ~e.bad => ~e.refused>>,
          <<"a refused or empty change altered the surface", e.op = "diffuse" /\ (e.bad \/ e.zero) => ~e.changed>>,
          <<"diffusion did nothing", e.op = "diffuse" /\ e.strong => e.changed>>,
          <<"negative degradation was collected", e.kmin >= 0>>,
          <<"more time, less degradation", e.op = "collect" => e.kgrew>>,
          <<"degradation in parts differs from degradation at once", e.op = "collect" => e.kadds>>,
          <<"degradation remains after it was applied", e.op = "degrade" => e.kmax = 0>>,
          <<"collecting changed the surface", e.op = "collect" /\ e.kept => ~e.changed>>,
          <<"backwards time was accepted", e.op = "collect" /\ e.bad => e.refused>> >>)
    IN IF b # "" THEN Fail(b) ELSE Ok(s)
=============================================================================
