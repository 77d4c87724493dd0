---------------------------- MODULE TraceScaling -----------------------------
(* Recorded histories.  o: the settings read back after every event           *)
(* (mat, str, rho, body, nom: deviation of the nominal transition from that   *)
(* of the body after each of its changes, det: deterministic, tr: deviation   *)
(* of the transition diameter from the nominal one).                          *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE Scaling WITH Bodies <- {}, Mats <- {}, Vals <- {}, MaxOps <- 0, s <- 0, n <- 0, last <- 0
Start(trace) == [body |-> ""]
Settings(t, o) ==
    << <<"the material is not the current one", o.mat = t.mat>>,
       <<"the strength is not that of the current settings", o.str = t.str>>,
       <<"the density is not that of the current settings", o.rho = t.rho>>,
       <<"the target is not the current one", o.body = t.body>>,
       <<"the transition is not that of the target", S!Close(o.nom[t.nomOf[2] + 1]) \/ S!Close(o.nom[t.moved + 1])>>,
       <<"the transition diameter strays without Monte Carlo", o.det => S!Close(o.tr)>>,
       <<"the transition diameter is beyond its spread", o.far <= 8000>> >>
Sizes(e) ==
    << <<"the transient size is not that of the settings", \A i \in 1 .. Len(e.pt) : S!Close(e.pt[i])>>,
       <<"a larger projectile gave a smaller transient crater", S!Rising(e.torder)>>,
       <<"the projectile size does not invert the transient size", \A i \in 1 .. Len(e.tp) : S!Close(e.tp[i])>>,
       <<"the final size does not invert to the transient size", \A i \in 1 .. Len(e.tf) : S!Close(e.tf[i])>>,
       <<"wrong class for a transient size", \A i \in 1 .. Len(e.fclass) : S!ClassFar(e.fratio[i], e.fclass[i])>>,
       <<"larger transient craters gave smaller ones of the same class", S!Rising(e.fsimple) /\ S!Rising(e.fcomplex)>>,
       <<"wrong class for a final size", \A i \in 1 .. Len(e.class) : S!ClassOk(e.ratio[i], e.class[i], ~e.o.det)>>,
       <<"the transient size is not that of the class", \A i \in 1 .. Len(e.ft) : S!Close(e.ft[i])>>,
       <<"larger final craters gave smaller transient ones of the same class", S!Rising(e.tsimple) /\ S!Rising(e.tcomplex)>>,
       <<"the transient size does not invert to the final size", \A i \in 1 .. Len(e.back) : S!Close(e.back[i])>>,
       <<"the same conversion gave another size", e.same>> >>
Judge(trace, t, e) ==
    IF e.op = "create"
    THEN IF ~S!Legal(e.b, e.m, e.g, e.d) THEN (IF e.refused THEN Ok(t) ELSE Fail("a model without strength was accepted"))
         ELSE IF e.refused THEN Fail("a legal model was refused")
         ELSE LET x == S!Create(e.b, e.m, e.g, e.d) b == FirstBad(Settings(x, e.o)) IN IF b = "" THEN Ok(x) ELSE Fail(b)
    ELSE LET x == CASE e.op = "mat" -> S!SetMat(t, e.m)
                    [] e.op = "str" -> S!SetStr(t, e.i, e.v)
                    [] e.op = "rho" -> S!SetRho(t, e.d)
                    [] e.op = "body" -> S!SetBody(t, e.b, e.d)
                    [] e.op = "move" -> S!Move(t)
                    [] e.op \in {"recompute", "mode", "crater"} -> S!Recompute(t)
                    [] OTHER -> t
             b == FirstBad(Settings(x, e.o)
                           \o (IF e.op \in {"size", "crater"} THEN Sizes(e) ELSE <<>>)
                           \o (IF e.op = "bad" THEN << <<"an impossible size was accepted", e.refused = e.asked>> >> ELSE <<>>))
         IN IF b = "" THEN Ok(x) ELSE Fail(b)
=============================================================================
