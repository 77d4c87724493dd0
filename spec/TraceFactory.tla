---------------------------- MODULE TraceFactory -----------------------------
(* Recorded requests.  objs: the attributes of every component so far, read   *)
(* after the event.                                                           *)
EXTENDS TraceBase, FiniteSets
F == INSTANCE Factory WITH Kinds <- {}, Bases <- {}, Args <- {}, MaxObj <- 0, MaxOps <- 0, objs <- 0, n <- 0, last <- 0
Start(trace) == <<>>
Same(s, e, but) == /\ Len(e.objs) >= Len(s)
                   /\ \A i \in 1 .. Len(s) : i # but => e.objs[i] = s[i]
Base(e) == IF e.kind # "scaling" THEN e.body ELSE IF "material" \in DOMAIN e.given THEN e.given.material ELSE F!Bodies[e.body][3]
Judge(trace, s, e) ==
    LET b == CASE e.op = "make" ->
                     FirstBad(<< <<"making a component changed another one", Same(s, e, 0)>>,
                                 <<"no new component", Len(e.objs) = Len(s) + 1>>,
                                 <<"another model than asked for", e.model = IF e.name = "" THEN F!Default(e.kind, e.body) ELSE e.name>>,
                                 <<"an object that was already there", e.new>>,
                                 <<"a component passed in was not used as it is", e.used>>,
                                 <<"the values are not those of the catalogue and the arguments", 
                                   LET want == F!Values(e.kind, e.model, Base(e), e.given) IN
                                   Len(e.objs) = Len(s) + 1 => \A a \in DOMAIN want : e.objs[Len(s) + 1][a] = want[a]>>,
                                 <<"an explicit argument was not used", Len(e.objs) = Len(s) + 1 => \A a \in DOMAIN e.given : a \in DOMAIN e.objs[Len(s) + 1] => e.objs[Len(s) + 1][a] = e.given[a]>> >>)
               [] e.op = "pass" -> FirstBad(<< <<"another object than the one passed in", e.same>>, <<"passing a component through changed something", e.objs = s>> >>)
               [] e.op = "change" -> FirstBad(<< <<"changing a component changed another one", Same(s, e, e.i) /\ Len(e.objs) = Len(s)>>,
                                                 <<"the change was not taken over", e.objs[e.i][e.a] = e.v>> >>)
               [] e.op = "refuse" -> FirstBad(<< <<"a request that names no component was accepted", e.refused>>,
                                                 <<"the refusal does not say what there is", \A x \in F!Known[e.kind] : x \in {e.listed[j] : j \in 1 .. Len(e.listed)}>>,
                                                 <<"a refused request changed something", e.objs = s>> >>)
               [] e.op = "tamper" -> FirstBad(<< <<"changing a returned catalogue changed a component", e.objs = s>> >>)
               [] OTHER -> "unknown event"
    IN IF b # "" THEN Fail(b) ELSE Ok(e.objs)
=============================================================================
