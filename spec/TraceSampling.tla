---------------------------- MODULE TraceSampling ----------------------------
(* Recorded samples of every sampler.  n values; under/over: the worst        *)
(* distance outside the bounds (-1 inside); z...: deviations from expectation *)
EXTENDS TraceBase, FiniteSets
S == INSTANCE Sampling WITH NGrid <- 1, Fine <- 1, VMax <- 0, kind <- 0, arg <- 0, out <- 0, tries <- 0, phase <- 0
Start(trace) == 0
Judge(trace, s, e) ==
    LET b == FirstBad(
       << <<"values outside their bounds: " \o e.op, S!Inside(e)>>,
          <<"another number of values than asked for: " \o e.op, e.n = e.want>>,
          <<"the values are not distributed as they should be: " \o e.op, \A i \in 1 .. Len(e.z) : S!Likely(e.z[i])>>,
          <<"the same seed gave other values: " \o e.op, e.same>> >>
       \o (IF e.op \in {"sample", "populate"} THEN
              << <<"times outside the span", e.tunder <= 2 /\ e.tover <= 2>>,
                 <<"times not in order of decreasing age", e.desc>>,
                 <<"another number of times than of diameters", e.nt = e.n \/ (~e.timed /\ e.nt = 0)>> >> ELSE <<>>)
       \o (IF e.op \in {"onface", "populate"} THEN << <<"a location is not on its face", e.off = 0>> >> ELSE <<>>)
       \o (IF e.op = "bins" THEN << <<"the bins do not hold each face once", e.once>>, <<"a bin holds faces of very different areas", e.ratio <= 2000001>>,
                                    <<"what a bin reports is not that of its faces", e.told>> >> ELSE <<>>))
    IN IF b # "" THEN Fail(b) ELSE Ok(s)
=============================================================================
