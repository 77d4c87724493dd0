----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validation.  A trace module EXTENDS the specification and  *)
(* this module, and its configuration substitutes                           *)
(*   StartOp(trace)           the specification state a trace starts in     *)
(*   JudgeOp(trace, st, ev)   [bad |-> "" or the violated clause,           *)
(*                             st  |-> the specification state afterwards]  *)
(* Every recorded event is consumed or the violated clause is reported, so  *)
(* the verdict is total; the runner checks the number of states.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS StartOp(_), JudgeOp(_, _, _)
VARIABLES tr, l, st, bad

Traces == JsonDeserialize(IOEnv.VH_TRACES)

TInit == /\ tr \in 1 .. Len(Traces)
         /\ l = 1
         /\ st = IF Traces[tr].ok THEN StartOp(Traces[tr]) ELSE 0
         /\ bad = ""

TNext == /\ bad = ""
         /\ l <= Len(Traces[tr].ev)
         /\ LET r == IF Traces[tr].ok THEN JudgeOp(Traces[tr], st, Traces[tr].ev[l])
                     ELSE [bad |-> "unexpected error", st |-> 0]
            IN  /\ bad' = r.bad
                /\ st' = IF r.bad = "" THEN r.st ELSE st
                /\ IF r.bad = "" THEN TRUE
                                 ELSE PrintT("BAD " \o ToString(<<tr, l, r.bad>>))
         /\ l' = l + 1
         /\ tr' = tr

TSpec == TInit /\ [][TNext]_<<tr, l, st, bad>>

Ok(s)     == [bad |-> "", st |-> s]
Fail(c)   == [bad |-> c, st |-> 0]
\* First violated clause of a sequence of <<name, holds>> pairs ("" if none).
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN ""
                ELSE IF cs[1][2] THEN FirstBad(Tail(cs)) ELSE cs[1][1]
=============================================================================
