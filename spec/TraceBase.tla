------------------------------ MODULE TraceBase ------------------------------
(* The skeleton of every trace specification: the recorded events of one run of  *)
(* the real code are consumed one by one; an event that is not a step of the      *)
(* specification is reported as BAD with its line number, and checking continues   *)
(* with the next one (the specification state is then taken from the event).      *)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
Judge(l,ok,why) == IF ok THEN TRUE ELSE PrintT(<<"BAD",l,why>>)
Done(l) == IF l = TraceLen + 1 THEN PrintT(<<"CONSUMED",TraceLen>>) ELSE TRUE
===============================================================================
