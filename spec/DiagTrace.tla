------------------------------ MODULE DiagTrace --------------------------------
(* Each line of the trace is a run of oclint with the lists it reported.          *)
EXTENDS Diag, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Check == LET e == Reported(Trace[l].run)
         IN IF e = Trace[l].obs THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> e]))
=============================================================================
