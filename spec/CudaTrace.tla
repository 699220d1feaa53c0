-------------------------------- MODULE CudaTrace -------------------------------
(* Each line of the trace is a run with the events of the scripted rules and what  *)
(* the rules for kernels reported.                                                 *)
EXTENDS Cuda, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16
Init == l \in 1..(IF Len(Trace) < W THEN Len(Trace) ELSE W)
Next == l + W <= Len(Trace) /\ l' = l + W
Check == LET e == Expected(Trace[l].run)
         IN IF e = Trace[l].obs THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, exp |-> e]))
=================================================================================
